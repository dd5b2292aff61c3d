------------------------------- MODULE Arrays -------------------------------
(* Distributed arrays and stacks of them as values, and their operations.    *)
(*                                                                           *)
(* An array is a record                                                      *)
(*   k    "arr"                                                              *)
(*   g    global shape                                                       *)
(*   part "S" scattered, "B" replicated, "U" replicated without guarantee    *)
(*   ax   axis of distribution                                               *)
(*   sz   extents of the pieces along the axis ("B", "U": the whole extent)  *)
(*   mask group of each process, or <<>>                                     *)
(*   dt   "i8", "f4", "f8", "c8" or "c16"                                    *)
(*   v    the piece of each process, flat in row-major order                 *)
(* A stack is [k |-> "stk", a |-> sequence of arrays].                       *)
(* Every operation is written per piece, as the processes do it; Machine.tla *)
(* has the invariants that relate it to the gathered arrays.                 *)
EXTENDS Layout

CONSTANT P                       \* number of processes
Procs == 1..P

IsC(dt) == dt \in {"c8", "c16"}
Single(dt) == dt \in {"f4", "c8"}
Promote(a, b) ==
  IF a = "i8" /\ b = "i8" THEN "i8"
  ELSE LET one == Single(a) /\ Single(b)
       IN  IF IsC(a) \/ IsC(b) THEN (IF one THEN "c8" ELSE "c16")
           ELSE (IF one THEN "f4" ELSE "f8")
(* python scalars are weak: they decide the kind but not the precision       *)
PromoteScalar(dt, sk) ==
  CASE sk = "int" -> dt
    [] sk = "float" -> IF dt = "i8" THEN "f8" ELSE dt
    [] sk = "complex" -> IF IsC(dt) THEN dt ELSE IF dt = "f4" THEN "c8" ELSE "c16"
(* can element type a hold what b holds?                                     *)
Holds(a, b) == /\ IsC(b) => IsC(a)
               /\ Single(a) => Single(b)
               /\ a = "i8" => b = "i8"

Arr(g, part, ax, sz, mask, dt, v) ==
  [k |-> "arr", g |-> g, part |-> part, ax |-> ax, sz |-> sz, mask |-> mask, dt |-> dt, v |-> v]

FullSizes(g, ax) == [r \in Procs |-> g[ax + 1]]
DefSizes(g, part, ax) == IF part = "S" THEN Balanced(g[ax + 1], P) ELSE FullSizes(g, ax)

Repl(x) == x.part \in {"B", "U"}
LShape(x, r) == SetAx(x.g, x.ax, x.sz[r])
LShapes(x) == [r \in Procs |-> LShape(x, r)]
LocalN(x) == [r \in Procs |-> ProdI(LShape(x, r))]

(* the global array (of an unguarded replica: that of the first process)     *)
Global(x) == IF x.part = "S" THEN Gather(x.v, x.g, x.ax, x.sz) ELSE x.v[1]

(* cut a flat global array                                                   *)
Make(d, g, part, ax, sz, mask, dt) ==
  Arr(g, part, ax, sz, mask, dt,
      IF part = "S" THEN Scatter(d, g, ax, sz) ELSE [r \in Procs |-> d])

(* one group for every process                                             *)
ValidMask(mask) == mask = <<>> \/ (Len(mask) = P /\ \A r \in 1..P : mask[r] >= 0)
ValidLayout(g, part, ax, sz) ==
  /\ ax < Len(g)
  /\ IF part = "S" THEN ValidSizes(sz, g[ax + 1], P) ELSE sz = FullSizes(g, ax)

(* ---- elementwise ---------------------------------------------------------*)
PieceMap(F(_), x) == [r \in Procs |-> [i \in 1..Len(x.v[r]) |-> F(x.v[r][i])]]
PieceMap2(F(_, _), x, y) == [r \in Procs |-> [i \in 1..Len(x.v[r]) |-> F(x.v[r][i], y.v[r][i])]]

Compatible(x, y) ==
  /\ x.part = y.part
  /\ x.g = y.g
  /\ LShapes(x) = LShapes(y)
  /\ x.mask = y.mask

NegA(x) == [x EXCEPT !.v = PieceMap(CNeg, x)]
ConjA(x) == [x EXCEPT !.v = PieceMap(CConj, x)]
CopyA(x) == x
ZerosA(x) == [x EXCEPT !.v = [r \in Procs |-> VZero(Len(x.v[r]))]]
AddA(x, y) == [x EXCEPT !.v = PieceMap2(CAdd, x, y), !.dt = Promote(x.dt, y.dt)]
SubA(x, y) == [x EXCEPT !.v = PieceMap2(CSub, x, y), !.dt = Promote(x.dt, y.dt)]
MulA(x, y) == [x EXCEPT !.v = PieceMap2(CMul, x, y), !.dt = Promote(x.dt, y.dt)]
SMulA(x, s, sk) == LET F(z) == CMul(s, z) IN [x EXCEPT !.v = PieceMap(F, x), !.dt = PromoteScalar(x.dt, sk)]
IAddA(x, y) == [x EXCEPT !.v = PieceMap2(CAdd, x, y)]
ISubA(x, y) == [x EXCEPT !.v = PieceMap2(CSub, x, y)]

RavelA(x, order) ==
  LET n == LocalN(x)
      N == ProdI(x.g)
  IN  Arr(<<N>>, x.part, 0, IF x.part = "S" THEN n ELSE FullSizes(<<N>>, 0), x.mask, x.dt,
          [r \in Procs |-> IF order = "F" THEN FRavel(x.v[r], LShape(x, r)) ELSE x.v[r]])

(* ---- assignment ----------------------------------------------------------*)
(* positions of the local array selected by an index, in the order of the    *)
(* assigned values                                                           *)
Positions(idx, sh) ==
  LET rest == ProdI(Tail(sh))
  IN  CASE idx.t = "all" -> [i \in 1..ProdI(sh) |-> i]
        [] idx.t = "i" -> [i \in 1..rest |-> idx.i * rest + i]
        [] idx.t = "s" -> [i \in 1..((idx.b - idx.a) * rest) |-> idx.a * rest + i]
        [] idx.t = "c" -> [i \in 1..sh[1] |-> (i - 1) * sh[2] + idx.i + 1]

PutAt(v, pos, val) ==
  LET one == Len(val) = 1
  IN  [i \in 1..Len(v) |->
        IF \E p \in 1..Len(pos) : pos[p] = i
        THEN LET p == CHOOSE q \in 1..Len(pos) : pos[q] = i IN val[IF one THEN 1 ELSE p]
        ELSE v[i]]

(* of a replicated array, everybody gets the value of the first process      *)
SetA(x, idx, val) ==
  [x EXCEPT !.v = [r \in Procs |->
      PutAt(x.v[r], Positions(idx[r], LShape(x, r)), IF x.part = "B" THEN val[1] ELSE val[r])]]

(* ---- reductions ----------------------------------------------------------*)
Group(mask, r) == IF mask = <<>> THEN Procs ELSE {q \in Procs : mask[q] = mask[r]}
SumOver(S, F(_)) == FoldLeft(LAMBDA acc, r : IF r \in S THEN CAdd(acc, F(r)) ELSE acc, Z0, [r \in Procs |-> r])

(* what each process contributes: its piece; of a replica its balanced share *)
Share(x) == IF Repl(x)
            THEN [r \in Procs |-> Scatter(x.v[r], x.g, 0, Balanced(x.g[1], P))[r]]
            ELSE x.v

DotA(x, y) ==
  LET sx == Share(x)
      sy == Share(y)
      loc == [r \in Procs |-> VDot(sx[r], sy[r])]
  IN  [r \in Procs |-> SumOver(Group(x.mask, r), LAMBDA q : loc[q])]

(* order-p "mass" of elements: their norm to the power p (p as a string)     *)
Inf == 2000000012
NegInf == -2000000012
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
ISqrt(n) == CHOOSE k \in 0..n : k * k = n
Mass(ord, zs) ==
  CASE ord = "0" -> Cardinality({i \in 1..Len(zs) : zs[i] # Z0})
    [] ord = "1" -> SumI([i \in 1..Len(zs) |-> CAbs(zs[i])])
    [] ord = "2" -> SumI([i \in 1..Len(zs) |-> CAbs2(zs[i])])
    [] ord = "3" -> SumI([i \in 1..Len(zs) |-> Pow(CAbs(zs[i]), 3)])
    [] ord = "4" -> SumI([i \in 1..Len(zs) |-> CAbs2(zs[i]) * CAbs2(zs[i])])
    [] ord = "half" -> SumI([i \in 1..Len(zs) |-> ISqrt(CAbs(zs[i]))])
    [] ord = "inf" -> FoldLeft(LAMBDA a, z : IMax(a, CAbs(z)), 0, zs)
    [] ord = "-inf" -> FoldLeft(LAMBDA a, z : IMin(a, CAbs(z)), Inf, zs)
Merge(ord, ms) ==
  CASE ord = "inf" -> FoldLeft(IMax, 0, ms)
    [] ord = "-inf" -> FoldLeft(IMin, Inf, ms)
    [] OTHER -> SumI(ms)

(* one column of the local piece per position off the axis                   *)
Column(v, sh, ax, c) ==
  LET inner == Inner(sh, ax)
  IN  [i \in 1..sh[ax + 1] |-> v[((c \div inner) * sh[ax + 1] + i - 1) * inner + (c % inner) + 1]]

ProcSeq(S) == SelectSeq([r \in Procs |-> r], LAMBDA r : r \in S)

NormA(x, ord, axis) ==       \* per process: a sequence of norms to the power p
  LET sh(r) == IF Repl(x) THEN SetAx(x.g, 0, Balanced(x.g[1], P)[r]) ELSE LShape(x, r)
      s == Share(x)
      cols == IF axis = -1 THEN 1 ELSE Outer(x.g, axis) * Inner(x.g, axis)
      col(r, c) == IF axis = -1 THEN s[r] ELSE Column(s[r], sh(r), axis, c - 1)
      mass == [r \in Procs |-> [c \in 1..cols |-> Mass(ord, col(r, c))]]
  IN  [r \in Procs |-> [c \in 1..cols |->
        LET G == ProcSeq(Group(x.mask, r)) IN Merge(ord, [i \in 1..Len(G) |-> mass[G[i]][c]])]]

(* ---- ghost cells ---------------------------------------------------------*)
(* requests per process; <<>> for none                                       *)
GhostOK(x, cf, cb) ==
  /\ cf # <<>> => \A r \in 2..P : cf[r] <= x.sz[r - 1]
  /\ cb # <<>> => \A r \in 1..(P - 1) : cb[r] <= x.sz[r + 1]
GhostA(x, cf, cb) ==
  [r \in Procs |->
    LET off == Offs(x.sz)
        lo == off[r] - (IF r > 1 /\ cf # <<>> THEN cf[r] ELSE 0)
        hi == off[r + 1] + (IF r < P /\ cb # <<>> THEN cb[r] ELSE 0)
    IN  Window(Global(x), x.g, x.ax, lo, hi)]

(* ---- stacks --------------------------------------------------------------*)
Stk(as) == [k |-> "stk", a |-> as]
StkMap(F(_), s) == [s EXCEPT !.a = [i \in 1..Len(s.a) |-> F(s.a[i])]]
StkMap2(F(_, _), s, t) == [s EXCEPT !.a = [i \in 1..Len(s.a) |-> F(s.a[i], t.a[i])]]
StkCompatible(s, t) ==
  /\ Len(s.a) = Len(t.a)
  /\ \A i \in 1..Len(s.a) : Compatible(s.a[i], t.a[i])
StkGlobal(s) == FoldLeft(LAMBDA acc, x : acc \o Global(x), <<>>, s.a)
StkDot(s, t) == [r \in Procs |-> SumC([i \in 1..Len(s.a) |-> DotA(s.a[i], t.a[i])[r]])]
StkNorm(s, ord) ==
  LET n == [i \in 1..Len(s.a) |-> NormA(s.a[i], ord, -1)]
  IN  [r \in Procs |-> <<Merge(ord, [i \in 1..Len(s.a) |-> n[i][r][1]])>>]
=============================================================================
