--------------------------------- MODULE Gen ---------------------------------
(* Random behaviours of the machine: programs of requests, one per number    *)
(* 1..N, each drawn from a profile and executed on the abstract heap while   *)
(* it is drawn, so that requests refer to objects that exist.  The draws are *)
(* a function of SEED, the program's number and the step.                    *)
EXTENDS Machine, TLC, Json, IOUtils

CONSTANTS SEED, N, PROFILE

VARIABLES id, k, heap, prog
vars == <<id, k, heap, prog>>

(* ---- pseudo-random numbers -----------------------------------------------*)
Hash(x) == ((x % 46337) * 46327 + 12345) % 65521
Rnd(s, i) == Hash(Hash(Hash((s % 46337) + i * 97) + (s \div 211) + i * 131) + 17 * i)
R(s, i, n) == Rnd(s, i) % n
Pick(s, i, seq) == seq[R(s, i, Len(seq)) + 1]
Chance(s, i, pct) == R(s, i, 100) < pct
StepSeed(n, step) == (SEED * 7919 + n * 1009 + step * 317 + P * 53) % 1000003

(* ---- profiles ------------------------------------------------------------*)
(* pre: the kinds of the first requests; mix: the kinds of the others        *)
Prof ==
  CASE PROFILE = "C01" -> [pre |-> <<"dist", "new">>, steps |-> 12, masks |-> 10, norm |-> FALSE, bad |-> 0,
         mix |-> <<"dist", "new", "dist", "asarray", "asarray", "shapes", "ravel", "ravel", "set">>]
    [] PROFILE = "C02" -> [pre |-> <<"distB", "newB">>, steps |-> 12, masks |-> 15, norm |-> FALSE, bad |-> 0,
         mix |-> <<"distB", "newB", "set", "set", "set", "set", "asarray", "bin", "like", "un", "dist", "iadd">>]
    [] PROFILE = "C03" -> [pre |-> <<"dist", "like", "like">>, steps |-> 16, masks |-> 15, norm |-> FALSE, bad |-> 0,
         mix |-> <<"like", "bin", "bin", "bin", "un", "un", "smul", "smul", "iadd", "dist", "set", "ravel", "clash">>]
    [] PROFILE = "C04" -> [pre |-> <<"dist", "like">>, steps |-> 14, masks |-> 0, norm |-> TRUE, bad |-> 0,
         mix |-> <<"dist", "like", "dot", "dot", "norm", "norm", "norm", "norm", "un">>]
    [] PROFILE = "C05" -> [pre |-> <<"dist", "like">>, steps |-> 16, masks |-> 90, norm |-> TRUE, bad |-> 10,
         mix |-> <<"dist", "like", "dot", "dot", "norm", "norm", "un", "smul", "bin", "ravel", "iadd", "bdiag", "app", "dot", "norm">>]
    [] PROFILE = "C06" -> [pre |-> <<"distS">>, steps |-> 12, masks |-> 10, norm |-> FALSE, bad |-> 15,
         mix |-> <<"distS", "ghost", "ghost", "ghost", "ghost", "ravel">>]
    [] PROFILE = "C07" -> [pre |-> <<"redop">>, steps |-> 12, masks |-> 10, norm |-> FALSE, bad |-> 0,
         mix |-> <<"vec", "vec", "app", "app", "app", "redop">>]
    [] PROFILE = "C08" -> [pre |-> <<"block">>, steps |-> 12, masks |-> 20, norm |-> FALSE, bad |-> 5,
         mix |-> <<"block", "app", "app", "app", "vec">>]
    [] PROFILE = "C09" -> [pre |-> <<"deriv">>, steps |-> 9, masks |-> 0, norm |-> FALSE, bad |-> 3,
         mix |-> <<"deriv", "deriv", "app", "app", "app", "vec">>]
    [] PROFILE = "C10" -> [pre |-> <<"fred">>, steps |-> 9, masks |-> 0, norm |-> FALSE, bad |-> 5,
         mix |-> <<"fred", "app", "app", "app", "vec">>]
    [] PROFILE = "C11" -> [pre |-> <<"leaf", "opfor">>, steps |-> 18, masks |-> 5, norm |-> FALSE, bad |-> 4,
         mix |-> <<"opfor", "alg", "alg", "alg", "app", "app", "app", "leaf">>]
    [] PROFILE = "C12" -> [pre |-> <<"anyop">>, steps |-> 12, masks |-> 0, norm |-> FALSE, bad |-> 5,
         mix |-> <<"anyop", "alg", "dottest", "dottest", "dottest", "app", "wrapbad">>]
    [] PROFILE = "C13" -> [pre |-> <<"dist", "dist", "stk", "slike">>, steps |-> 22, masks |-> 8, norm |-> TRUE, bad |-> 4,
         mix |-> <<"slike", "sbin", "sbin", "sun", "ssmul", "sdot", "snorm", "siadd", "setk", "sarray", "leaf", "opfor",
                   "stackop", "stackop", "salg", "salg", "sapp", "sapp", "sapp", "dist", "stk">>]
    [] PROFILE = "C13B" -> [pre |-> <<"leaf", "opfor", "stackop">>, steps |-> 18, masks |-> 3, norm |-> FALSE, bad |-> 4,
         mix |-> <<"opfor", "stackop", "salg", "salg", "salg", "sapp", "sapp", "sapp", "deriv">>]
    [] PROFILE = "C14" -> [pre |-> <<"spd">>, steps |-> 14, masks |-> 25, norm |-> FALSE, bad |-> 2,
         mix |-> <<"cg", "cg", "cg", "cg", "cg", "cg", "spd", "sleaf", "normal", "normal", "salgpd", "ssbd">>]
    [] PROFILE = "C15" -> [pre |-> <<"sleaf">>, steps |-> 14, masks |-> 20, norm |-> FALSE, bad |-> 2,
         mix |-> <<"cgls", "cgls", "cgls", "cgls", "cgls", "cgls", "cgls", "sleaf", "sfor", "alg", "sstack">>]
    [] PROFILE = "C16" -> [pre |-> <<"dist", "like", "anyop">>, steps |-> 14, masks |-> 20, norm |-> FALSE, bad |-> 0,
         mix |-> <<"dist", "like", "bin", "un", "dot", "norm", "ghost", "ghost", "set", "ravel", "asarray", "anyop", "alg",
                   "app", "app", "app", "app", "dottest", "vec">>]
    [] PROFILE = "C17" -> [pre |-> <<"dist", "like", "anyop">>, steps |-> 16, masks |-> 20, norm |-> FALSE, bad |-> 60,
         mix |-> <<"dist", "like", "new", "bin", "bin", "iadd", "dot", "norm", "ghost", "ghost", "asarray", "anyop", "anyop", "alg", "alg", "clash", "clash", "clash", "clash",
                   "app", "app", "app", "dottest", "vec", "dist", "stk", "sbin", "stackop", "sapp">>]
    [] PROFILE = "C18" -> [pre |-> <<"dist", "like", "anyop">>, steps |-> 18, masks |-> 20, norm |-> FALSE, bad |-> 5,
         mix |-> <<"dist", "like", "bin", "un", "smul", "dot", "norm", "ghost", "set", "ravel", "asarray", "anyop", "anyop", "alg", "opfor",
                   "app", "app", "app", "dottest", "stk", "sbin", "sun", "sdot", "snorm", "stackop", "salg", "sapp", "distB", "vec">>]
    [] PROFILE = "C19" -> [pre |-> <<"dist", "like", "leaf">>, steps |-> 22, masks |-> 8, norm |-> FALSE, bad |-> 5,
         mix |-> <<"dist", "like", "bin", "un", "un", "smul", "dot", "norm", "ghost", "set", "iadd", "ravel", "asarray", "anyop", "alg", "opfor",
                   "app", "app", "app", "repeat", "repeat", "stk", "sbin", "sun", "siadd", "sdot", "stackop", "salg", "sapp", "distB", "vec">>]
    [] PROFILE = "C20" -> [pre |-> <<"mdc">>, steps |-> 7, masks |-> 0, norm |-> FALSE, bad |-> 4,
         mix |-> <<"mdc", "app", "app", "app", "app">>]
    [] PROFILE = "SOL" -> [pre |-> <<"spd", "sleaf">>, steps |-> 13, masks |-> 10, norm |-> FALSE, bad |-> 3,
         mix |-> <<"cg", "cgls", "cg", "cgls", "cg", "cgls", "spd", "sleaf", "sfor", "normal", "sstack", "app">>]
    [] PROFILE = "SOLM" -> [pre |-> <<"spd", "sleaf">>, steps |-> 13, masks |-> 95, norm |-> FALSE, bad |-> 2,
         mix |-> <<"cg", "cgls", "cg", "cgls", "cg", "cgls", "spd", "sleaf", "app">>]
    [] OTHER -> [pre |-> <<>>, steps |-> 0, masks |-> 0, norm |-> FALSE, bad |-> IF PROFILE = "E17B" THEN 60 ELSE 0, mix |-> <<"dist">>]

(* ---- what is on the heap -------------------------------------------------*)
Where(h, T(_)) == SelectSeq([i \in 1..Len(h) |-> i], LAMBDA i : T(h[i]))
Arrs(h) == Where(h, LAMBDA o : o.k = "arr")
ArrsS(h) == Where(h, LAMBDA o : o.k = "arr" /\ o.part = "S")
Stks(h) == Where(h, LAMBDA o : o.k = "stk")
OpsOf(h) == Where(h, LAMBDA o : o.k = "op")
POps(h) == Where(h, LAMBDA o : o.k = "op" /\ ~o.stk)
SOps(h) == Where(h, LAMBDA o : o.k = "op" /\ o.stk)

(* ---- data ----------------------------------------------------------------*)
Pyth == <<<<3, 4>>, <<0, 5>>, <<-4, 3>>, <<5, 12>>, <<0, 0>>, <<-1, 0>>, <<0, -2>>, <<6, -8>>, <<0, 1>>, <<9, 0>>, <<-4, 0>>, <<0, 4>>>>
Squares == <<0, 1, -1, 4, -4, 9, -9, 0>>
Datum(s, i, dt, norm, mult) ==
  IF norm
  THEN IF IsC(dt) THEN Pick(s, i, Pyth)
       ELSE <<IF s % 2 = 0 THEN Pick(s, i, Squares) ELSE R(s, i, 9) - 4, 0>>
  ELSE <<mult * (R(s, i, 7) - 3), IF IsC(dt) THEN mult * (R(s, i + 500, 7) - 3) ELSE 0>>
Data(s, i, n, dt, norm, mult) == [j \in 1..n |-> Datum(s, i + j, dt, norm, mult)]
Dts == <<"f8", "f8", "f8", "c16", "c16", "f4", "c8", "i8">>
FDts == <<"f8", "f8", "f8", "c16", "c16", "f4", "c8">>

DrawShape(s) ==
  LET nd == Pick(s, 1, <<1, 1, 2, 2, 3>>)
  IN  CASE nd = 1 -> <<1 + R(s, 2, 9)>>
        [] nd = 2 -> <<1 + R(s, 2, 5), 1 + R(s, 3, 4)>>
        [] nd = 3 -> <<1 + R(s, 2, 4), 1 + R(s, 3, 3), 1 + R(s, 4, 3)>>
(* sizes of pieces: any composition of n, or a shift between neighbours      *)
AnySizes(s, i, n) == [r \in Procs |-> Cardinality({j \in 1..n : R(s, i + j, P) + 1 = r})]
Shifted(s, i, sz) ==
  LET r == IF P = 1 THEN 0 ELSE 1 + R(s, i, P - 1)
      m == IF r = 0 THEN 0 ELSE R(s, i + 1, 1 + IMin(2, sz[r]))
  IN  IF r = 0 THEN sz ELSE [sz EXCEPT ![r] = @ - m, ![r + 1] = @ + m]
DrawMask(s, i) == IF Chance(s, i, Prof.masks) THEN [r \in Procs |-> R(s, i + r, 3)] ELSE <<>>
(* too short, negative                                                       *)
BadMask(s, i) ==
  CASE R(s, i, 2) = 1 /\ P > 1 -> [r \in 1..(P - 1) |-> R(s, i + r, 2)]
    [] OTHER -> [r \in Procs |-> IF r = 1 + R(s, i + 9, P) THEN -1 ELSE R(s, i + r, 2)]
DrawSizes(s, i, n) ==      \* <<>>: by default
  CASE R(s, i, 10) \in 0..3 -> <<>>
    [] R(s, i, 10) = 4 -> Balanced(n, P)
    [] R(s, i, 10) \in 5..6 -> Shifted(s, i + 1, Balanced(n, P))
    [] OTHER -> AnySizes(s, i + 1, n)

Bad_(s, i) == Chance(s, i, Prof.bad)

(* a global array to distribute, wrongly if asked                            *)
DrawDist(s, parts) ==
  LET g == DrawShape(s)
      part == Pick(s, 10, parts)
      ax0 == R(s, 11, Len(g))
      ax == IF Bad_(s, 12) /\ R(s, 13, 4) = 0 THEN Len(g) ELSE ax0
      sz0 == IF part = "S" THEN DrawSizes(s, 20, g[ax0 + 1]) ELSE IF R(s, 20, 4) = 0 THEN FullSizes(g, ax0) ELSE <<>>
      sz == IF ~Bad_(s, 12) \/ sz0 = <<>> THEN sz0
            ELSE CASE R(s, 14, 3) = 0 -> [sz0 EXCEPT ![1 + R(s, 15, P)] = @ + 1]
                   [] R(s, 14, 3) = 1 -> Append(sz0, 0)
                   [] OTHER -> sz0
      dt == Pick(s, 50, Dts)
  IN  [op |-> "dist", g |-> g, part |-> part, ax |-> ax, sz |-> sz, mask |-> IF Bad_(s, 12) /\ R(s, 13, 4) = 1 THEN BadMask(s, 60) ELSE DrawMask(s, 60), dt |-> dt,
       bad |-> IF Bad_(s, 12) /\ R(s, 14, 3) = 2 /\ sz # <<>> /\ Len(g) > 1 /\ ax < Len(g) THEN "other" ELSE "",
       d |-> Data(s, 100, ProdI(g), dt, Prof.norm, 1)]
Likeness(s, x) ==
  LET dt == IF R(s, 50, 2) = 0 THEN x.dt ELSE Pick(s, 51, Dts)
  IN  [op |-> "dist", g |-> x.g, part |-> x.part, ax |-> x.ax, sz |-> x.sz, mask |-> x.mask, dt |-> dt, bad |-> "",
       d |-> Data(s, 100, ProdI(x.g), dt, Prof.norm, 1)]
(* nearly alike                                                              *)
Unlikeness(s, x) ==
  LET q == Likeness(s, x)
      ax2 == R(s, 5, Len(x.g))
  IN  CASE R(s, 4, 6) = 0 /\ x.part = "S" -> [q EXCEPT !.sz = AnySizes(s, 20, x.g[x.ax + 1])]
        [] R(s, 4, 6) = 5 /\ x.part = "S" -> [q EXCEPT !.sz = Shifted(s, 20, x.sz)]
        [] R(s, 4, 6) = 1 -> [q EXCEPT !.mask = [r \in Procs |-> R(s, 60 + r, 3)]]
        [] R(s, 4, 6) = 2 -> [q EXCEPT !.part = IF x.part = "S" THEN "B" ELSE "S", !.sz = <<>>]
        [] R(s, 4, 6) = 3 -> LET g2 == [x.g EXCEPT ![ax2 + 1] = @ + 1]
                             IN  [q EXCEPT !.g = g2, !.sz = <<>>, !.d = Data(s, 100, ProdI(g2), q.dt, Prof.norm, 1)]
        [] OTHER -> [q EXCEPT !.ax = ax2, !.sz = <<>>]
DrawNew(s, parts) ==
  LET q == DrawDist(s, parts)
      sz == IF q.sz = <<>> /\ q.ax < Len(q.g) THEN DefSizes(q.g, q.part, q.ax) ELSE q.sz
      n(r) == IF q.ax < Len(q.g) /\ Len(sz) >= r THEN ProdI(SetAx(q.g, q.ax, sz[r])) ELSE 0
  IN  [op |-> "new", g |-> q.g, part |-> q.part, ax |-> q.ax, sz |-> q.sz, mask |-> q.mask, dt |-> q.dt, bad |-> q.bad,
       v |-> [r \in Procs |-> Data(s, 100 + 50 * r, n(r), q.dt, Prof.norm, 1)]]

AnyParts == <<"S", "S", "S", "S", "B", "U">>

(* ---- requests on arrays --------------------------------------------------*)
DrawSetOf(s, h, i, norm, mult) ==
  LET x == h[i]
      same == x.part = "B"
      t0 == Pick(s, 3, <<"all", "i", "s", "c">>)
      sh(r) == LShape(x, IF same THEN 1 ELSE r)
      ix(r) == LET u == IF same THEN 1 ELSE r
                   n == sh(r)[1]
                   t == IF t0 = "c" /\ (Len(x.g) # 2 \/ sh(r)[2] = 0) THEN "all" ELSE IF t0 = "i" /\ n = 0 THEN "all" ELSE t0
                   a == R(s, 10 + u, n + 1)
               IN  CASE t = "all" -> [t |-> "all"]
                     [] t = "i" -> [t |-> "i", i |-> R(s, 10 + u, n)]
                     [] t = "s" -> [t |-> "s", a |-> a, b |-> a + R(s, 30 + u, n - a + 1)]
                     [] t = "c" -> [t |-> "c", i |-> R(s, 10 + u, sh(r)[2])]
      one == R(s, 4, 4) = 0
      idx == [r \in Procs |-> ix(r)]
  IN  [op |-> "set", x |-> i, idx |-> idx,
       val |-> [r \in Procs |-> Data(s, 100 + 40 * r, IF one THEN 1 ELSE Len(Positions(idx[r], LShape(x, r))), x.dt, norm, mult)]]
DrawSet(s, h, i) == DrawSetOf(s, h, i, Prof.norm, 1)

Mates(h, i) == SelectSeq([j \in 1..Len(h) |-> j], LAMBDA j : h[j].k = h[i].k /\ OkPair(h[i], h[j]))
SameKind(h, i) == SelectSeq([j \in 1..Len(h) |-> j], LAMBDA j : h[j].k = h[i].k)
Mate(s, i, h, x) == IF Bad_(s, i) THEN Pick(s, i + 1, SameKind(h, x)) ELSE Pick(s, i + 1, Mates(h, x))
Scalars == <<[s |-> <<2, 0>>, sk |-> "int"], [s |-> <<-3, 0>>, sk |-> "int"], [s |-> <<0, 0>>, sk |-> "int"], [s |-> <<2, 0>>, sk |-> "float"],
             [s |-> <<-1, 0>>, sk |-> "float"], [s |-> <<0, 1>>, sk |-> "complex"], [s |-> <<2, -1>>, sk |-> "complex"],
             [s |-> <<-1, 1>>, sk |-> "complex"], [s |-> <<3, 0>>, sk |-> "complex"]>>
Orders == <<"0", "1", "2", "2", "3", "4", "half", "inf", "-inf">>

DrawGhost(s, h) ==
  LET i == Pick(s, 1, ArrsS(h))
      x == h[i]
      top(r) == IF Bad_(s, 2) THEN 4 ELSE 3
      front(r) == IF r = 1 THEN R(s, 10 + r, 3) ELSE IF Bad_(s, 2) THEN R(s, 10 + r, x.sz[r - 1] + 2) ELSE R(s, 10 + r, x.sz[r - 1] + 1)
      back(r) == IF r = P THEN R(s, 20 + r, 3) ELSE IF Bad_(s, 2) THEN R(s, 20 + r, x.sz[r + 1] + 2) ELSE R(s, 20 + r, x.sz[r + 1] + 1)
      uni(r, f(_)) == IF R(s, 6, 3) = 0 THEN (IF P = 1 THEN 1 ELSE MinI([j \in Procs |-> f(j)])) ELSE f(r)
      cf == [r \in Procs |-> uni(r, front)]
      cb == [r \in Procs |-> uni(r, back)]
      which == R(s, 5, 5)
  IN  [op |-> "ghost", x |-> i, cf |-> IF which = 0 THEN <<>> ELSE cf, cb |-> IF which = 1 THEN <<>> ELSE cb]

(* ---- operators -----------------------------------------------------------*)
Mat(s, i, nr, nc, dt) == [a \in 1..nr |-> [b \in 1..nc |-> <<R(s, i + 10 * a + b, 7) - 3, IF IsC(dt) THEN R(s, i + 200 + 10 * a + b, 5) - 2 ELSE 0>>]]
BlockDts == <<"f8", "f8", "c16", "f8", "c16", "f4", "c8", "i8">>
DrawBlocks(s, t) ==
  LET square == R(s, 2, 100) < 55
      common == 1 + R(s, 3, 4)
      dts == R(s, 4, 4)              \* 0: mixed
      dt1 == Pick(s, 5, BlockDts)
      nb(r) == IF Bad_(s, 6) /\ R(s, 7, 3) = 0 /\ r = 1 + R(s, 8, P) THEN 0 ELSE 1 + (IF R(s, 20 + r, 3) = 0 THEN 1 ELSE 0)
      blk(r, b) ==
        LET i == 40 * r + 20 * b
            none == R(s, 12, 8) = 0 /\ (r + b) % 2 = R(s, 13, 2) /\ P > 1    \* blocks without rows or columns
            a == IF none /\ R(s, 16, 2) = 0 /\ ~square THEN 0 ELSE 1 + R(s, i, 3)
            c == IF square THEN a ELSE IF none /\ R(s, 16, 2) = 1 THEN 0 ELSE 1 + R(s, i + 1, 3)
            dt == IF dts = 0 THEN Pick(s, i + 2, BlockDts) ELSE dt1
            wrong == IF Bad_(s, 6) /\ R(s, 7, 3) = 1 /\ r = P THEN 1 ELSE 0
            nr == IF t = "hstack" THEN common + wrong ELSE a
            nc == IF t = "vstack" THEN common + wrong ELSE c
        IN  [nr |-> nr, nc |-> nc, dt |-> dt, m |-> Mat(s, 300 + 300 * r + 90 * b, nr, nc, dt)]
      blocks == [r \in Procs |-> [b \in 1..nb(r) |-> blk(r, b)]]
      isc == \E r \in Procs : \E b \in 1..Len(blocks[r]) : IsC(blocks[r][b].dt)
  IN  [op |-> t, blocks |-> blocks, mask |-> IF t = "bdiag" THEN DrawMask(s, 9) ELSE <<>>,
       dt |-> CASE R(s, 15, 3) = 0 -> IF isc THEN "c16" ELSE "f8" [] OTHER -> ""]
(* other entries in blocks of the same sizes                                 *)
LikeBlocks(s, A) ==
  LET dt == Pick(s, 5, <<"f8", "c16", "f8", "c8">>)
      blk(r, b) == LET B == A.blocks[r][b] IN [nr |-> B.nr, nc |-> B.nc, dt |-> dt, m |-> Mat(s, 300 + 300 * r + 90 * b, B.nr, B.nc, dt)]
  IN  [op |-> A.t, blocks |-> [r \in Procs |-> [b \in 1..Len(A.blocks[r]) |-> blk(r, b)]], mask |-> A.mask, dt |-> ""]

Samps == <<<<1, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<4, 1>>, <<1, 4>>, <<3, 1>>>>
DrawDims(s, need) ==     \* first extent: often just enough for the processes
  LET base == need * P
      n == CASE R(s, 30, 8) = 0 -> 1 + R(s, 31, base + 1)
             [] R(s, 30, 8) \in 1..2 -> base
             [] OTHER -> base + R(s, 31, P + 2)
      nd == Pick(s, 32, <<1, 1, 2, 2, 3>>)
  IN  CASE nd = 1 -> <<n>>
        [] nd = 2 -> <<n, 1 + R(s, 33, 3)>>
        [] nd = 3 -> <<n, 1 + R(s, 33, 2), 1 + R(s, 34, 2)>>
Kind(s, i) == IF Bad_(s, i) /\ R(s, i + 1, 3) = 0 THEN "sideways" ELSE Pick(s, i + 2, <<"forward", "backward", "centered", "centered">>)
DrawD1(s) ==
  [op |-> "deriv1", dims |-> DrawDims(s, 2), kind |-> Kind(s, 2),
   order |-> IF Bad_(s, 6) /\ R(s, 7, 3) = 0 THEN 4 ELSE Pick(s, 8, <<3, 3, 5>>), edge |-> R(s, 9, 2) = 0, samp |-> Pick(s, 10, Samps), dt |-> Pick(s, 11, FDts)]
DrawD2(s) ==
  [op |-> "deriv2", dims |-> DrawDims(s, 2), kind |-> Kind(s, 2), edge |-> R(s, 9, 2) = 0, samp |-> Pick(s, 10, Samps), dt |-> Pick(s, 11, FDts)]
DrawLapl(s) ==
  LET d0 == DrawDims(s, 3)
      dims == IF Len(d0) = 1 THEN d0 \o <<1 + R(s, 35, 4)>> ELSE d0
      nd == Len(dims)
      perm == CASE R(s, 40, 6) = 0 -> <<0>> [] R(s, 40, 6) = 1 -> <<1>> [] R(s, 40, 6) = 2 -> <<1, 0>> [] R(s, 40, 6) = 3 /\ nd = 3 -> <<2, 0>>
                [] R(s, 40, 6) = 3 /\ nd = 2 -> <<-1, 0>>
                [] R(s, 40, 6) = 4 -> <<-nd, -1>> [] nd = 3 /\ R(s, 43, 2) = 0 -> Pick(s, 44, <<<<0, 1, 2>>, <<2, 1, 0>>, <<1, 2>>, <<2, 1>>, <<1, 0, 2>>>>) [] OTHER -> <<0, 1>>
      axes == IF Bad_(s, 41) /\ R(s, 42, 3) = 0 THEN Append(perm, nd) ELSE perm
      m == Len(axes)
      off == IF Bad_(s, 41) /\ R(s, 42, 3) = 1 THEN 1 ELSE 0
  IN  [op |-> "lapl", dims |-> dims, axes |-> axes, wts |-> [i \in 1..(m + off) |-> R(s, 50 + i, 5) - 2],
       samp |-> [i \in 1..m |-> Pick(s, 60 + i, Samps)], kind |-> Kind(s, 2), edge |-> R(s, 9, 2) = 0, dt |-> Pick(s, 11, FDts)]
DrawGrad(s) ==
  LET d0 == DrawDims(s, 2)
      dims == IF Len(d0) = 1 THEN d0 \o <<1 + R(s, 35, 4)>> ELSE d0
  IN  [op |-> "grad", dims |-> dims, samp |-> [i \in 1..Len(dims) |-> Pick(s, 60 + i, Samps)],
       kind |-> Pick(s, 3, <<"forward", "backward", "centered", "centered">>), edge |-> R(s, 9, 2) = 0, dt |-> Pick(s, 11, FDts)]
DrawDeriv(s) == CASE R(s, 1, 8) \in 0..2 -> DrawD1(s) [] R(s, 1, 8) \in 3..4 -> DrawD2(s) [] R(s, 1, 8) \in 5..6 -> DrawLapl(s) [] OTHER -> DrawGrad(s)

DrawFred(s) ==
  LET nsl(r) == IF Bad_(s, 5) /\ r = 1 + R(s, 6, P) THEN 1 ELSE 2 + R(s, 10 + r, 3)
      nx == 1 + R(s, 7, 3)
      ny == 1 + R(s, 8, 3)
      dt == Pick(s, 9, FDts)
  IN  [op |-> "fred", G |-> [r \in Procs |-> [i \in 1..nsl(r) |-> Mat(s, 100 + 400 * r + 60 * i, nx, ny, dt)]],
       nx |-> nx, ny |-> ny, nz |-> 1 + R(s, 20, 3), dt |-> dt, save |-> R(s, 21, 2) = 0, matmul |-> R(s, 22, 2) = 0]

DrawMdc(s) ==
  LET two == R(s, 2, 2) = 0
      \* enough frequencies that every process can have two
      nf == 2 * P + R(s, 3, 3)
      nt == IF two THEN (IF Bad_(s, 4) THEN 2 * nf - 2 ELSE 2 * nf - 1) ELSE 2 * nf - 1 - R(s, 5, 2)
      extra == nf - 2 * P
      nfs0 == AnySizes(s, 10, extra)
      nfs == IF Bad_(s, 6) /\ P > 1 THEN [r \in Procs |-> IF r = 1 THEN 1 ELSE IF r = 2 THEN nfs0[1] + nfs0[2] + 3 ELSE 2 + nfs0[r]]
             ELSE [r \in Procs |-> 2 + nfs0[r]]
      ns == 1 + R(s, 7, 2)
      nr == 1 + R(s, 8, 2)
      cd == Pick(s, 9, <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>>>)
      pre == R(s, 30, 4) = 0
  IN  [op |-> "mdc", nt |-> nt, ns |-> ns, nr |-> nr, nv |-> 1 + R(s, 20, 2), nfs |-> nfs, two |-> two, conj |-> R(s, 21, 2) = 0,
       K |-> [t \in 1..nt |-> Mat(s, 100 + 50 * t, ns, nr, "f8")], c |-> cd[1], d |-> cd[2], pre |-> pre, dt |-> IF R(s, 34, 4) = 0 THEN "f4" ELSE "f8",
       save |-> R(s, 31, 2) = 0, matmul |-> R(s, 32, 2) = 0]

DrawWrap(s, wrong) ==
  LET nr == 1 + R(s, 2, 4)
      nc == IF R(s, 3, 3) = 0 THEN nr ELSE 1 + R(s, 4, 4)
      dt == Pick(s, 5, <<"f8", "c16">>)
      M == Mat(s, 100, nr, nc, dt)
      H == MConjT(M, nc)
  IN  [op |-> "wrap", nr |-> nr, nc |-> nc, dt |-> dt, M |-> M,
       Mh |-> IF wrong THEN [H EXCEPT ![1 + R(s, 6, nc)] = [@ EXCEPT ![1 + R(s, 7, nr)] = CAdd(@, <<1, 0>>)]] ELSE H]
LikeWrap(s, A) ==
  LET dt == Pick(s, 5, <<"f8", "c16">>)
      M == Mat(s, 100, A.rows, A.cols, dt)
  IN  [op |-> "wrap", nr |-> A.rows, nc |-> A.cols, dt |-> dt, M |-> M, Mh |-> MConjT(M, A.cols)]

DrawBlock(s) == DrawBlocks(s, Pick(s, 1, <<"bdiag", "vstack", "hstack">>))
DrawLeaf(s) ==
  CASE R(s, 40, 10) \in 0..2 -> DrawBlocks(s, "bdiag")
    [] R(s, 40, 10) = 3 -> DrawBlocks(s, "vstack")
    [] R(s, 40, 10) = 4 -> DrawBlocks(s, "hstack")
    [] R(s, 40, 10) = 5 -> DrawD1(s)
    [] R(s, 40, 10) = 6 -> DrawD2(s)
    [] R(s, 40, 10) = 7 -> DrawFred(s)
    [] OTHER -> DrawWrap(s, FALSE)
DrawAnyOp(s) ==
  CASE R(s, 40, 16) \in 0..5 -> DrawBlock(s)
    [] R(s, 40, 16) \in 6..10 -> DrawDeriv(s)
    [] R(s, 40, 16) \in 11..13 -> DrawFred(s)
    [] R(s, 40, 16) = 14 -> DrawWrap(s, FALSE)
    [] OTHER -> IF P <= 3 THEN DrawMdc(s) ELSE DrawBlock(s)
DrawRedOp(s) ==
  CASE R(s, 40, 8) \in 0..2 -> DrawBlocks(s, "bdiag")
    [] R(s, 40, 8) = 3 -> DrawBlocks(s, "vstack")
    [] R(s, 40, 8) = 4 -> DrawBlocks(s, "hstack")
    [] R(s, 40, 8) = 5 -> DrawD1(s)
    [] R(s, 40, 8) = 6 -> DrawD2(s)
    [] OTHER -> DrawLapl(s)
(* a second operator that fits an existing one                               *)
RECURSIVE Root(_)
Root(A) == IF A.t \in {"H", "T", "Cj", "scale", "sum", "prod", "pow"} THEN Root(A.A) ELSE A
DrawOpFor(s, h) ==
  LET A == Root(h[Pick(s, 41, POps(h))])
  IN  CASE A.t \in {"bdiag", "vstack", "hstack"} ->
             IF A.t # "bdiag" /\ R(s, 42, 3) = 0
             THEN LET q == LikeBlocks(s, A)       \* transposed: fits a product
                  IN  [q EXCEPT !.op = IF A.t = "vstack" THEN "hstack" ELSE "vstack",
                        !.blocks = [r \in Procs |-> [b \in 1..Len(A.blocks[r]) |->
                                     LET B == q.blocks[r][b] IN [nr |-> B.nc, nc |-> B.nr, dt |-> B.dt, m |-> MConjT(B.m, B.nc)]]]]
             ELSE LikeBlocks(s, A)
        [] A.t = "wrap" -> LikeWrap(s, A)
        [] A.t = "deriv1" -> [DrawD1(s) EXCEPT !.dims = A.dims]
        [] A.t = "deriv2" -> [DrawD2(s) EXCEPT !.dims = A.dims]
        [] A.t = "fred" -> [op |-> "fred", G |-> [r \in Procs |-> [i \in 1..Len(A.G[r]) |-> Mat(s, 100 + 400 * r + 60 * i, A.nx, A.ny, A.dt)]],
                            nx |-> A.nx, ny |-> A.ny, nz |-> A.nz, dt |-> A.dt, save |-> R(s, 21, 2) = 0, matmul |-> R(s, 22, 2) = 0]
        [] OTHER -> DrawLeaf(s)

(* algebra on the given operators                                            *)
DrawAlg(s, h, ops) ==
  LET a == Pick(s, 1, ops)
      A == h[a]
      same == SelectSeq(ops, LAMBDA b : h[b].rows = A.rows /\ h[b].cols = A.cols)
      after == SelectSeq(ops, LAMBDA b : h[b].rows = A.cols)
      sc == Pick(s, 3, Scalars)
      t == Pick(s, 2, <<"H", "T", "Cj", "scale", "scale", "sum", "sum", "subop", "prod", "prod", "pow", "negop">>)
  IN  CASE t \in {"H", "T", "Cj", "negop"} -> [op |-> t, a |-> a]
        [] t = "scale" -> [op |-> "scale", a |-> a, s |-> sc.s, sk |-> sc.sk, left |-> R(s, 4, 2) = 0]
        [] t \in {"sum", "subop"} -> [op |-> t, a |-> a, b |-> IF Bad_(s, 5) THEN Pick(s, 6, ops) ELSE Pick(s, 6, same)]
        [] t = "prod" -> IF after = <<>> /\ ~Bad_(s, 5) THEN [op |-> "H", a |-> a]
                         ELSE [op |-> "prod", a |-> a, b |-> IF Bad_(s, 5) THEN Pick(s, 6, ops) ELSE Pick(s, 6, after)]
        [] t = "pow" -> IF A.rows # A.cols /\ ~Bad_(s, 5) THEN [op |-> "T", a |-> a] ELSE [op |-> "pow", a |-> a, p |-> Pick(s, 7, IF A.gain <= 8 THEN <<0, 1, 2, 3, 4, 5>> ELSE <<0, 1, 2, 2, 3, 3>>) - (IF Bad_(s, 5) THEN 1 ELSE 0)]
DrawStackOp(s, h) ==
  LET ops == POps(h)
      a == Pick(s, 1, ops)
      t == Pick(s, 2, <<"svstack", "sbdiag">>)
      same == SelectSeq(ops, LAMBDA b : h[b].cols = h[a].cols)
      pool == IF t = "sbdiag" \/ Bad_(s, 3) THEN ops ELSE same
      n == 1 + R(s, 4, 3)
  IN  [op |-> t, as |-> [i \in 1..n |-> IF i = 1 THEN a ELSE Pick(s, 10 + i, pool)]]

(* ---- vectors for operators -----------------------------------------------*)
(* the components an expression takes: their lengths, kinds, and layouts     *)
RECURSIVE InSig(_, _)
InSig(A, adj) ==
  CASE A.t \in {"H"} -> InSig(A.A, ~adj)
    [] A.t = "T" -> InSig(A.A, ~adj)
    [] A.t \in {"Cj", "scale", "sum", "pow"} -> InSig(A.A, adj)
    [] A.t = "prod" -> IF adj THEN InSig(A.A, TRUE) ELSE InSig(A.B, FALSE)
    [] A.t \in {"svstack", "grad"} ->
         IF adj THEN [stk |-> TRUE, c |-> [i \in 1..Len(A.ops) |-> InSig(A.ops[i], TRUE).c[1]]]
         ELSE [stk |-> FALSE, c |-> <<InSig(A.ops[1], FALSE).c[1]>>]
    [] A.t = "sbdiag" -> [stk |-> TRUE, c |-> [i \in 1..Len(A.ops) |-> InSig(A.ops[i], adj).c[1]]]
    [] A.t = "axis1" -> [stk |-> FALSE, c |-> <<[n |-> A.rows, part |-> {"S"}, sz |-> RowSizes(A)]>>]
    [] OTHER -> LET T == Takes(A, adj)
                IN  [stk |-> FALSE, c |-> <<[n |-> IF adj THEN A.rows ELSE A.cols, part |-> T.part, sz |-> T.sz]>>]

VecFor(s, A, c) ==
  LET n == IF Bad_(s, 31) /\ R(s, 32, 4) = 0 THEN c.n + 1 ELSE c.n
      wrongpart == Chance(s, 33, 3)
      part == IF wrongpart THEN Pick(s, 34, <<"S", "B", "U">>)
              ELSE IF c.part = {"S"} THEN "S"
              ELSE IF c.part = {"S", "B"} THEN Pick(s, 34, <<"S", "S", "S", "B">>)
              ELSE Pick(s, 34, <<"B", "B", "B", "U">>)
      sz == IF part # "S" THEN <<>>
            ELSE IF c.sz = <<>> \/ n # c.n THEN <<>>
            ELSE CASE R(s, 35, 10) \in 0..4 -> c.sz
                   [] R(s, 35, 10) \in 5..6 -> Shifted(s, 36, c.sz)
                   [] R(s, 35, 10) = 7 -> <<>>
                   [] OTHER -> AnySizes(s, 40, n)
      dt == CASE IsC(A.dt) -> Pick(s, 39, <<"c16", "c16", "c16", "f8", "c8">>) [] OTHER -> Pick(s, 39, <<"f8", "f8", "f8", "f4", "i8">>)
  IN  [op |-> "dist", g |-> <<n>>, part |-> part, ax |-> 0, sz |-> sz, mask |-> IF R(s, 38, 4) = 0 THEN DrawMask(s, 60) ELSE <<>>, dt |-> dt, bad |-> "",
       d |-> Data(s, 100, n, dt, FALSE, IMin(A.mult, 2304))]

(* apply an operator to a vector that fits; if there is none, make one       *)
Fits(x, sig) ==
  IF sig.stk THEN x.k = "stk" /\ Len(x.a) = Len(sig.c) /\ \A i \in 1..Len(sig.c) : x.a[i].g = <<sig.c[i].n>>
  ELSE x.k = "arr" /\ x.g = <<sig.c[1].n>>
FitsPart(x, sig) ==
  Fits(x, sig) /\ (IF sig.stk THEN \A i \in 1..Len(sig.c) : x.a[i].part \in sig.c[i].part ELSE x.part \in sig.c[1].part)
DrawVec(s, h, A, adj) ==
  LET sig == InSig(A, adj)
  IN  IF ~sig.stk THEN VecFor(s, A, sig.c[1])
      ELSE \* components first, then the stack
           LET have(i) == SelectSeq(Arrs(h), LAMBDA j : h[j].g = <<sig.c[i].n>> /\ h[j].part \in sig.c[i].part)
               missing == SelectSeq([i \in 1..Len(sig.c) |-> i], LAMBDA i : have(i) = <<>>)
           IN  IF missing # <<>> THEN VecFor(s, A, sig.c[missing[1]])
               ELSE [op |-> "stk", xs |-> [i \in 1..Len(sig.c) |-> Pick(s, 70 + i, have(i))]]
DrawApp(s, h, ops) ==
  LET a == Pick(s, 1, ops)
      A == h[a]
      adj == R(s, 2, 2) = 0
      sig == InSig(A, adj)
      fit == Where(h, LAMBDA x : FitsPart(x, sig))
      vecs == Where(h, LAMBDA x : IsVec(x))
      last == Len(h)
      \* operators (and directions) that take the newest vector
      takers == IF last = 0 \/ ~IsVec(h[last]) THEN <<>>
                ELSE SelectSeq([i \in 1..(2 * Len(ops)) |-> i],
                               LAMBDA i : FitsPart(h[last], InSig(h[ops[(i + 1) \div 2]], i % 2 = 0)))
  IN  IF takers # <<>> /\ Chance(s, 20, 65)
      THEN LET t == Pick(s, 21, takers) IN [op |-> IF t % 2 = 0 THEN "rmv" ELSE "mv", a |-> ops[(t + 1) \div 2], x |-> last, at |-> R(s, 7, 2) = 0]
      ELSE IF Bad_(s, 3) /\ R(s, 4, 2) = 0 /\ vecs # <<>> THEN [op |-> IF adj THEN "rmv" ELSE "mv", a |-> a, x |-> Pick(s, 5, vecs), at |-> FALSE]
      ELSE IF fit = <<>> \/ Chance(s, 6, 25) THEN DrawVec(s, h, A, adj)
      ELSE [op |-> IF adj THEN "rmv" ELSE "mv", a |-> a,
            x |-> IF R(s, 8, 4) = 0 THEN fit[Len(fit)] ELSE Pick(s, 5, fit), at |-> R(s, 7, 2) = 0]
DrawDottest(s, h) ==
  LET a == Pick(s, 1, OpsOf(h))
      A == h[a]
      fu == Where(h, LAMBDA x : FitsPart(x, InSig(A, FALSE)))
      fw == Where(h, LAMBDA x : FitsPart(x, InSig(A, TRUE)))
      tol == R(s, 8, 6)
  IN  IF fu = <<>> THEN DrawVec(s, h, A, FALSE)
      ELSE IF fw = <<>> THEN DrawVec(s, h, A, TRUE)
      ELSE [op |-> "dottest", a |-> a, u |-> Pick(s, 5, fu), w |-> Pick(s, 6, fw), raise |-> R(s, 7, 2) = 0,
            rt |-> CASE tol = 0 -> <<1, 10>> [] tol = 1 -> <<1, 2>> [] tol = 2 -> <<1, 1000>> [] OTHER -> <<0, 1>>,
            at |-> CASE tol \in 0..2 -> 0 [] tol = 3 -> 3 [] tol = 4 -> 12 [] OTHER -> 1,
            nr |-> A.rows + (IF Bad_(s, 9) /\ R(s, 10, 2) = 0 THEN 1 ELSE 0), nc |-> A.cols]

(* ---- solvers -------------------------------------------------------------*)
(* B^H B + d I                                                               *)
SpdBlock(s, i, n, dt) ==
  LET B == [a \in 1..n |-> [b \in 1..n |-> <<R(s, i + 10 * a + b, 3) - 1, IF IsC(dt) THEN R(s, i + 200 + 10 * a + b, 3) - 1 ELSE 0>>]]
      M == MMul(MConjT(B, n), B, n)
      d == 1 + R(s, i + 7, 3)
  IN  [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN CAdd(M[a][b], <<d, 0>>) ELSE M[a][b]]]
DrawSPD(s) ==
  LET dt == Pick(s, 5, <<"f8", "c16">>)
      nb(r) == 1 + (IF P <= 3 /\ R(s, 20 + r, 3) = 0 THEN 1 ELSE 0)
      blk(r, b) == LET n == 1 + R(s, 40 * r + 20 * b, IF P <= 3 THEN 3 ELSE 2) IN [nr |-> n, nc |-> n, dt |-> dt, m |-> SpdBlock(s, 300 + 300 * r + 90 * b, n, dt)]
  IN  [op |-> "bdiag", blocks |-> [r \in Procs |-> [b \in 1..nb(r) |-> blk(r, b)]], mask |-> DrawMask(s, 9), dt |-> ""]
HermM(m) == \A i \in 1..Len(m) : /\ Len(m[i]) = Len(m)
                               /\ \A j \in 1..Len(m) : m[i][j] = CConj(m[j][i])
                               /\ m[i][i][1] > 0
RECURSIVE PD(_)
PD(A) ==
  CASE A.t = "bdiag" -> \A r \in Procs : \A b \in 1..Len(A.blocks[r]) : HermM(A.blocks[r][b].m)
    [] A.t = "wrap" -> HermM(A.M) /\ A.Mh = A.M
    [] A.t = "prod" -> A.A.t = "H" /\ A.A.A = A.B
    [] A.t = "sum" -> PD(A.A) /\ PD(A.B)
    [] A.t = "scale" -> PD(A.A) /\ A.s[1] > 0 /\ A.s[2] = 0
    [] A.t \in {"H", "T", "Cj"} -> PD(A.A)
    [] A.t = "sbdiag" -> \A i \in 1..Len(A.ops) : PD(A.ops[i])
    [] OTHER -> FALSE
(* small operators in full precision                                         *)
Solvable(A) == A.k = "op" /\ A.dt \in {"f8", "c16"} /\ SolverSized(A)
Small8(q) == \* blocks and stencils in full precision
  CASE q.op \in {"bdiag", "vstack", "hstack"} ->
         LET d == IF \E r \in Procs : \E b \in 1..Len(q.blocks[r]) : IsC(q.blocks[r][b].dt) THEN "c16" ELSE "f8"
         IN  [q EXCEPT !.dt = "", !.blocks = [r \in Procs |-> [b \in 1..Len(q.blocks[r]) |-> [q.blocks[r][b] EXCEPT !.dt = d]]]]
    [] q.op \in {"deriv1", "deriv2", "lapl", "grad", "fred"} -> [q EXCEPT !.dt = IF IsC(@) THEN "c16" ELSE "f8"]
    [] OTHER -> q
SolverVec0(A, adj) ==
  LET sig == InSig(A, adj)
      v(c) == LET part == IF "S" \in c.part THEN "S" ELSE "B"
                  sz == IF part = "S" THEN (IF c.sz = <<>> THEN Balanced(c.n, P) ELSE c.sz) ELSE FullSizes(<<c.n>>, 0)
              IN  Make(VZero(c.n), <<c.n>>, part, 0, sz, <<>>, A.dt)
  IN  IF sig.stk THEN Stk([i \in 1..Len(sig.c) |-> v(sig.c[i])]) ELSE v(sig.c[1])
DrawSVec(s, h, X) ==     \* a vector like X (or a component of it)
  LET like(a) == [Likeness(s, a) EXCEPT !.dt = a.dt, !.d = Data(s, 100, ProdI(a.g), a.dt, FALSE, 1)]
      have(i) == SelectSeq(Arrs(h), LAMBDA j : Compatible(h[j], X.a[i]) /\ h[j].dt = X.a[i].dt)
      missing == SelectSeq([i \in 1..Len(X.a) |-> i], LAMBDA i : Len(have(i)) < 2)
  IN  IF X.k = "arr" THEN like(X)
      ELSE IF missing # <<>> THEN like(X.a[missing[1]])
      ELSE [op |-> "stk", xs |-> [i \in 1..Len(X.a) |-> Pick(s, 70 + i, have(i))]]
SameV(x, X) == x.k = X.k /\ OkPair(x, X) /\ SameDts(x, X, LAMBDA a, b : a = b)
(* groups of a mask that stop at different times: known to get stuck         *)
Apart(h, q) ==
  [op |-> q.op, a |-> q.a, y |-> q.y, x0 |-> q.x0, niter |-> q.niter, tol |-> q.tol, damp |-> q.damp, mode |-> q.mode, calls |-> q.calls, show |-> q.show,
   apart |-> Exec(h, q).st = "must" /\ MaskOf(h[q.x0]) # <<>> /\ GroupsPart(q, h[q.a], h[q.y], h[q.x0])]
DrawSolve(s, h, t) ==
  LET cands == SelectSeq(OpsOf(h), LAMBDA i : Solvable(h[i]) /\ (t = "cg" => h[i].rows = h[i].cols /\ PD(h[i])))
  IN  IF cands = <<>> THEN (IF t = "cg" THEN DrawSPD(s) ELSE Small8(DrawLeaf(s)))
      ELSE LET a == IF R(s, 2, 2) = 0 THEN cands[Len(cands)] ELSE Pick(s, 3, cands)
               A == h[a]
               y0 == Apply(A, SolverVec0(A, FALSE), FALSE)
               x0 == IF y0.st = "must" THEN Apply(A, y0.y, TRUE) ELSE y0
               y1 == IF x0.st = "must" THEN Apply(A, x0.y, FALSE) ELSE x0
           IN  IF y1.st # "must" THEN (IF t = "cg" THEN DrawSPD(s) ELSE Small8(DrawLeaf(s)))
               ELSE LET xs == Where(h, LAMBDA x : IsVec(x) /\ SameV(x, x0.y))
                        ys == Where(h, LAMBDA x : IsVec(x) /\ SameV(x, y1.y))
                        y == IF R(s, 11, 3) = 0 THEN Pick(s, 12, ys) ELSE ys[Len(ys)]
                        any == Where(h, LAMBDA x : IsVec(x))
                        mode == Pick(s, 20, <<"solve", "solve", "class", "phases", "step", "reuse">>)
                    IN  IF xs = <<>> \/ Chance(s, 4, 20) THEN DrawSVec(s, h, x0.y)
                        ELSE IF ys = <<>> \/ Chance(s, 5, 20)
                        THEN (IF R(s, 6, 3) > 0 THEN [op |-> "mv", a |-> a, x |-> Pick(s, 7, xs), at |-> FALSE] ELSE DrawSVec(s, h, y1.y))
                        ELSE IF Chance(s, 8, 10) /\ x0.y.k = "arr" THEN [op |-> "zeros", x |-> Pick(s, 7, xs)]
                        ELSE Apart(h, [op |-> t, a |-> a, y |-> y, x0 |-> IF Bad_(s, 13) THEN Pick(s, 14, any) ELSE Pick(s, 14, xs),
                              niter |-> IF mode = "step" THEN R(s, 15, 3) ELSE Pick(s, 16, <<0, 1, 2, 2, 3, 3, 4, 5>>),
                              tol |-> IF mode = "step" THEN <<0, 1>> ELSE Pick(s, 17, <<<<1, 10000>>, <<1, 100000000>>, <<1, 1>>, <<50, 1>>, <<0, 1>>>>),
                              damp |-> IF t = "cg" THEN <<0, 1>> ELSE Pick(s, 18, <<<<0, 1>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 10>>>>),
                              mode |-> mode, calls |-> mode \in {"solve", "class", "reuse"} /\ R(s, 19, 4) > 0, show |-> R(s, 21, 4) = 0])
DrawNormal(s, h) ==     \* A^H, or A^H A once there is an A^H
  LET ops == SelectSeq(OpsOf(h), LAMBDA i : Solvable(h[i]) /\ h[i].t \notin {"H", "prod", "sum"})
      pairs == FoldLeft(LAMBDA acc, i : acc \o SelectSeq([j \in 1..Len(ops) |-> <<i, ops[j]>>], LAMBDA p : h[p[1]].A = h[p[2]]),
                        <<>>, SelectSeq(OpsOf(h), LAMBDA i : h[i].t = "H"))
      used(p) == \E i \in 1..Len(h) : h[i].k = "op" /\ h[i].t = "prod" /\ h[i].A = h[p[1]] /\ h[i].B = h[p[2]]
      new == SelectSeq(pairs, LAMBDA p : ~used(p))
  IN  IF new # <<>> THEN LET p == new[Len(new)] IN [op |-> "prod", a |-> p[1], b |-> p[2]]
      ELSE IF ops = <<>> THEN Small8(DrawLeaf(s))
      ELSE [op |-> "H", a |-> Pick(s, 2, ops)]
DrawAlgPD(s, h) ==
  LET pds == SelectSeq(OpsOf(h), LAMBDA i : Solvable(h[i]) /\ PD(h[i]))
      a == Pick(s, 1, pds)
      same == SelectSeq(pds, LAMBDA b : h[b].rows = h[a].rows /\ h[b].stk = h[a].stk)
  IN  IF pds = <<>> THEN DrawSPD(s)
      ELSE IF R(s, 2, 2) = 0 THEN [op |-> "sum", a |-> a, b |-> Pick(s, 3, same)]
      ELSE [op |-> "scale", a |-> a, s |-> <<1 + R(s, 4, 3), 0>>, sk |-> Pick(s, 5, <<"int", "float">>), left |-> R(s, 6, 2) = 0]
DrawStackOf(s, h, ok(_), t) ==
  LET ops == SelectSeq(POps(h), LAMBDA i : Solvable(h[i]) /\ ok(h[i]))
      a == Pick(s, 1, ops)
      pool == SelectSeq(ops, LAMBDA b : h[b].dt = h[a].dt /\ (t = "svstack" => h[b].cols = h[a].cols))
  IN  IF ops = <<>> THEN Small8(DrawLeaf(s))
      ELSE [op |-> t, as |-> [i \in 1..(1 + R(s, 4, 2)) |-> IF i = 1 THEN a ELSE Pick(s, 10 + i, pool)]]

(* ---- a request of a kind -------------------------------------------------*)
Plain(s) == DrawDist(s, AnyParts)
Draw(kind, s, h) ==
  LET arrs == Arrs(h)
      stks == Stks(h)
      needs(set, q) == IF set = <<>> THEN Plain(s) ELSE q
      x == Pick(s, 1, arrs)
      z == Pick(s, 1, stks)
      sc == Pick(s, 3, Scalars)
  IN  CASE kind = "dist" -> Plain(s)
        [] kind = "distB" -> DrawDist(s, <<"B", "B", "U">>)
        [] kind = "distS" -> DrawDist(s, <<"S">>)
        [] kind = "new" -> DrawNew(s, AnyParts)
        [] kind = "newB" -> DrawNew(s, <<"B", "B", "U", "S">>)
        [] kind = "like" -> needs(arrs, IF Bad_(s, 2) THEN Unlikeness(s, h[x]) ELSE Likeness(s, h[x]))
        [] kind = "set" -> needs(arrs, DrawSet(s, h, x))
        [] kind = "un" -> needs(arrs, [op |-> Pick(s, 2, <<"neg", "conj", "copy", "zeros">>), x |-> x])
        [] kind = "bin" -> needs(arrs, [op |-> Pick(s, 2, <<"add", "sub", "mul">>), x |-> x, y |-> Mate(s, 4, h, x)])
        [] kind = "iadd" -> needs(arrs, [op |-> Pick(s, 2, <<"iadd", "isub">>), x |-> x, y |-> Mate(s, 4, h, x)])
        [] kind = "smul" -> needs(arrs, [op |-> "smul", x |-> x, s |-> sc.s, sk |-> sc.sk, left |-> R(s, 4, 2) = 0])
        [] kind = "ravel" -> needs(arrs, [op |-> "ravel", x |-> x, order |-> Pick(s, 2, <<"C", "F">>)])
        [] kind = "dot" -> needs(arrs, [op |-> "dot", x |-> x, y |-> Mate(s, 4, h, x)])
        [] kind = "norm" -> needs(arrs, [op |-> "norm", x |-> x, ord |-> Pick(s, 2, Orders),
                                         axis |-> CASE R(s, 3, 3) = 0 -> (IF Repl(h[x]) THEN 0 ELSE h[x].ax)
                                                    [] Bad_(s, 4) -> R(s, 5, Len(h[x].g)) [] OTHER -> -1])
        [] kind = "ghost" -> IF ArrsS(h) = <<>> THEN DrawDist(s, <<"S">>) ELSE DrawGhost(s, h)
        [] kind = "asarray" -> needs(arrs, [op |-> "asarray", x |-> x])
        [] kind = "shapes" -> needs(arrs, [op |-> "shapes", x |-> x])
        [] kind = "stk" -> needs(arrs, [op |-> "stk", xs |-> [i \in 1..(1 + R(s, 2, 3)) |-> Pick(s, 10 + i, arrs)]])
        [] kind = "slike" -> needs(stks, \* a stack like another, from its components' mates
                              LET c == h[z].a
                                  m(i) == SelectSeq(arrs, LAMBDA j : Compatible(h[j], c[i]))
                                  need == SelectSeq([i \in 1..Len(c) |-> i], LAMBDA i : Len(m(i)) < 2)
                              IN  IF need # <<>> THEN Likeness(s, c[Pick(s, 2, need)])
                                  ELSE [op |-> "stk", xs |-> [i \in 1..Len(c) |-> Pick(s, 10 + i, m(i))]])
        [] kind = "sun" -> needs(stks, [op |-> Pick(s, 2, <<"neg", "conj", "copy">>), x |-> z])
        [] kind = "sbin" -> needs(stks, [op |-> Pick(s, 2, <<"add", "sub", "mul">>), x |-> z, y |-> Mate(s, 4, h, z)])
        [] kind = "siadd" -> needs(stks, [op |-> Pick(s, 2, <<"iadd", "isub">>), x |-> z, y |-> Mate(s, 4, h, z)])
        [] kind = "ssmul" -> needs(stks, [op |-> "smul", x |-> z, s |-> sc.s, sk |-> sc.sk, left |-> R(s, 4, 2) = 0])
        [] kind = "sdot" -> needs(stks, [op |-> "dot", x |-> z, y |-> Mate(s, 4, h, z)])
        [] kind = "snorm" -> needs(stks, [op |-> "norm", x |-> z, ord |-> Pick(s, 2, Orders), axis |-> -1])
        [] kind = "sarray" -> needs(stks, [op |-> "asarray", x |-> z])
        [] kind = "setk" -> needs(stks, LET c == 1 + R(s, 2, Len(h[z].a))
                                        IN  [op |-> "setk", x |-> z, c |-> c,
                                             val |-> [r \in Procs |-> Data(s, 100 + 40 * r, Len(h[z].a[c].v[r]), h[z].a[c].dt, Prof.norm, 1)]])
        [] kind = "block" -> DrawBlock(s)
        [] kind = "bdiag" -> DrawBlocks(s, "bdiag")
        [] kind = "clash" -> needs(arrs, Unlikeness(s, h[arrs[Len(arrs)]]))
        [] kind = "clashuse" -> \* the two newest arrays
             IF Len(arrs) < 2 THEN Plain(s)
             ELSE LET a == arrs[Len(arrs) - R(s, 5, 2)]
                      b == arrs[Len(arrs)] + arrs[Len(arrs) - 1] - a
                  IN  [op |-> Pick(s, 2, <<"add", "sub", "mul", "iadd", "isub", "dot">>), x |-> a, y |-> b]
        [] kind = "appnew" -> \* the newest operator
             LET ops == OpsOf(h) IN IF ops = <<>> THEN DrawLeaf(s) ELSE DrawApp(s, h, <<ops[Len(ops)]>>)
        [] kind = "deriv" -> DrawDeriv(s)
        [] kind = "fred" -> DrawFred(s)
        [] kind = "mdc" -> DrawMdc(s)
        [] kind = "leaf" -> DrawLeaf(s)
        [] kind = "anyop" -> DrawAnyOp(s)
        [] kind = "redop" -> DrawRedOp(s)
        [] kind = "wrapbad" -> DrawWrap(s, TRUE)
        [] kind = "opfor" -> IF POps(h) = <<>> THEN DrawLeaf(s) ELSE DrawOpFor(s, h)
        [] kind = "alg" -> IF POps(h) = <<>> THEN DrawLeaf(s) ELSE DrawAlg(s, h, POps(h))
        [] kind = "stackop" -> IF POps(h) = <<>> THEN DrawLeaf(s) ELSE DrawStackOp(s, h)
        [] kind = "salg" -> IF SOps(h) = <<>> THEN (IF POps(h) = <<>> THEN DrawLeaf(s) ELSE DrawStackOp(s, h)) ELSE DrawAlg(s, h, SOps(h))
        [] kind = "vec" -> IF OpsOf(h) = <<>> THEN DrawLeaf(s) ELSE DrawVec(s, h, h[Pick(s, 1, OpsOf(h))], R(s, 2, 2) = 0)
        [] kind = "app" -> IF OpsOf(h) = <<>> THEN DrawLeaf(s) ELSE DrawApp(s, h, OpsOf(h))
        [] kind = "sapp" -> IF SOps(h) = <<>> THEN (IF POps(h) = <<>> THEN DrawLeaf(s) ELSE DrawStackOp(s, h)) ELSE DrawApp(s, h, SOps(h))
        [] kind = "dottest" -> IF OpsOf(h) = <<>> THEN DrawLeaf(s) ELSE DrawDottest(s, h)
        [] kind = "spd" -> DrawSPD(s)
        [] kind = "sleaf" -> Small8(IF R(s, 44, 4) = 0 THEN DrawGrad(s) ELSE DrawLeaf(s))
        [] kind = "sfor" -> IF POps(h) = <<>> THEN Small8(DrawLeaf(s)) ELSE Small8(DrawOpFor(s, h))
        [] kind = "normal" -> DrawNormal(s, h)
        [] kind = "salgpd" -> DrawAlgPD(s, h)
        [] kind = "ssbd" -> DrawStackOf(s, h, PD, "sbdiag")
        [] kind = "sstack" -> DrawStackOf(s, h, LAMBDA A : TRUE, Pick(s, 45, <<"svstack", "svstack", "sbdiag">>))
        [] kind \in {"cg", "cgls"} -> DrawSolve(s, h, kind)
        [] kind = "repeat" -> \* an earlier request that changes nothing, once more
             LET old == SelectSeq(prog, LAMBDA q : q.op \notin {"set", "setk", "iadd", "isub", "dist", "new"})
             IN  IF old = <<>> THEN Plain(s) ELSE Pick(s, 1, old)

KindOf(step) == IF step <= Len(Prof.pre) THEN Prof.pre[step] ELSE Pick(StepSeed(id, step), 901, Prof.mix)
Grows == {"alg", "salg", "stackop"}
(* what is new gets used                                                     *)
KindAt(s, step) ==
  IF step > Len(Prof.pre) /\ step > 1 /\ KindOf(step - 1) = "clash" THEN "clashuse"
  ELSE IF step > Len(Prof.pre) /\ (\E j \in 1..3 : step > j /\ KindOf(step - j) \in Grows) /\ Chance(s, 902, 55) THEN "appnew"
  ELSE KindOf(step)

Init == /\ id \in 1..N
        /\ k = 1
        /\ heap = <<>>
        /\ prog = <<>>

Step == /\ k <= Prof.steps
        /\ LET s == StepSeed(id, k)
               q == Draw(KindAt(s, k), s, heap)
               out == Exec(heap, q)
           IN  /\ heap' = out.heap
               /\ prog' = IF out.st = "skip" THEN prog ELSE Append(prog, q)
               /\ k' = k + 1
        /\ UNCHANGED id
Emit == /\ k = Prof.steps + 1
        /\ PrintT("PROG " \o ToJson([id |-> id, p |-> P, steps |-> prog]))
        /\ k' = k + 1
        /\ UNCHANGED <<id, heap, prog>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
View == <<id, k>>
=============================================================================
