------------------------------- MODULE Meaning -------------------------------
(* The machine (Machine.tla) says what every process does with its pieces.   *)
(* Here is what requests mean for the gathered, global arrays, as the        *)
(* properties have it, and every step of the programs in the file PROGS (the *)
(* same programs that the code under test executes) is checked to mean that: *)
(*   Valid   objects are well-formed: pieces fit the layout, replicas agree  *)
(*   Frame   only the target of an assignment or of in-place arithmetic      *)
(*           changes, and a rejected request changes nothing                 *)
(*   Means   the result, gathered, is that of the operation on the gathered  *)
(*           operands (for operators: the product with the matrix, evaluated *)
(*           from the structure of the expression in exact rationals; for    *)
(*           solvers: the laws of the minimisation)                          *)
EXTENDS Machine, TLC, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)

VARIABLES sc, k, heap, told
vars == <<sc, k, heap, told>>

(* ---- well-formed ---------------------------------------------------------*)
ArrOK(x) ==
  /\ x.part \in {"S", "B", "U"}
  /\ x.ax \in 0..(Len(x.g) - 1)
  /\ IF x.part = "S" THEN ValidSizes(x.sz, x.g[x.ax + 1], P) ELSE x.sz = FullSizes(x.g, x.ax)
  /\ \A r \in Procs : Len(x.v[r]) = ProdI(LShape(x, r))
  /\ x.part = "B" => \A r \in Procs : x.v[r] = x.v[1]
  /\ ValidMask(x.mask)
  /\ ~IsC(x.dt) => \A r \in Procs : \A i \in 1..Len(x.v[r]) : x.v[r][i][2] = 0
RECURSIVE OpOK(_)
OpOK(A) ==
  /\ A.rows >= 0 /\ A.cols >= 0
  /\ CASE A.t \in {"H", "T"} -> OpOK(A.A) /\ A.rows = A.A.cols /\ A.cols = A.A.rows /\ A.stk = A.A.stk
       [] A.t \in {"Cj", "scale", "pow"} -> OpOK(A.A) /\ A.rows = A.A.rows /\ A.cols = A.A.cols /\ A.stk = A.A.stk
       [] A.t = "sum" -> OpOK(A.A) /\ OpOK(A.B) /\ A.A.rows = A.B.rows /\ A.A.cols = A.B.cols /\ A.rows = A.A.rows /\ A.cols = A.A.cols
       [] A.t = "prod" -> OpOK(A.A) /\ OpOK(A.B) /\ A.A.cols = A.B.rows /\ A.rows = A.A.rows /\ A.cols = A.B.cols
       [] A.t \in {"svstack", "grad"} -> /\ \A i \in 1..Len(A.ops) : OpOK(A.ops[i]) /\ A.ops[i].cols = A.cols
                                         /\ A.rows = SumI([i \in 1..Len(A.ops) |-> A.ops[i].rows])
       [] A.t = "sbdiag" -> /\ \A i \in 1..Len(A.ops) : OpOK(A.ops[i])
                            /\ A.rows = SumI([i \in 1..Len(A.ops) |-> A.ops[i].rows])
                            /\ A.cols = SumI([i \in 1..Len(A.ops) |-> A.ops[i].cols])
       [] OTHER -> TRUE
ObjOK(o) ==
  CASE o.k = "arr" -> ArrOK(o)
    [] o.k = "stk" -> \A i \in 1..Len(o.a) : ArrOK(o.a[i])
    [] o.k = "op" -> OpOK(o)
    [] OTHER -> o = None

(* ---- what may change -----------------------------------------------------*)
Mutates(q) == q.op \in {"set", "setk", "iadd", "isub"}
FrameOK(q, st, h, h2) ==
  /\ Len(h2) = Len(h) + (IF q.op \in Creating THEN 1 ELSE 0)
  /\ \A i \in 1..Len(h) : h2[i] = h[i] \/ (Mutates(q) /\ i = q.x /\ st # "rej")
  /\ st = "rej" /\ q.op \in Creating => h2[Len(h2)] = None
  \* layouts and element types are forever
  /\ \A i \in 1..Len(h) : \A c \in 1..(IF IsVec(h[i]) THEN Len(Comps(h[i])) ELSE 0) :
       [Comps(h[i])[c] EXCEPT !.v = <<>>] = [Comps(h2[i])[c] EXCEPT !.v = <<>>]

(* ---- meaning on gathered arrays ------------------------------------------*)
Same(x) == x.k = "stk" \/ x.part # "U" \/ \A r \in Procs : x.v[r] = x.v[1]
AllSame(x) == \A c \in 1..Len(Comps(x)) : Same(Comps(x)[c])
LayOf(x) == [c \in 1..Len(Comps(x)) |-> LET a == Comps(x)[c] IN [g |-> a.g, part |-> a.part, ax |-> a.ax, sz |-> a.sz, mask |-> a.mask]]
Told1(ret, w) == \A r \in Procs : ret[r] = w
Groupless(x) == \A c \in 1..Len(Comps(x)) : Comps(x)[c].mask = <<>>

(* elements lie in the pieces in rank order along the axis                   *)
PiecesInOrder(x, d) ==
  LET off == Offs(x.sz)
      inner == Inner(x.g, x.ax)
      n == x.g[x.ax + 1]
  IN  \A r \in Procs : \A i \in 1..Len(x.v[r]) :
        LET f == i - 1
            m == x.sz[r]
            c == off[r] + ((f \div inner) % m)
        IN  x.v[r][i] = d[((f \div (inner * m)) * n + c) * inner + (f % inner) + 1]
MeansDist(q, y) ==
  /\ y.g = q.g /\ y.ax = q.ax /\ y.part = q.part
  /\ IF q.part = "S" THEN PiecesInOrder(y, q.d) ELSE \A r \in Procs : y.v[r] = q.d
  /\ IF q.sz # <<>> \/ q.part # "S" THEN TRUE
     ELSE LET b == y.sz IN MaxI(b) - MinI(b) <= 1 /\ \A r \in 1..(P - 1) : b[r] >= b[r + 1]

MeansRavel(q, x, y) ==
  /\ Len(y.g) = 1 /\ y.part = x.part /\ y.mask = x.mask
  /\ \A r \in Procs : IF q.order = "C" THEN y.v[r] = x.v[r]
                      ELSE \A i \in 1..Len(y.v[r]) : y.v[r][i] = x.v[r][FtoC(i - 1, LShape(x, r)) + 1]
  /\ x.part = "S" /\ x.ax = 0 /\ q.order = "C" => Global(y) = Global(x)

(* the window of one process, from its own piece and its neighbours' ends    *)
MeansGhost(q, x, ret) ==
  LET f(r) == IF r > 1 /\ q.cf # <<>> THEN q.cf[r] ELSE 0
      b(r) == IF r < P /\ q.cb # <<>> THEN q.cb[r] ELSE 0
      row(v, r, o) == LET n == x.sz[r] * Inner(x.g, x.ax) IN SubSeq(v, o * n + 1, (o + 1) * n)
      last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
      first(s, n) == SubSeq(s, 1, n)
      in == Inner(x.g, x.ax)
  IN  \A r \in Procs :
        /\ f(r) <= (IF r > 1 THEN x.sz[r - 1] ELSE 0) /\ b(r) <= (IF r < P THEN x.sz[r + 1] ELSE 0)
        /\ ret[r].v = FoldLeft(LAMBDA acc, o :
                         acc \o (IF r > 1 THEN last(row(x.v[r - 1], r - 1, o - 1), f(r) * in) ELSE <<>>)
                             \o row(x.v[r], r, o - 1)
                             \o (IF r < P THEN first(row(x.v[r + 1], r + 1, o - 1), b(r) * in) ELSE <<>>),
                         <<>>, [o \in 1..Outer(x.g, x.ax) |-> o])

(* groups: the sum over one process of each group is the sum over all        *)
Lowest(mask) == {r \in Procs : \A s \in Procs : mask[s] = mask[r] => r <= s}
MeansDot(x, y, ret) ==
  LET all == VDot(Flat(x), Flat(y))
      m == Comps(x)[1].mask
  IN  IF ~AllSame(x) \/ ~AllSame(y) THEN TRUE
      ELSE IF Groupless(x) THEN Told1(ret, all)
      ELSE IF \E c \in 1..Len(Comps(x)) : Comps(x)[c].mask # m THEN TRUE
      ELSE /\ \A r, s \in Procs : m[r] = m[s] => ret[r] = ret[s]
           /\ FoldLeft(LAMBDA a, r : IF r \in Lowest(m) THEN CAdd(a, ret[r]) ELSE a, Z0, [r \in Procs |-> r]) = all

Columns(d, g, axis) == [c \in 1..(Outer(g, axis) * Inner(g, axis)) |-> Column(d, g, axis, c - 1)]
MeansNorm(q, x, ret) ==
  LET m == Comps(x)[1].mask
      whole == IF q.axis = -1 THEN <<Mass(q.ord, Flat(x))>>
               ELSE LET C == Columns(Global(x), x.g, q.axis) IN [c \in 1..Len(C) |-> Mass(q.ord, C[c])]
      reps == SelectSeq([r \in Procs |-> r], LAMBDA r : r \in Lowest(m))
  IN  IF ~AllSame(x) THEN TRUE
      ELSE IF Groupless(x) THEN Told1(ret, whole)
      ELSE IF \E c \in 1..Len(Comps(x)) : Comps(x)[c].mask # m THEN TRUE
      ELSE /\ \A r, s \in Procs : m[r] = m[s] => ret[r] = ret[s]
           /\ [c \in 1..Len(whole) |-> Merge(q.ord, [i \in 1..Len(reps) |-> ret[reps[i]][c]])] = whole

(* operators made of wrapped serial ones whose adjoint is not                *)
RECURSIVE Faithful(_)
Faithful(A) ==
  CASE A.t = "wrap" -> A.Mh = MConjT(A.M, A.cols)
    [] A.t \in {"H", "T", "Cj", "scale", "pow"} -> Faithful(A.A)
    [] A.t \in {"sum", "prod"} -> Faithful(A.A) /\ Faithful(A.B)
    [] A.t \in {"svstack", "sbdiag"} -> \A i \in 1..Len(A.ops) : Faithful(A.ops[i])
    [] OTHER -> TRUE

(* matrices of expressions are dense; their products with vectors, exactly   *)
CONSTANT MaxEntries       \* of matrices that are worked out
MatrixOf(A, adj) == IF adj THEN QConjT(QDense(A), A.cols) ELSE QDense(A)
MeansApply(A, x, adj, y) ==
  IF A.rows * A.cols > MaxEntries \/ ~AllSame(x) \/ ~Faithful(A) THEN TRUE
  ELSE QVec(y) = QMatVec(MatrixOf(A, adj), QVec(x))
(* one exact run                                                             *)
QSubV(a, b) == QAxpy(<<"-1/1", R0>>, b, a)
RunLaws(q, M, y, run) ==
  LET s == run.s
      n == Len(s.xs)
      res(i) == QSubV(y, QMatVec(M, s.xs[i]))
      d2 == Damp2(q)
      MH == QConjT(M, Len(s.xs[1]))
      grad(i) == QAxpy(QReal(RSub(R0, d2)), s.xs[i], QMatVec(MH, res(i)))
      \* the functional that is minimised: |y - Ax|^2 + d2 |x|^2, or (CG) x'Ax - 2 Re x'y
      func(i) == IF q.op = "cgls" THEN RAdd(QNorm2(res(i)), RMul(d2, QNorm2(s.xs[i])))
                 ELSE RSub(QDot(QVConj(s.xs[i]), QMatVec(M, s.xs[i]))[1], RMul("2/1", QDot(QVConj(s.xs[i]), y)[1]))
  IN  s.ok =>
      /\ n <= q.niter + 1
      /\ \A i \in 1..n : s.ns[i] = QNorm2(res(i))
      /\ q.op = "cgls" => \A i \in 1..n : s.ks[i] = QNorm2(grad(i)) /\ s.ms[i] = func(i)
      /\ q.op = "cg" => \A i \in 1..n : s.ks[i] = s.ns[i]
      /\ \A i \in 1..(n - 1) : RLt(func(i + 1), func(i))
      /\ \A i \in 1..(n - 1) : RLt(R0, s.ks[i])
      \* finite termination
      /\ n <= Len(s.xs[1]) + 1
      /\ n = Len(s.xs[1]) + 1 => s.ks[n] = R0
      /\ run.end = "tol" => RLe(s.ks[n], RFrac(q.tol[1], q.tol[2]))
      /\ run.end = "niter" => n = q.niter + 1
MeansSolve(q, A, y, x0) ==
  LET M == QDense(A)
      gr == GroupsOf(y)
      gc == GroupsOf(x0)
      mask == MaskOf(x0)
      gs == IF mask = <<>> THEN {0} ELSE {mask[r] : r \in Procs}
  IN  \A g \in gs :
        LET I == Where1(gc, g)
            J == Where1(gr, g)
            S == [j \in 1..Len(J) |-> Pick1(M[J[j]], I)]
        IN  RunLaws(q, S, Pick1(QVec(y), J), GroupRun(q, M, QVec(y), QVec(x0), gr, gc, g))

MapV(F(_), x) == LET v == Flat(x) IN [i \in 1..Len(v) |-> F(v[i])]
Means(q, h, h2, ret) ==
  LET y == h2[Len(h2)]
      X == h[q.x]
      Y == h[q.y]
      a(i) == h[q.xs[i]]
  IN  CASE q.op = "dist" -> MeansDist(q, y)
        [] q.op = "new" -> \A r \in Procs : y.v[r] = (IF y.part = "B" THEN q.v[1] ELSE q.v[r])
        [] q.op = "set" -> /\ LET z == h2[q.x]
                              IN  z.part # "S" \/ \A r \in Procs : \A i \in 1..Len(z.v[r]) :
                                    \/ z.v[r][i] = X.v[r][i]
                                    \/ \E p \in 1..Len(Positions(q.idx[r], LShape(X, r))) : Positions(q.idx[r], LShape(X, r))[p] = i
        [] q.op = "neg" -> LayOf(y) = LayOf(X) /\ Flat(y) = MapV(CNeg, X)
        [] q.op = "conj" -> LayOf(y) = LayOf(X) /\ Flat(y) = MapV(CConj, X)
        [] q.op = "copy" -> y = X
        [] q.op = "zeros" -> LayOf(y) = LayOf(X) /\ Flat(y) = VZero(Len(Flat(X)))
        [] q.op = "smul" -> LayOf(y) = LayOf(X) /\ Flat(y) = VScale(q.s, Flat(X))
        [] q.op = "add" -> LayOf(y) = LayOf(X) /\ OkPair(X, Y) /\ Flat(y) = VAdd(Flat(X), Flat(Y))
        [] q.op = "sub" -> LayOf(y) = LayOf(X) /\ OkPair(X, Y) /\ Flat(y) = VAdd(Flat(X), VNeg(Flat(Y)))
        [] q.op = "mul" -> LayOf(y) = LayOf(X) /\ OkPair(X, Y) /\ Flat(y) = VMul(Flat(X), Flat(Y))
        [] q.op = "iadd" -> Flat(h2[q.x]) = VAdd(Flat(X), Flat(Y))
        [] q.op = "isub" -> Flat(h2[q.x]) = VAdd(Flat(X), VNeg(Flat(Y)))
        [] q.op = "ravel" -> MeansRavel(q, X, y)
        [] q.op = "dot" -> MeansDot(X, Y, ret)
        [] q.op = "norm" -> MeansNorm(q, X, ret)
        [] q.op = "ghost" -> MeansGhost(q, X, ret)
        [] q.op = "asarray" -> AllSame(X) => \A r \in Procs : ret[r].v = Flat(X)
        [] q.op = "shapes" -> \A r, s \in Procs : ProdI(ret[r][s]) = Len(X.v[s])
        [] q.op = "stk" -> y.a = [i \in 1..Len(q.xs) |-> a(i)]
        [] q.op \in {"mv", "rmv"} -> MeansApply(h[q.a], X, q.op = "rmv", y)
        [] q.op = "dottest" -> Faithful(h[q.a]) => Told1(ret, TRUE)
        [] q.op \in {"cg", "cgls"} -> MeansSolve(q, h[q.a], Y, h[q.x0])
        [] OTHER -> TRUE
(* (the records of some requests have no x, say)                             *)
Full(q) == q @@ [x |-> 1, y |-> 1, xs |-> <<>>]

Good(c, q, out) ==
  CASE c = "frame" -> FrameOK(q, out.st, heap, out.heap)
    [] c = "malformed" -> \A i \in 1..Len(out.heap) : ObjOK(out.heap[i])
    [] c = "meaning" -> IF out.st \in {"rej", "skip"} THEN TRUE ELSE Means(q, heap, out.heap, out.ret)
    [] c = "skipped" -> out.st # "skip"
Breach(what, q) == PrintT("BREACH " \o ToJson([line |-> sc, step |-> k, what |-> what, q |-> q]))
Holds1(c, q, out) == IF Good(c, q, out) THEN TRUE ELSE Breach(c, q)
Init == /\ sc \in 1..Len(Progs)
        /\ k = 1
        /\ heap = <<>>
        /\ told = 0
Step ==
  /\ k <= Len(Progs[sc].steps)
  /\ LET q == Full(Progs[sc].steps[k])
         out == Exec(heap, q)
     IN  /\ \A c \in {"frame", "malformed", "meaning", "skipped"} : Holds1(c, q, out)
         /\ heap' = out.heap
         /\ told' = told + (IF out.st = "rej" THEN 0 ELSE 1)
  /\ k' = k + 1
  /\ UNCHANGED sc
End == /\ k = Len(Progs[sc].steps) + 1
       /\ PrintT("MEANT " \o ToJson([line |-> sc, steps |-> k - 1, accepted |-> told]))
       /\ k' = k + 1
       /\ UNCHANGED <<sc, heap, told>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
View == <<sc, k>>
=============================================================================
