-------------------------------- MODULE Solvers --------------------------------
(* Conjugate gradients (CG) and conjugate gradients for least squares (CGLS) *)
(* as exact recurrences over complex rationals, and the judgement of a run   *)
(* recorded in floating point against them.                                  *)
(*                                                                           *)
(* With a mask, dot products are those of the groups: when the operator does *)
(* not couple them, every group solves its own system.                       *)
EXTENDS Operators, Rat

(* ---- the matrix of an expression, exactly --------------------------------*)
LeafQ(A) ==
  LET s == 144 * A.mult       \* large enough that all entries of the scaled columns are integers
      col(j) == LeafV(A, [i \in 1..A.cols |-> IF i = j THEN <<s, 0>> ELSE Z0], FALSE)
      C == [j \in 1..A.cols |-> col(j)]
  IN  [i \in 1..A.rows |-> [j \in 1..A.cols |-> QFrom(C[j][i], s)]]
QVZero(n) == [i \in 1..n |-> Q0]
QScaleM(a, M, nc) == [i \in 1..Len(M) |-> QAxpy(a, M[i], QVZero(nc))]
QMulM(A, B, nc) == LET Bt == [j \in 1..nc |-> [i \in 1..Len(B) |-> B[i][j]]]
                   IN  [i \in 1..Len(A) |-> [j \in 1..nc |-> QDot(A[i], Bt[j])]]
QEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<R1, R0>> ELSE Q0]]
QConjM(M) == [i \in 1..Len(M) |-> QVConj(M[i])]
RECURSIVE QDense(_)
QDense(A) ==
  CASE A.t = "H" -> QConjT(QDense(A.A), A.rows)
    [] A.t = "T" -> QConjM(QConjT(QDense(A.A), A.rows))
    [] A.t = "Cj" -> QConjM(QDense(A.A))
    [] A.t = "scale" -> QScaleM(QFrom(A.s, 1), QDense(A.A), A.cols)
    [] A.t = "sum" -> LET X == QDense(A.A) Y == QDense(A.B) IN [i \in 1..A.rows |-> QAxpy(<<R1, R0>>, X[i], Y[i])]
    [] A.t = "prod" -> QMulM(QDense(A.A), QDense(A.B), A.cols)
    [] A.t = "pow" -> IF A.p = 0 THEN QEye(A.rows) ELSE QMulM(QDense(A.A), QDense([A EXCEPT !.p = @ - 1]), A.cols)
    [] A.t \in {"svstack", "grad"} -> FoldLeft(LAMBDA acc, o : acc \o QDense(o), <<>>, A.ops)
    [] A.t = "sbdiag" ->
         LET off == Offs([i \in 1..Len(A.ops) |-> A.ops[i].cols])
             row(i, rw) == [j \in 1..A.cols |-> IF off[i] < j /\ j <= off[i + 1] THEN rw[j - off[i]] ELSE Q0]
             D(i) == LET M == QDense(A.ops[i]) IN [q \in 1..A.ops[i].rows |-> row(i, M[q])]
         IN  FoldLeft(LAMBDA acc, i : acc \o D(i), <<>>, [i \in 1..Len(A.ops) |-> i])
    [] OTHER -> LeafQ(A)

(* ---- vectors -------------------------------------------------------------*)
Comps(x) == IF x.k = "stk" THEN x.a ELSE <<x>>
Flat(x) == FoldLeft(LAMBDA acc, a : acc \o Global(a), <<>>, Comps(x))
QVec(x) == LET v == Flat(x) IN [i \in 1..Len(v) |-> QFrom(v[i], 1)]
(* the group of the process that holds each element; 0 without groups        *)
MaskOf(x) == Comps(x)[1].mask
OwnersOf(a) == FoldLeft(LAMBDA acc, r : acc \o [i \in 1..a.sz[r] |-> r], <<>>, [r \in Procs |-> r])
GroupsOf(x) ==
  IF MaskOf(x) = <<>> THEN [i \in 1..Len(Flat(x)) |-> 0]
  ELSE FoldLeft(LAMBDA acc, a : LET o == OwnersOf(a) IN acc \o [i \in 1..Len(o) |-> a.mask[o[i]]], <<>>, Comps(x))
Pick1(v, idx) == [i \in 1..Len(idx) |-> v[idx[i]]]
Where1(gs, g) == SelectSeq([i \in 1..Len(gs) |-> i], LAMBDA i : gs[i] = g)
Uncoupled(M, gr, gc) == \A i \in 1..Len(gr) : \A j \in 1..Len(gc) : gr[i] # gc[j] => M[i][j] = Q0

(* ---- the recurrences -----------------------------------------------------*)
(* s: [x, r, c, q, s, k, xs, ks, ns, ms]  with the histories of the iterates *)
(* (xs), of the quantity the tolerance is compared with (ks), of |residual|^2 *)
(* (ns) and of |residual|^2 + damp^2 |x|^2 (ms)                               *)
Tiny == "1/100000000"
(* rounding leaves no exact zeros, except at the start                       *)
ClearlyBelow(k, tol, n) == IF tol = R0 THEN n = 0 /\ k = R0 ELSE RLe(k, RMul(tol, "9999/10000"))
ClearlyAbove(k, tol, k0) == RLe(RMul(tol, "10001/10000"), k) /\ RLt(RMul(Tiny, RMax(R1, k0)), k)

CGStart(M, y, x0) ==
  LET r == QAxpy(<<"-1/1", R0>>, QMatVec(M, x0), y)
      k == QNorm2(r)
  IN  [x |-> x0, r |-> r, c |-> r, k |-> k, xs |-> <<x0>>, ks |-> <<k>>, ns |-> <<k>>, ms |-> <<k>>, ok |-> TRUE]
CGStep(M, s) ==
  LET q == QMatVec(M, s.c)
      cq == QDot(s.c, QVConj(q))
  IN  IF cq[2] # R0 \/ RLe(cq[1], R0) THEN [s EXCEPT !.ok = FALSE]     \* not positive definite: outside
      ELSE LET a == RDiv(s.k, cq[1])
               x == QAxpy(QReal(a), s.c, s.x)
               r == QAxpy(QReal(RSub(R0, a)), q, s.r)
               k == QNorm2(r)
               c == QAxpy(QReal(RDiv(k, s.k)), s.c, r)
           IN  [x |-> x, r |-> r, c |-> c, k |-> k, xs |-> Append(s.xs, x), ks |-> Append(s.ks, k),
                ns |-> Append(s.ns, k), ms |-> Append(s.ms, k), ok |-> TRUE]

LSStart(M, MH, y, x0, d2) ==
  LET s == QAxpy(<<"-1/1", R0>>, QMatVec(M, x0), y)
      r == QAxpy(QReal(RSub(R0, d2)), x0, QMatVec(MH, s))
      k == QNorm2(r)
      n == QNorm2(s)
  IN  [x |-> x0, r |-> s, c |-> r, k |-> k, xs |-> <<x0>>, ks |-> <<k>>, ns |-> <<n>>,
       ms |-> <<RAdd(n, RMul(d2, QNorm2(x0)))>>, ok |-> TRUE]
LSStep(M, MH, d2, s) ==
  LET q == QMatVec(M, s.c)
      den == RAdd(QNorm2(q), RMul(d2, QNorm2(s.c)))
  IN  IF RLe(den, R0) THEN [s EXCEPT !.ok = FALSE]
      ELSE LET a == RDiv(s.k, den)
               x == QAxpy(QReal(a), s.c, s.x)
               t == QAxpy(QReal(RSub(R0, a)), q, s.r)
               r == QAxpy(QReal(RSub(R0, d2)), x, QMatVec(MH, t))
               k == QNorm2(r)
               n == QNorm2(t)
           IN  [x |-> x, r |-> t, c |-> QAxpy(QReal(RDiv(k, s.k)), s.c, r), k |-> k, xs |-> Append(s.xs, x), ks |-> Append(s.ks, k),
                ns |-> Append(s.ns, n), ms |-> Append(s.ms, RAdd(n, RMul(d2, QNorm2(x)))), ok |-> TRUE]

(* run until the tolerance, the limit, or until rounding could decide:       *)
(* end is "niter", "tol" or "unsure"                                         *)
RECURSIVE Iterate(_, _, _, _, _)
Iterate(Stp(_), s, n, niter, tol) ==
  IF ~s.ok THEN [s |-> s, end |-> "unsure"]
  ELSE IF ClearlyBelow(s.k, tol, n) THEN [s |-> s, end |-> "tol"]
  ELSE IF n >= niter THEN [s |-> s, end |-> IF ClearlyAbove(s.k, tol, s.ks[1]) THEN "niter" ELSE "niter?"]
  ELSE IF ClearlyAbove(s.k, tol, s.ks[1]) THEN Iterate(Stp, Stp(s), n + 1, niter, tol)
  ELSE [s |-> s, end |-> "unsure"]

(* the run of the group of process r                                         *)
Damp2(q) == IF q.op = "cg" THEN R0 ELSE RMul(RFrac(q.damp[1], q.damp[2]), RFrac(q.damp[1], q.damp[2]))
GroupRun(q, M, y, x0, gr, gc, g) ==
  LET I == Where1(gc, g)
      J == Where1(gr, g)
      S == [j \in 1..Len(J) |-> Pick1(M[J[j]], I)]
      SH == QConjT(S, Len(I))
      yy == Pick1(y, J)
      xx == Pick1(x0, I)
      tol == RFrac(q.tol[1], q.tol[2])
      d2 == Damp2(q)
      run == IF q.op = "cg" THEN Iterate(LAMBDA s : CGStep(S, s), CGStart(S, yy, xx), 0, q.niter, tol)
             ELSE Iterate(LAMBDA s : LSStep(S, SH, d2, s), LSStart(S, SH, yy, xx, d2), 0, q.niter, tol)
  IN  \* stepping on after convergence is left to the caller
      IF q.mode = "step" /\ run.end = "tol" THEN [run EXCEPT !.end = "unsure"] ELSE run

SolverRuns(q, A, y, x0) ==    \* per process
  LET M == QDense(A)
      gr == GroupsOf(y)
      gc == GroupsOf(x0)
      mask == MaskOf(x0)
      yq == QVec(y)
      xq == QVec(x0)
      gs == IF mask = <<>> THEN {0} ELSE {mask[r] : r \in Procs}
      runs == [g \in gs |-> GroupRun(q, M, yq, xq, gr, gc, g)]
  IN  [r \in Procs |-> runs[IF mask = <<>> THEN 0 ELSE mask[r]]]
GroupsUncoupled(A, y, x0) == MaskOf(x0) = <<>> \/ Uncoupled(QDense(A), GroupsOf(y), GroupsOf(x0))

(* ---- judging a recorded run ----------------------------------------------*)
(* ret, per process: [x, its, cost, iiter, istop, r1, r2] with the local     *)
(* pieces of the result and of the iterates, one flat list per component     *)
Tol == "1/100000"
VTol(v) == RMul(Tol, RAdd(R1, QMaxAbs(v)))
KTol(k) == RMul(Tol, RAdd(R1, k))
(* the part of an exact flat (group) vector that process r holds             *)
LocalOf(x, v, g, r) ==
  LET gs == GroupsOf(x)
      off == Offs([i \in 1..Len(Comps(x)) |-> ProdI(Comps(x)[i].g)])
      pos(i) == IF MaskOf(x) = <<>> THEN i ELSE Cardinality({j \in 1..i : gs[j] = g})   \* position within the group
      comp(c) == LET a == Comps(x)[c]
                     o == Offs(a.sz)
                 IN  IF a.part = "S" THEN [i \in 1..a.sz[r] |-> v[pos(off[c] + o[r] + i)]] ELSE [i \in 1..ProdI(a.g) |-> v[pos(off[c] + i)]]
  IN  [c \in 1..Len(Comps(x)) |-> comp(c)]
CloseTo(x, obs, v, g, r) ==
  LET e == LocalOf(x, v, g, r)
  IN  Len(obs) = Len(e) /\ \A c \in 1..Len(e) : QCloseV(obs[c], e[c], VTol(v))
SquareClose(c, k) == RIs(c) /\ RClose(RMul(c, c), k, KTol(k))

LayoutsOf(x) == [c \in 1..Len(Comps(x)) |-> LET a == Comps(x)[c] IN [g |-> a.g, part |-> a.part, ax |-> a.ax, mask |-> a.mask, dt |-> a.dt]]
SolverFaults(q, A, y, x0, ret) ==
  LET runs == SolverRuns(q, A, y, x0)
      mask == MaskOf(x0)
      bad(r) ==    \* faults seen at process r
        LET o == ret[r]
            run == runs[r]
            s == run.s
            n == Len(s.xs) - 1
            g == IF mask = <<>> THEN 0 ELSE mask[r]
            sure == run.end \in {"niter", "niter?", "tol"}
            m == IMin(n, IMin(Len(o.its), o.iiter))
        IN  IF o.lay # LayoutsOf(x0) THEN {"layout"}
            ELSE IF ~s.ok /\ n = 0 THEN {}
            ELSE (IF sure /\ o.iiter # n THEN {"count"} ELSE {})
             \cup (IF o.iiter < n \/ o.iiter > q.niter THEN {"count"} ELSE {})
             \cup (IF q.calls /\ Len(o.its) # o.iiter THEN {"count"} ELSE {})
             \cup (IF \E j \in 1..m : ~CloseTo(x0, o.its[j], s.xs[j + 1], g, r) THEN {"iterates"} ELSE {})
             \cup (IF sure /\ o.iiter = n /\ ~CloseTo(x0, o.x, s.xs[n + 1], g, r) THEN {"iterates"} ELSE {})
             \cup (IF Len(o.cost) # o.iiter + 1 \/ \E j \in 1..IMin(n + 1, Len(o.cost)) : ~SquareClose(o.cost[j], s.ns[j]) THEN {"history"} ELSE {})
             \cup (IF q.op = "cgls" /\ run.end \in {"niter", "tol"} /\ q.tol[1] > 0 /\ o.istop # (IF run.end = "tol" THEN 1 ELSE 2) THEN {"reason"} ELSE {})
             \cup (IF q.op = "cgls" /\ sure /\ o.iiter = n /\ (~SquareClose(o.r1, s.ns[n + 1]) \/ ~SquareClose(o.r2, s.ms[n + 1])) THEN {"norms"} ELSE {})
      disagree == mask = <<>> /\ \E r \in Procs : ret[r].iiter # ret[1].iiter \/ ret[r].istop # ret[1].istop
      all == UNION {bad(r) : r \in Procs} \cup (IF disagree THEN {"disagree"} ELSE {})
  IN  SelectSeq(<<"disagree", "layout", "count", "iterates", "history", "reason", "norms">>, LAMBDA c : c \in all)

(* groups which stop after different numbers of iterations (or may)          *)
GroupsPart(q, A, y, x0) ==
  LET runs == SolverRuns(q, A, y, x0)
      n(r) == Len(runs[r].s.xs)
  IN  \E r \in Procs : n(r) # n(1) \/ runs[r].end = "unsure"
=============================================================================
