------------------------------ MODULE Operators -----------------------------
(* Distributed linear operators as values: leaves with their global matrix,  *)
(* and expressions over them.  Apply is what a matrix-vector product does    *)
(* with a distributed vector, layout and rejections included; Dense is the   *)
(* matrix an expression denotes.                                             *)
(*                                                                           *)
(* An operator is a record with k = "op", its type t, its global rows and    *)
(* cols, its element type dt, and what its type needs.                       *)
EXTENDS Arrays

(* outcome of a request: it must succeed, may be rejected but if it succeeds *)
(* the result is this one, or must be rejected                               *)
Must(y) == [st |-> "must", y |-> y]
May(y) == [st |-> "may", y |-> y]
Rej == [st |-> "rej", y |-> [k |-> "none"]]
(* outside the contract: a complex vector through an operator of real type   *)
(* (or data whose exact result is not an integer)                            *)
Outside == [st |-> "skip", y |-> [k |-> "none"]]
Weaken(st, r) == IF st = "may" /\ r.st = "must" THEN [r EXCEPT !.st = "may"] ELSE r

(* ---- stencils ------------------------------------------------------------*)
(* coefficient of x[j] in output i, of a derivative along n samples with     *)
(* unit sampling; first derivatives times 12; 0-based                        *)
D1Coef(kind, order, edge, n, i, j) ==
  CASE kind = "forward" -> IF i < n - 1 THEN (IF j = i + 1 THEN 12 ELSE IF j = i THEN -12 ELSE 0) ELSE 0
    [] kind = "backward" -> IF i > 0 THEN (IF j = i THEN 12 ELSE IF j = i - 1 THEN -12 ELSE 0) ELSE 0
    [] kind = "centered" /\ order = 3 ->
         IF i > 0 /\ i < n - 1 THEN (IF j = i + 1 THEN 6 ELSE IF j = i - 1 THEN -6 ELSE 0)
         ELSE IF ~edge THEN 0
         ELSE IF i = 0 THEN (IF j = 1 THEN 12 ELSE IF j = 0 THEN -12 ELSE 0)
         ELSE (IF j = n - 1 THEN 12 ELSE IF j = n - 2 THEN -12 ELSE 0)
    [] kind = "centered" /\ order = 5 ->
         IF i > 1 /\ i < n - 2
         THEN CASE j = i - 2 -> 1 [] j = i - 1 -> -8 [] j = i + 1 -> 8 [] j = i + 2 -> -1 [] OTHER -> 0
         ELSE IF ~edge THEN 0
         ELSE IF i = 0 THEN (IF j = 1 THEN 12 ELSE IF j = 0 THEN -12 ELSE 0)
         ELSE IF i = n - 1 THEN (IF j = n - 1 THEN 12 ELSE IF j = n - 2 THEN -12 ELSE 0)
         ELSE (IF j = i + 1 THEN 6 ELSE IF j = i - 1 THEN -6 ELSE 0)
D2Coef(kind, edge, n, i, j) ==
  LET at(a) == IF j = a THEN 1 ELSE IF j = a + 1 THEN -2 ELSE IF j = a + 2 THEN 1 ELSE 0
  IN  CASE kind = "forward" -> IF i <= n - 3 THEN at(i) ELSE 0
        [] kind = "backward" -> IF i >= 2 THEN at(i - 2) ELSE 0
        [] kind = "centered" -> IF i > 0 /\ i < n - 1 THEN at(i - 1)
                                ELSE IF edge THEN (IF i = 0 THEN at(0) ELSE at(n - 3)) ELSE 0

(* apply a stencil along an axis of a flat array; adj transposes it          *)
Along(K, x, g, ax, adj) ==
  LET n == g[ax + 1]
      inner == Inner(g, ax)
  IN  [i \in 1..ProdI(g) |->
        LET f == i - 1
            c == (f \div inner) % n
            base == f - c * inner
        IN  SumC([j \in 1..n |->
              LET a == IF adj THEN K[j][c + 1] ELSE K[c + 1][j]
              IN  IF a = 0 THEN Z0 ELSE CScale(a, x[base + (j - 1) * inner + 1])])]

D1Mat(kind, order, edge, n) == [i \in 1..n |-> [j \in 1..n |-> D1Coef(kind, order, edge, n, i - 1, j - 1)]]
D2Mat(kind, edge, n) == [i \in 1..n |-> [j \in 1..n |-> D2Coef(kind, edge, n, i - 1, j - 1)]]

(* sampling is the rational sm[1] / sm[2]                                    *)
D1(x, g, ax, kind, order, edge, sm, adj) ==
  LET K == D1Mat(kind, order, edge, g[ax + 1])
      y == Along(K, x, g, ax, adj)
  IN  [i \in 1..Len(y) |-> CDiv(CScale(sm[2], y[i]), 12 * sm[1])]
D2(x, g, ax, kind, edge, sm, adj) ==
  LET K == D2Mat(kind, edge, g[ax + 1])
      y == Along(K, x, g, ax, adj)
  IN  [i \in 1..Len(y) |-> CDiv(CScale(sm[2] * sm[2], y[i]), sm[1] * sm[1])]

(* The stencil kind holds for the first axis of a Laplacian only; the others *)
(* are centered.  That is what the serial operator does as well.             *)
LaplKind(op, i) == IF i = 1 THEN op.kind ELSE "centered"
LaplV(op, x, adj) ==
  LET d == [i \in 1..Len(op.axes) |-> D2(x, op.dims, op.axes[i], LaplKind(op, i), op.edge, op.samp[i], adj)]
  IN  IF \E i \in 1..Len(d) : HasBad(d[i]) THEN [i \in 1..Len(x) |-> Bad]
      ELSE FoldLeft(LAMBDA acc, i : VAdd(acc, VScale(<<op.wts[i], 0>>, d[i])), VZero(Len(x)), [i \in 1..Len(op.axes) |-> i])

(* ---- Fredholm integral ---------------------------------------------------*)
FredV(op, x, adj) ==
  LET G == FoldLeft(LAMBDA acc, gs : acc \o gs, <<>>, op.G)
      nsl == Len(G)
      nin == IF adj THEN op.nx ELSE op.ny
      nout == IF adj THEN op.ny ELSE op.nx
  IN  [i \in 1..(nsl * nout * op.nz) |->
        LET f == i - 1
            z == f % op.nz
            o == (f \div op.nz) % nout
            s == f \div (op.nz * nout)
        IN  SumC([j \in 1..nin |->
              CMul(IF adj THEN CConj(G[s + 1][j][o + 1]) ELSE G[s + 1][o + 1][j],
                   x[(s * nin + j - 1) * op.nz + z + 1])])]

(* ---- multi-dimensional convolution: circular convolution in time ---------*)
(* op.K[t][s][r] is the kernel in time (its spectrum is what the operator    *)
(* gets), op.c the scaling; a two-sided model starts at negative times       *)
MdcV(op, x, adj) ==
  LET nt == op.nt
      shift(t) == IF op.two THEN (t - (nt \div 2) + nt) % nt ELSE t     \* time of model sample t
      nin == IF adj THEN op.ns ELSE op.nr
      nout == IF adj THEN op.nr ELSE op.ns
      val(t, o, v) ==    \* output sample t (0-based)
        SumC([q \in 1..(nt * nin) |->
          LET j == (q - 1) % nin
              u == (q - 1) \div nin
              k == IF adj THEN (u - shift(t) + nt) % nt ELSE (t - shift(u) + nt) % nt
              kk == IF op.conj THEN (nt - k) % nt ELSE k
              c == IF adj THEN op.K[kk + 1][j + 1][o + 1] ELSE op.K[kk + 1][o + 1][j + 1]
          IN  CMul(c, x[(u * nin + j) * op.nv + v + 1])])
  IN  [i \in 1..(nt * nout * op.nv) |->
        LET f == i - 1
        IN  CDiv(CScale(op.c, val(f \div (nout * op.nv), (f \div op.nv) % nout, f % op.nv)), op.d)]

(* ---- layouts of the leaves -----------------------------------------------*)
BlockRows(op) == [r \in Procs |-> SumI([i \in 1..Len(op.blocks[r]) |-> op.blocks[r][i].nr])]
BlockCols(op) == [r \in Procs |-> SumI([i \in 1..Len(op.blocks[r]) |-> op.blocks[r][i].nc])]
RowSizes(op) == LET b == Balanced(op.dims[1], P) IN [r \in Procs |-> b[r] * ProdI(Tail(op.dims))]

(* the blocks of all processes in rank order                                 *)
AllBlocks(op) == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, op.blocks)

BDiagV(op, x, adj) ==
  LET B == AllBlocks(op)
      n(b) == IF adj THEN b.nr ELSE b.nc
      off == Offs([i \in 1..Len(B) |-> n(B[i])])
      part(i) == LET xs == SubSeq(x, off[i] + 1, off[i + 1])
                 IN  IF adj THEN MatHVec(B[i].m, B[i].nc, xs) ELSE MatVec(B[i].m, xs)
  IN  FoldLeft(LAMBDA acc, i : acc \o part(i), <<>>, [i \in 1..Len(B) |-> i])
(* one column of blocks: every block sees the whole model                    *)
VStackV(op, x, adj) ==
  LET B == AllBlocks(op)
      off == Offs([i \in 1..Len(B) |-> B[i].nr])
  IN  IF adj
      THEN FoldLeft(LAMBDA acc, i : VAdd(acc, MatHVec(B[i].m, B[i].nc, SubSeq(x, off[i] + 1, off[i + 1]))),
                    VZero(op.cols), [i \in 1..Len(B) |-> i])
      ELSE FoldLeft(LAMBDA acc, i : acc \o MatVec(B[i].m, x), <<>>, [i \in 1..Len(B) |-> i])
HStackV(op, x, adj) ==
  LET B == AllBlocks(op)
      off == Offs([i \in 1..Len(B) |-> B[i].nc])
  IN  IF adj
      THEN FoldLeft(LAMBDA acc, i : acc \o MatHVec(B[i].m, B[i].nc, x), <<>>, [i \in 1..Len(B) |-> i])
      ELSE FoldLeft(LAMBDA acc, i : VAdd(acc, MatVec(B[i].m, SubSeq(x, off[i] + 1, off[i + 1]))),
                    VZero(op.rows), [i \in 1..Len(B) |-> i])

(* the global vector a leaf makes of a global vector                         *)
LeafV(op, x, adj) ==
  CASE op.t = "bdiag" -> BDiagV(op, x, adj)
    [] op.t = "vstack" -> VStackV(op, x, adj)
    [] op.t = "hstack" -> HStackV(op, x, adj)
    [] op.t = "deriv1" -> D1(x, op.dims, 0, op.kind, op.order, op.edge, op.samp, adj)
    [] op.t = "deriv2" -> D2(x, op.dims, 0, op.kind, op.edge, op.samp, adj)
    [] op.t = "lapl" -> LaplV(op, x, adj)
    [] op.t = "fred" -> FredV(op, x, adj)
    [] op.t = "mdc" -> MdcV(op, x, adj)
    [] op.t = "axis1" -> D1(x, op.dims, op.ax, op.kind, 3, op.edge, op.samp, adj)
    [] op.t = "wrap" -> IF adj THEN MatVec(op.Mh, x) ELSE MatVec(op.M, x)

(* The pieces a derivative needs: below these it may be rejected.            *)
StencilRows(op) ==
  CASE op.t = "deriv1" -> IF op.kind = "centered" /\ op.order = 5 THEN 4 ELSE 2
    [] op.t = "deriv2" -> IF op.edge THEN 3 ELSE 2
    [] op.t = "lapl" -> IF op.edge THEN 3 ELSE 2
(* (along the other axes the serial stencils need three samples)             *)
LargeEnough(op) == /\ \A r \in Procs : Balanced(op.dims[1], P)[r] >= StencilRows(op)
                   /\ op.t = "lapl" => \A i \in 1..Len(op.axes) : op.dims[op.axes[i] + 1] >= 3

(* what a leaf takes ("S": scattered, and the layout it works in) and gives  *)
Takes(op, adj) ==
  CASE op.t = "bdiag" -> [part |-> {"S"}, sz |-> IF adj THEN BlockRows(op) ELSE BlockCols(op)]
    [] op.t = "vstack" -> IF adj THEN [part |-> {"S"}, sz |-> BlockRows(op)] ELSE [part |-> {"B", "U"}, sz |-> <<>>]
    [] op.t = "hstack" -> IF adj THEN [part |-> {"B", "U"}, sz |-> <<>>] ELSE [part |-> {"S"}, sz |-> BlockCols(op)]
    [] op.t \in {"deriv1", "deriv2"} -> [part |-> {"S", "B"}, sz |-> RowSizes(op)]
    [] op.t = "lapl" -> [part |-> {"S"}, sz |-> RowSizes(op)]
    [] op.t \in {"fred", "wrap", "mdc"} -> [part |-> {"B", "U"}, sz |-> <<>>]
Gives(op, adj, part) ==
  LET n == IF adj THEN op.cols ELSE op.rows
      S(sz, mask) == [part |-> "S", sz |-> sz, mask |-> mask]
      R(p) == [part |-> p, sz |-> [r \in Procs |-> n], mask |-> <<>>]
  IN  CASE op.t = "bdiag" -> S(IF adj THEN BlockCols(op) ELSE BlockRows(op), op.mask)
        [] op.t = "vstack" -> IF adj THEN R("B") ELSE S(BlockRows(op), <<>>)
        [] op.t = "hstack" -> IF adj THEN S(BlockCols(op), <<>>) ELSE R("B")
        [] op.t \in {"deriv1", "deriv2", "lapl"} -> S(RowSizes(op), <<>>)
        [] op.t = "fred" -> R("B")
        [] op.t \in {"wrap", "mdc"} -> R(IF op.t = "wrap" THEN part ELSE "B")

(* requests which the code rejects although their meaning is clear           *)
MayReject(op, x, adj) ==
  \/ op.t \in {"deriv1", "deriv2", "lapl"} /\ ~LargeEnough(op)
  \/ x.part = "S" /\ Takes(op, adj).sz # <<>> /\ ~NeighboursSuffice(x.sz, Takes(op, adj).sz)
  \/ x.part # "S" /\ Takes(op, adj).sz # <<>> /\ ~NeighboursSuffice(Balanced(x.g[1], P), Takes(op, adj).sz)
  \/ op.t \in {"deriv1", "deriv2", "lapl"} /\ x.part \notin Takes(op, adj).part

ApplyLeaf(op, x, adj) ==
  LET n == IF adj THEN op.rows ELSE op.cols
  IN  IF x.k # "arr" \/ x.g # <<n>> THEN Rej
      ELSE IF IsC(x.dt) /\ ~IsC(op.dt) THEN Outside
      \* (Fourier transforms of single-precision vectors are not exact)
      ELSE IF op.t = "mdc" /\ x.dt \in {"f4", "c8"} THEN Outside
      \* (a serial operator on every piece of a scattered vector is whatever that operator makes of a piece)
      ELSE IF op.t = "wrap" /\ x.part = "S" THEN Outside
      ELSE IF x.part \notin Takes(op, adj).part /\ ~MayReject(op, x, adj) THEN Rej
      ELSE LET y == LeafV(op, Global(x), adj)
               L == Gives(op, adj, x.part)
               res == Make(y, <<Len(y)>>, L.part, 0, L.sz, L.mask, op.dt)
           IN  IF HasBad(y) THEN Outside
               ELSE IF MayReject(op, x, adj) THEN May(res) ELSE Must(res)

(* an unguarded replica that differs between processes has no global meaning *)
Agreed(x) == x.k = "stk" \/ x.part # "U" \/ \A r \in Procs : x.v[r] = x.v[1]

(* ---- expressions ---------------------------------------------------------*)
ConjV(x) == IF x.k = "stk" THEN StkMap(ConjA, x) ELSE ConjA(x)
ScaleV(x, s, sk) == IF x.k = "stk" THEN StkMap(LAMBDA a : SMulA(a, s, sk), x) ELSE SMulA(x, s, sk)
AddV(x, y) ==
  IF x.k = "stk" /\ y.k = "stk" THEN (IF StkCompatible(x, y) THEN Must(StkMap2(AddA, x, y)) ELSE Rej)
  ELSE IF x.k = "arr" /\ y.k = "arr" THEN (IF Compatible(x, y) THEN Must(AddA(x, y)) ELSE Rej)
  ELSE Rej

RECURSIVE Apply(_, _, _)
RECURSIVE ApplyAll(_, _, _, _)
RECURSIVE Times(_, _, _, _)

Then(r, F(_)) == IF r.st \in {"rej", "skip"} THEN r ELSE Weaken(r.st, F(r.y))

Times(A, x, adj, p) ==
  IF p = 0 THEN Must(x) ELSE Then(Times(A, x, adj, p - 1), LAMBDA y : Apply(A, y, adj))

(* component i of a stack through operator i                                 *)
ApplyAll(ops, xs, adj, i) ==
  IF i = 0 THEN Must(Stk(<<>>))
  ELSE Then(ApplyAll(ops, xs, adj, i - 1),
            LAMBDA s : Then(Apply(ops[i], xs[i], adj), LAMBDA y : Must(Stk(Append(s.a, y)))))

RECURSIVE SumAll(_, _)
SumAll(ys, i) == IF i = 1 THEN Must(ys[1]) ELSE Then(SumAll(ys, i - 1), LAMBDA s : AddV(s, ys[i]))

StkLen(x) == SumI([i \in 1..Len(x.a) |-> x.a[i].g[1]])

Apply(A, x, adj) ==
  CASE A.t = "H" -> Apply(A.A, x, ~adj)
    [] A.t = "T" -> Then(Apply(A.A, ConjV(x), ~adj), LAMBDA y : Must(ConjV(y)))
    [] A.t = "Cj" -> Then(Apply(A.A, ConjV(x), adj), LAMBDA y : Must(ConjV(y)))
    [] A.t = "scale" -> Then(Apply(A.A, x, adj), LAMBDA y : Must(ScaleV(y, IF adj THEN CConj(A.s) ELSE A.s, A.sk)))
    [] A.t = "sum" -> Then(Apply(A.A, x, adj), LAMBDA y : Then(Apply(A.B, x, adj), LAMBDA z : AddV(y, z)))
    [] A.t = "prod" -> IF adj THEN Then(Apply(A.A, x, TRUE), LAMBDA y : Apply(A.B, y, TRUE))
                       ELSE Then(Apply(A.B, x, FALSE), LAMBDA y : Apply(A.A, y, FALSE))
    [] A.t = "pow" -> IF x.k = "arr" /\ x.g # <<A.rows>> THEN Rej ELSE Times(A.A, x, adj, A.p)
    [] A.t \in {"svstack", "grad"} ->
         IF adj
         THEN IF x.k # "stk" THEN Rej
              ELSE IF Len(x.a) # Len(A.ops) \/ \E i \in 1..Len(A.ops) : x.a[i].g # <<A.ops[i].rows>> THEN Rej
              ELSE Then(ApplyAll(A.ops, x.a, TRUE, Len(A.ops)), LAMBDA s : SumAll(s.a, Len(s.a)))
         ELSE IF x.k # "arr" THEN Rej
              ELSE ApplyAll(A.ops, [i \in 1..Len(A.ops) |-> x], FALSE, Len(A.ops))
    [] A.t = "sbdiag" ->
         IF x.k # "stk" THEN Rej
         ELSE IF Len(x.a) # Len(A.ops) \/ \E i \in 1..Len(A.ops) : x.a[i].g # <<IF adj THEN A.ops[i].rows ELSE A.ops[i].cols>>
         THEN Rej
         ELSE ApplyAll(A.ops, x.a, adj, Len(A.ops))
    [] A.t = "axis1" ->    \* serial derivative along a local axis, block by block
         LET n == A.rows
         IN  IF x.k # "arr" \/ x.g # <<n>> \/ x.part # "S" THEN Rej
             ELSE IF IsC(x.dt) /\ ~IsC(A.dt) THEN Outside
             ELSE LET y == LeafV(A, Global(x), adj)
                      res == Make(y, <<n>>, "S", 0, RowSizes(A), <<>>, A.dt)
                  IN  IF HasBad(y) THEN Outside ELSE IF NeighboursSuffice(x.sz, RowSizes(A)) /\ A.dims[A.ax + 1] >= 3 THEN Must(res) ELSE May(res)
    [] OTHER -> ApplyLeaf(A, x, adj)

(* a gradient is a vertical stack of first derivatives along each axis       *)
GradOps(q) ==
  [i \in 1..Len(q.dims) |->
    [k |-> "op", t |-> IF i = 1 THEN "deriv1" ELSE "axis1", rows |-> ProdI(q.dims), cols |-> ProdI(q.dims), dt |-> q.dt,
     dims |-> q.dims, ax |-> i - 1, kind |-> q.kind, order |-> 3, edge |-> q.edge, samp |-> q.samp[i], mult |-> 48, stk |-> FALSE]]

(* ---- the matrix of an expression -----------------------------------------*)
(* (over the concatenation of the components of stacks)                      *)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN <<1, 0>> ELSE Z0]
FromCols(C, nr) == [i \in 1..nr |-> [j \in 1..Len(C) |-> C[j][i]]]
RECURSIVE Dense(_)
Dense(A) ==
  CASE A.t = "H" -> MConjT(Dense(A.A), A.rows)
    [] A.t = "T" -> MConj(MConjT(Dense(A.A), A.rows))
    [] A.t = "Cj" -> MConj(Dense(A.A))
    [] A.t = "scale" -> MScale(A.s, Dense(A.A))
    [] A.t = "sum" -> MAdd(Dense(A.A), Dense(A.B))
    [] A.t = "prod" -> MMul(Dense(A.A), Dense(A.B), A.cols)
    [] A.t = "pow" -> IF A.p = 0 THEN MEye(A.rows) ELSE MMul(Dense(A.A), Dense([A EXCEPT !.p = @ - 1]), A.cols)
    [] A.t \in {"svstack", "grad"} -> FoldLeft(LAMBDA acc, o : acc \o Dense(o), <<>>, A.ops)
    [] A.t = "sbdiag" ->
         LET off == Offs([i \in 1..Len(A.ops) |-> A.ops[i].cols])
             row(i, rw) == [j \in 1..A.cols |-> IF off[i] < j /\ j <= off[i + 1] THEN rw[j - off[i]] ELSE Z0]
         IN  FoldLeft(LAMBDA acc, i : acc \o [q \in 1..A.ops[i].rows |-> row(i, Dense(A.ops[i])[q])], <<>>,
                      [i \in 1..Len(A.ops) |-> i])
    [] OTHER -> FromCols([j \in 1..A.cols |-> LeafV(A, Unit(A.cols, j), FALSE)], A.rows)
=============================================================================
