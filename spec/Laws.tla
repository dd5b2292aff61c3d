--------------------------------- MODULE Laws ---------------------------------
(* Laws of the specification itself, on all cases within small bounds: every *)
(* state is one case, and the invariant is the law LAW.  (Meaning.tla checks *)
(* laws on the programs that are run; here scopes are complete.)             *)
EXTENDS Machine, TLC

CONSTANTS LAW, B          \* B: bound on sizes
VARIABLES c

Iota(n) == [i \in 1..n |-> <<i, -i>>]
Sizes(n) == {f \in [Procs -> 0..n] : SumI(f) = n}
Shapes == {<<n>> : n \in 0..B} \cup {<<m, n>> : m \in 1..3, n \in 1..3} \cup {<<2, 2, n>> : n \in 1..3} \cup {<<m, 2, 1>> : m \in 1..3}
ShapeAxSizes == UNION {{[g |-> g, ax |-> a, sz |-> s] : s \in Sizes(g[a + 1])} : <<g, a>> \in {<<g2, a2>> \in Shapes \X (0..2) : a2 < Len(g2)}}
Arr0(x, d) == Make(d, x.g, "S", x.ax, x.sz, <<>>, "c16")

(* ---- C01 -----------------------------------------------------------------*)
Law01 ==
  LET d == Iota(ProdI(c.g))
      x == Arr0(c, d)
  IN  /\ Global(x) = d
      /\ \A r \in Procs : Len(x.v[r]) = ProdI(LShape(x, r))
      /\ SumI(LocalN(x)) = ProdI(c.g)
      /\ LET b == Balanced(c.g[c.ax + 1], P)
         IN  SumI(b) = c.g[c.ax + 1] /\ MaxI(b) - MinI(b) <= 1 /\ \A r \in 1..(P - 1) : b[r] >= b[r + 1]
      /\ \A o \in {"C", "F"} : LET y == RavelA(x, o)
                               IN  /\ SumI(y.sz) = ProdI(c.g)
                                   /\ {Global(y)[i] : i \in 1..ProdI(c.g)} = {d[i] : i \in 1..ProdI(c.g)}
                                   /\ (o = "C" /\ c.ax = 0) => Global(y) = d

(* ---- C02: every index, every value of every process ----------------------*)
Cases02 == UNION {
  [g : {g}, part : {"B", "U"}, idx : {[t |-> "all"]} \cup {[t |-> "i", i |-> i] : i \in 0..(g[1] - 1)} \cup {[t |-> "s", a |-> a, b |-> b] : a \in 0..g[1], b \in 0..g[1]},
   val : [Procs -> {1, 2}], one : BOOLEAN] : g \in {<<1>>, <<2>>, <<3>>, <<2, 2>>}}
Law02 ==
  LET n == ProdI(c.g)
      x == Arr(c.g, c.part, 0, FullSizes(c.g, 0), <<>>, "f8", [r \in Procs |-> VZero(n)])
      pos == Positions(c.idx, c.g)
      y == SetA(x, [r \in Procs |-> c.idx], [r \in Procs |-> [i \in 1..(IF c.one THEN 1 ELSE Len(pos)) |-> <<c.val[r], 0>>]])
      sel == {pos[i] : i \in 1..Len(pos)}
      w(r) == IF c.part = "B" THEN c.val[1] ELSE c.val[r]
  IN  IF c.idx.t = "s" /\ c.idx.a > c.idx.b THEN TRUE ELSE
      /\ \A r \in Procs : \A i \in 1..n : y.v[r][i] = IF i \in sel THEN <<w(r), 0>> ELSE Z0
      /\ c.part = "B" => \A r \in Procs : y.v[r] = y.v[1]

(* ---- C03, C04, C05: all small values -------------------------------------*)
Vals == {<<0, 0>>, <<1, 0>>, <<-1, 2>>}
Vecs(n) == [1..n -> Vals]
Masks == [Procs -> 0..(P - 1)]
Cases03 == UNION {[x : Vecs(n), y : Vecs(n), sz : Sizes(n)] : n \in 0..2}
Law03 ==
  LET n == Len(c.x)
      x == Make(c.x, <<n>>, "S", 0, c.sz, <<>>, "c16")
      y == Make(c.y, <<n>>, "S", 0, c.sz, <<>>, "f8")
  IN  /\ Global(AddA(x, y)) = VAdd(c.x, c.y)
      /\ Global(SubA(x, y)) = VAdd(c.x, VNeg(c.y))
      /\ Global(MulA(x, y)) = VMul(c.x, c.y)
      /\ Global(NegA(x)) = VNeg(c.x) /\ Global(ConjA(x)) = VConj(c.x) /\ CopyA(x) = x
      /\ Global(SMulA(x, <<1, -2>>, "complex")) = VScale(<<1, -2>>, c.x)
      /\ Compatible(AddA(x, y), x) /\ Compatible(MulA(y, x), y)
      /\ AddA(y, x).dt = "c16" /\ SMulA(y, <<0, 1>>, "complex").dt = "c16"
Vals4 == {<<0, 0>>, <<-3, 4>>, <<2, 0>>}
Cases04 == UNION {[x : [1..n -> Vals4], sz : Sizes(n)] : n \in 0..3}
Ords == {"0", "1", "2", "3", "4", "inf", "-inf"}
Law04 ==
  LET n == Len(c.x)
      x == Make(c.x, <<n>>, "S", 0, c.sz, <<>>, "c16")
      y == ConjA(x)
      b == Make(c.x, <<n>>, "B", 0, <<>>, <<>>, "c16")
      e == FullSizes(<<n>>, 0)
      z == [b EXCEPT !.sz = e]
  IN  /\ \A r \in Procs : DotA(x, y)[r] = VDot(c.x, VConj(c.x)) /\ (n > 0 => DotA(z, z)[r] = VDot(c.x, c.x))
      /\ \A o \in Ords : \A a \in {-1, 0} : \A r \in Procs : NormA(x, o, a)[r] = <<Mass(o, c.x)>> /\ (n > 0 => NormA(z, o, a)[r] = <<Mass(o, c.x)>>)
      \* in another unit (of which the harness makes use)
      /\ DotA(SMulA(x, <<2, 0>>, "float"), SMulA(y, <<2, 0>>, "float")) = [r \in Procs |-> CMul(<<4, 0>>, DotA(x, y)[r])]
      /\ n > 0 => \A o \in Ords : Mass(o, VScale(<<2, 0>>, c.x)) = (CASE o = "0" -> 1 [] o \in {"1", "inf", "-inf"} -> 2 [] o = "2" -> 4 [] o = "3" -> 8 [] o = "4" -> 16) * Mass(o, c.x)
Cases05 == UNION {[x : [1..n -> {<<1, 0>>, <<-1, 2>>}], sz : Sizes(n), mask : Masks] : n \in 0..3}
Law05 ==
  LET n == Len(c.x)
      x == Make(c.x, <<n>>, "S", 0, c.sz, c.mask, "c16")
      \* the same array with everything outside the group of r put to zero
      only(r) == [x EXCEPT !.v = [q \in Procs |-> IF c.mask[q] = c.mask[r] THEN @[q] ELSE VZero(Len(@[q]))], !.mask = <<>>]
  IN  \A r \in Procs : /\ DotA(x, x)[r] = DotA(only(r), only(r))[r]
                       /\ \A o \in {"0", "2", "4"} : NormA(x, o, -1)[r] = NormA(only(r), o, -1)[r]
                       /\ \A q \in Procs : c.mask[q] = c.mask[r] => DotA(x, x)[q] = DotA(x, x)[r]

(* ---- C08, C10, C11, C12: operators from all small matrices ---------------*)
Ents == {<<0, 0>>, <<1, 0>>, <<0, 1>>}
Mats(m, n) == [1..m -> [1..n -> Ents]]
Blk(m, nr, nc) == [nr |-> nr, nc |-> nc, dt |-> "c16", m |-> m]
(* one block per process: of the first all entries, the others fixed         *)
Fix(r, nr, nc) == [i \in 1..nr |-> [j \in 1..nc |-> <<i - j + r, i * j - r>>]]
StackOf(q) == StackOp(<<>>, q, q.op).heap[1]
Stack(t, first, dims) ==
  LET q == [op |-> t, blocks |-> [r \in Procs |-> <<Blk(IF r = 1 THEN first ELSE Fix(r, dims[r][1], dims[r][2]), dims[r][1], dims[r][2])>>], mask |-> <<>>, dt |-> "c16"]
  IN  StackOf(q)
D0 == {<<0, 2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Dims(t) == {d \in [Procs -> D0] : CASE t = "bdiag" -> TRUE [] t = "vstack" -> \A r \in Procs : d[r][2] = d[1][2] [] t = "hstack" -> \A r \in Procs : d[r][1] = d[1][1] /\ d[r][1] > 0}
Cases08 == UNION {UNION {[t : {t}, d : {d}, m : Mats(d[1][1], d[1][2])] : d \in Dims(t)} : t \in {"bdiag", "vstack", "hstack"}}
(* the block matrix, entry by entry                                          *)
Assembled(A) ==
  LET Bs == AllBlocks(A)
      ro == IF A.t = "hstack" THEN [i \in 1..(Len(Bs) + 1) |-> 0] ELSE Offs([i \in 1..Len(Bs) |-> Bs[i].nr])
      co == IF A.t = "vstack" THEN [i \in 1..(Len(Bs) + 1) |-> 0] ELSE Offs([i \in 1..Len(Bs) |-> Bs[i].nc])
  IN  [i \in 1..A.rows |-> [j \in 1..A.cols |->
        LET H == {b \in 1..Len(Bs) : ro[b] < i /\ i <= ro[b] + Bs[b].nr /\ co[b] < j /\ j <= co[b] + Bs[b].nc}
        IN  IF H = {} THEN Z0 ELSE LET b == CHOOSE b2 \in H : TRUE IN Bs[b].m[i - ro[b]][j - co[b]]]]
Vec(A, n, adj) == LET t == Takes(A, adj) IN Make([i \in 1..n |-> <<i, 1 - i>>], <<n>>, IF "S" \in t.part THEN "S" ELSE "B", 0, IF "S" \in t.part THEN t.sz ELSE [r \in Procs |-> n], <<>>, "c16")
Law08 ==
  LET A == Stack(c.t, c.m, c.d)
      M == Assembled(A)
      x == Vec(A, A.cols, FALSE)
      w == Vec(A, A.rows, TRUE)
      y == Apply(A, x, FALSE)
      z == Apply(A, w, TRUE)
  IN  /\ y.st = "must" /\ Global(y.y) = MatVec(M, Global(x))
      /\ z.st = "must" /\ Global(z.y) = MatHVec(M, A.cols, Global(w))
      /\ M = Dense(A)
      \* (C12)
      /\ VHDot(Global(y.y), Global(w)) = VHDot(Global(x), Global(z.y))

(* ---- C07: the result does not depend on the layout -----------------------*)
Cases07 == UNION {[t : {"bdiag", "hstack"}, d : {d}, s : Sizes(SumI([r \in Procs |-> d[r][2]]))] : d \in Dims("bdiag")}
Law07 ==
  IF c.t = "hstack" /\ \E r \in Procs : c.d[r][1] # c.d[1][1] \/ c.d[1][1] = 0 THEN TRUE ELSE
  LET A == Stack(c.t, Fix(1, c.d[1][1], c.d[1][2]), c.d)
      x == Vec(A, A.cols, FALSE)
      u == Make(Global(x), <<A.cols>>, "S", 0, c.s, <<>>, "c16")
      y == Apply(A, x, FALSE)
      z == Apply(A, u, FALSE)
  IN  /\ z.y = y.y
      /\ z.st = IF NeighboursSuffice(c.s, x.sz) THEN "must" ELSE "may"

(* ---- C09: what derivatives of polynomials are ----------------------------*)
Kinds == {"forward", "backward", "centered"}
Cases09 == {x \in [n : 1..(B + 4), rest : 1..2, kind : Kinds, order : {3, 5}, edge : BOOLEAN, sm : {<<1, 1>>, <<2, 1>>, <<1, 2>>}, d : 1..2] :
              (x.kind # "centered" => x.order = 3 /\ ~x.edge) /\ (x.d = 2 => x.order = 3) /\ x.n >= (IF x.d = 1 /\ x.order = 5 THEN 4 ELSE IF x.edge /\ x.d = 2 THEN 3 ELSE 2)}
Law09 ==
  LET g == <<c.n, c.rest>>
      n == c.n * c.rest
      at(i) == (i - 1) \div c.rest
      poly(p) == [i \in 1..n |-> <<144 * Pow(at(i), p), 0>>]
      D(v, adj) == IF c.d = 1 THEN D1(v, g, 0, c.kind, c.order, c.edge, c.sm, adj) ELSE D2(v, g, 0, c.kind, c.edge, c.sm, adj)
      half == IF c.d = 1 /\ c.order = 5 /\ c.kind = "centered" THEN 2 ELSE IF c.kind = "centered" THEN 1 ELSE c.d
      inside(i) == /\ c.kind # "forward" => at(i) >= half
                   /\ c.kind # "backward" => at(i) < c.n - half
      u == [i \in 1..n |-> <<72 * (((7 * i) % 5) - 2), 72 * ((3 * i) % 4)>>]
      w == [i \in 1..n |-> <<72 * (((5 * i) % 7) - 3), 72 * ((11 * i) % 3)>>]
  IN  /\ \* constants have no derivative, and slopes are slopes (per unit of the sampling)
         \A i \in 1..n : D(poly(0), FALSE)[i] = Z0
      /\ \A i \in 1..n : inside(i) => D(poly(1), FALSE)[i] = (IF c.d = 1 THEN <<(144 * c.sm[2]) \div c.sm[1], 0>> ELSE Z0)
      /\ c.d = 2 => \A i \in 1..n : inside(i) => D(poly(2), FALSE)[i] = <<(288 * c.sm[2] * c.sm[2]) \div (c.sm[1] * c.sm[1]), 0>>
      /\ \* the stencil of order five is exact to the fourth power
         c.d = 1 /\ half = 2 => \A i \in 1..n : inside(i) => D(poly(4), FALSE)[i] = <<(144 * 4 * Pow(at(i), 3) * c.sm[2]) \div c.sm[1], 0>>
      /\ \* outside there is nothing, unless edges are wanted
         ~c.edge /\ ~(c.d = 1 /\ c.order = 5) => \A i \in 1..n : ~inside(i) => D(u, FALSE)[i] = Z0
      /\ VHDot(D(u, FALSE), VDiv(w, 72)) = VHDot(VDiv(u, 72), D(w, TRUE))

(* ---- C10: however the slices are split -----------------------------------*)
Cases10 == [m : Mats(1, 2), s : {f \in Sizes(2 * P + 1) : \A r \in Procs : f[r] >= 2}, nz : 1..2, adj : BOOLEAN]
Law10 ==
  LET ns == 2 * P + 1
      K == [i \in 1..ns |-> IF i = 2 THEN c.m ELSE Fix(i, 1, 2)]
      off == Offs(c.s)
      q == [op |-> "fred", G |-> [r \in Procs |-> SubSeq(K, off[r] + 1, off[r + 1])], nx |-> 1, ny |-> 2, nz |-> c.nz, dt |-> "c16"]
      A == ExecFred(<<>>, q).heap[1]
      nin == IF c.adj THEN 1 ELSE 2
      nout == IF c.adj THEN 2 ELSE 1
      d == [i \in 1..(ns * nin * c.nz) |-> <<i, 2 - i>>]
      y == Apply(A, Make(d, <<Len(d)>>, "B", 0, [r \in Procs |-> Len(d)], <<>>, "c16"), c.adj)
      \* column z of slice i
      col(v, i, n, z) == [j \in 1..n |-> v[((i - 1) * n + j - 1) * c.nz + z]]
  IN  /\ y.st = "must"
      /\ \A r \in Procs : y.y.v[r] = y.y.v[1]
      /\ \A i \in 1..ns : \A z \in 1..c.nz :
           col(Global(y.y), i, nout, z) = IF c.adj THEN MatHVec(K[i], 2, col(d, i, nin, z)) ELSE MatVec(K[i], col(d, i, nin, z))

(* ---- C11, C12, C13: expressions over three square operators --------------*)
Leaves == LET d == [r \in Procs |-> IF r = 1 THEN <<2, 2>> ELSE <<1, 1>>]
          IN  <<Stack("bdiag", <<<<<<1, 1>>, <<2, 0>>>>, <<<<0, -1>>, <<1, 0>>>>>>, d), Stack("bdiag", <<<<<<0, 1>>, <<1, 0>>>>, <<<<-2, 0>>, <<1, -1>>>>>>, d)>>
Exps1(S) == {<<t, a>> : t \in {"H", "T", "Cj", "neg", "i", "p0", "p2"}, a \in S} \cup {<<t, a, b>> : t \in {"sum", "sub", "prod"}, a \in S, b \in S}
Lv == {<<"L", 1>>, <<"L", 2>>}
RECURSIVE Build(_)
Build(e) == IF e[1] = "L" THEN Leaves[e[2]]
  ELSE LET a == Build(e[2])
           h == IF Len(e) = 3 THEN <<a, Build(e[3])>> ELSE <<a>>
           q == CASE e[1] = "neg" -> [op |-> "negop", a |-> 1]
                  [] e[1] = "i" -> [op |-> "scale", a |-> 1, s |-> <<1, 1>>, sk |-> "complex"]
                  [] e[1] = "p0" -> [op |-> "pow", a |-> 1, p |-> 0]
                  [] e[1] = "p2" -> [op |-> "pow", a |-> 1, p |-> 2]
                  [] e[1] \in {"H", "T", "Cj"} -> [op |-> e[1], a |-> 1]
                  [] e[1] = "sub" -> [op |-> "subop", a |-> 1, b |-> 2]
                  [] OTHER -> [op |-> e[1], a |-> 1, b |-> 2]
           o == IF Len(e) = 3 THEN ExecOp2(h, q) ELSE ExecOp1(h, q)
       \* (none where the specification leaves a request aside)
       IN  IF a.k = "none" \/ h[Len(h)].k = "none" \/ Len(o.heap) = Len(h) THEN [k |-> "none"] ELSE o.heap[Len(o.heap)]
RECURSIVE MatrixOf(_)
MatrixOf(e) ==
  LET n == P + 1
      M == MatrixOf(e[2])
  IN  CASE e[1] = "L" -> Assembled(Leaves[e[2]])
        [] e[1] = "H" -> MConjT(M, n)
        [] e[1] = "T" -> [i \in 1..n |-> [j \in 1..n |-> M[j][i]]]
        [] e[1] = "Cj" -> MConj(M)
        [] e[1] = "neg" -> MScale(<<-1, 0>>, M)
        [] e[1] = "i" -> MScale(<<1, 1>>, M)
        [] e[1] = "p0" -> MEye(n)
        [] e[1] = "p2" -> MMul(M, M, n)
        [] e[1] = "sum" -> MAdd(M, MatrixOf(e[3]))
        [] e[1] = "sub" -> MAdd(M, MScale(<<-1, 0>>, MatrixOf(e[3])))
        [] e[1] = "prod" -> MMul(M, MatrixOf(e[3]), n)
Cases11 == IF B >= 4 THEN Exps1(Lv \cup Exps1(Lv)) ELSE LET one == Exps1({<<"L", 1>>}) IN {<<t, a>> : t \in {"H", "T", "Cj", "neg", "i", "p0", "p2"}, a \in Exps1(Lv)} \cup {<<t, a, <<"L", 2>>>> : t \in {"sum", "sub", "prod"}, a \in one}
Law11 ==
  LET A == Build(c)
      M == MatrixOf(c)
      x == Vec(Leaves[1], P + 1, FALSE)
      y == Apply(A, x, FALSE)
      z == Apply(A, x, TRUE)
  IN  IF A.k = "none" THEN TRUE ELSE
      /\ Dense(A) = M
      /\ y.st = "must" /\ Global(y.y) = MatVec(M, Global(x))
      /\ z.st = "must" /\ Global(z.y) = MatHVec(M, P + 1, Global(x))
      /\ VHDot(Global(y.y), Global(x)) = VHDot(Global(x), Global(z.y))
Law13 ==
  LET A == Build(c)
      h == <<A, Leaves[2]>>
      VS == ExecStackOps(h, [op |-> "svstack", as |-> <<1, 2>>]).heap[3]
      BD == ExecStackOps(h, [op |-> "sbdiag", as |-> <<1, 2>>]).heap[3]
      M == MatrixOf(c)
      M2 == Assembled(Leaves[2])
      x == Vec(Leaves[1], P + 1, FALSE)
      s == Stk(<<x, NegA(x)>>)
      g == Global(x)
  IN  IF A.k = "none" THEN TRUE ELSE
      /\ StkGlobal(Apply(VS, x, FALSE).y) = MatVec(M, g) \o MatVec(M2, g)
      /\ Global(Apply(VS, s, TRUE).y) = VAdd(MatHVec(M, P + 1, g), VNeg(MatHVec(M2, P + 1, g)))
      /\ StkGlobal(Apply(BD, s, FALSE).y) = MatVec(M, g) \o VNeg(MatVec(M2, g))
      /\ StkGlobal(Apply(BD, s, TRUE).y) = MatHVec(M, P + 1, g) \o VNeg(MatHVec(M2, P + 1, g))
      /\ \A r \in Procs : StkDot(s, s)[r] = VDot(StkGlobal(s), StkGlobal(s))
      /\ \A o \in {"0", "2", "4"} : \A r \in Procs : StkNorm(s, o)[r] = <<Mass(o, StkGlobal(s))>>

(* ---- C14, C15: all systems of order 2 with small entries -----------------*)
E3 == {<<0, 0>>, <<1, 0>>, <<-1, 1>>}
Cases14 == {x \in [a : 1..3, b : E3 \cup {<<1, 1>>}, d : 1..3, y : [1..2 -> E3], x0 : [1..2 -> {<<0, 0>>, <<1, -1>>}]] : x.a * x.d > CAbs2(x.b)}
QV(v) == [i \in 1..Len(v) |-> QFrom(v[i], 1)]
QM(M) == [i \in 1..Len(M) |-> QV(M[i])]
Q0V(v) == \A i \in 1..Len(v) : v[i] = Q0
RECURSIVE Walk(_, _, _)
Walk(Stp(_), s, n) == IF n = 0 \/ s.k = R0 \/ ~s.ok THEN s ELSE Walk(Stp, Stp(s), n - 1)
QSubV(a, b) == QAxpy(<<"-1/1", R0>>, b, a)
QTwice(v) == QAxpy(<<"1/1", R0>>, v, v)
Law14 ==
  LET M == QM(<<<<<<c.a, 0>>, c.b>>, <<CConj(c.b), <<c.d, 0>>>>>>)
      y == QV(c.y)
      s == Walk(LAMBDA t : CGStep(M, t), CGStart(M, y, QV(c.x0)), 2)
      s1 == Walk(LAMBDA t : CGStep(M, t), CGStart(M, y, QV(c.x0)), 1)
  IN  /\ s.ok
      /\ s.k = R0 /\ Q0V(QSubV(y, QMatVec(M, s.x)))                   \* solved after as many steps as unknowns
      /\ s1.r = QSubV(y, QMatVec(M, s1.x))                            \* residuals are residuals
      /\ LET d == Walk(LAMBDA t : CGStep(M, t), CGStart(M, QTwice(y), QTwice(QV(c.x0))), 1)     \* in another unit
         IN  d.x = QTwice(s1.x) /\ d.k = RMul("4/1", s1.k)
      /\ s1.k # R0 => QDot(QVConj(s1.c), QMatVec(M, CGStart(M, y, QV(c.x0)).c)) = Q0      \* directions are conjugate
Cases15 == [m : {<<<<<<1, 0>>, x>>, <<z, <<1, 1>>>>, <<<<0, 0>>, z>>>> : x \in E3, z \in E3}, y : {<<<<1, 0>>, a, b>> : a \in E3, b \in E3}, x0 : [1..2 -> {<<0, 0>>, <<2, 1>>}], d2 : {"0/1", "1/1", "1/4"}]
Law15 ==
  LET M == QM(c.m)
      MH == QConjT(M, 2)
      y == QV(c.y)
      s == Walk(LAMBDA t : LSStep(M, MH, c.d2, t), LSStart(M, MH, y, QV(c.x0), c.d2), 2)
      grad == QAxpy(QReal(RSub(R0, c.d2)), s.x, QMatVec(MH, QSubV(y, QMatVec(M, s.x))))
  IN  /\ s.r = QSubV(y, QMatVec(M, s.x))
      /\ s.ok => Q0V(grad) /\ s.k = R0                                 \* the damped normal equations are solved
      /\ LET t == Walk(LAMBDA u : LSStep(M, MH, c.d2, u), LSStart(M, MH, QTwice(y), QTwice(QV(c.x0)), c.d2), 2)     \* in another unit
         IN  t.x = QTwice(s.x) /\ t.r = QTwice(s.r)
      /\ \A i \in 1..(Len(s.ms) - 1) : RLt(s.ms[i + 1], s.ms[i])

(* ---- C20: the convolution theorem, where roots of unity are integers ------*)
(* nt = 4: the spectrum of a series is sum over t of (-i)^(f t) x[t]          *)
IPow(n) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[(n % 4) + 1]
DFT(v) == [f \in 1..4 |-> SumC([t \in 1..4 |-> CMul(IPow(4 * 4 - (f - 1) * (t - 1)), v[t])])]
Cases20 == [k : [1..4 -> {<<0, 0>>, <<1, 0>>, <<-2, 0>>}], x : [1..4 -> {<<0, 0>>, <<1, 0>>, <<3, 0>>}], conj : BOOLEAN]
Law20 ==
  LET A == [k |-> "op", t |-> "mdc", rows |-> 4, cols |-> 4, dt |-> "f8", nt |-> 4, ns |-> 1, nr |-> 1, nv |-> 1,
            K |-> [t \in 1..4 |-> <<<<c.k[t]>>>>], two |-> FALSE, conj |-> c.conj, c |-> 1, d |-> 1]
      S == IF c.conj THEN VConj(DFT(c.k)) ELSE DFT(c.k)
  IN  /\ DFT(MdcV(A, c.x, FALSE)) = VMul(S, DFT(c.x))
      /\ DFT(MdcV(A, c.x, TRUE)) = VMul(VConj(S), DFT(c.x))

Cases ==
  CASE LAW = "C01" -> ShapeAxSizes [] LAW = "C02" -> Cases02 [] LAW = "C03" -> Cases03 [] LAW = "C04" -> Cases04 [] LAW = "C05" -> Cases05
    [] LAW = "C07" -> Cases07 [] LAW \in {"C08", "C12"} -> Cases08 [] LAW = "C09" -> Cases09 [] LAW = "C10" -> Cases10 [] LAW \in {"C11", "C13"} -> Cases11
    [] LAW = "C14" -> Cases14 [] LAW = "C15" -> Cases15 [] LAW = "C20" -> Cases20
Law ==
  CASE LAW = "C01" -> Law01 [] LAW = "C02" -> Law02 [] LAW = "C03" -> Law03 [] LAW = "C04" -> Law04 [] LAW = "C05" -> Law05
    [] LAW = "C07" -> Law07 [] LAW \in {"C08", "C12"} -> Law08 [] LAW = "C09" -> Law09 [] LAW = "C10" -> Law10 [] LAW = "C11" -> Law11 [] LAW = "C13" -> Law13
    [] LAW = "C14" -> Law14 [] LAW = "C15" -> Law15 [] LAW = "C20" -> Law20
Init == c \in Cases
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
=============================================================================
