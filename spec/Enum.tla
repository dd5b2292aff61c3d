-------------------------------- MODULE Enum --------------------------------
(* Small scopes gone through systematically.  For every family (PROFILE) the *)
(* programs are numbered 0..Total-1 and each goes through a block of the     *)
(* cases of that family; N of them are taken, spread over all, and all of    *)
(* them when N >= Total.  Like those of Gen, the programs are executed on    *)
(* the machine while they are written, so that they refer to what exists and *)
(* request nothing outside the contract.                                     *)
EXTENDS Gen

Digit(i, b, j) == ((i \div (b ^ j)) % b)
At(seq, i) == seq[(i % Len(seq)) + 1]
Upto(n) == [i \in 1..n |-> i]

(* ---- writing programs ----------------------------------------------------*)
Start == [p |-> <<>>, h |-> <<>>]
Add(acc, q) == LET o == Exec(acc.h, q) IN IF o.st = "skip" THEN acc ELSE [p |-> Append(acc.p, q), h |-> o.heap]
AddAll(acc, qs) == FoldLeft(Add, acc, qs)
Top_(acc) == Len(acc.h)
IsOp(acc, i) == i >= 1 /\ i <= Len(acc.h) /\ acc.h[i].k = "op"

DistQ(g, part, ax, sz, mask, dt, s, norm, mult) ==
  [op |-> "dist", g |-> g, part |-> part, ax |-> ax, sz |-> sz, mask |-> mask, dt |-> dt, bad |-> "", d |-> Data(s, 100, ProdI(g), dt, norm, mult)]
NewQ(q, s, norm) ==
  LET sz == IF q.sz = <<>> THEN DefSizes(q.g, q.part, q.ax) ELSE q.sz
      n(r) == IF q.part = "S" THEN ProdI(SetAx(q.g, q.ax, sz[r])) ELSE ProdI(q.g)
  IN  [op |-> "new", g |-> q.g, part |-> q.part, ax |-> q.ax, sz |-> q.sz, mask |-> q.mask, dt |-> q.dt, bad |-> "",
       v |-> [r \in Procs |-> Data(s, 100 + 50 * r, n(r), q.dt, norm, 1)]]

Procs1 == Upto(P)
LikeQ(x, s) == [op |-> "dist", g |-> x.g, part |-> x.part, ax |-> x.ax, sz |-> x.sz, mask |-> x.mask, dt |-> x.dt, bad |-> "",
                d |-> Data(s, 100, ProdI(x.g), x.dt, FALSE, 1)]
(* pieces of c elements: by default, balanced, shifted, any, all at one      *)
Sizes(v, s, n) ==
  CASE v = 0 -> <<>>
    [] v = 1 -> AnySizes(s, 20, n)
    [] v = 2 -> Shifted(s, 21, Balanced(n, P))
    [] v = 3 -> [r \in Procs |-> IF r = 1 + R(s, 22, P) THEN n ELSE 0]
    [] v = 4 -> [r \in Procs |-> Balanced(n, P)[P + 1 - r]]
    [] OTHER -> AnySizes(s, 60, n)

(* the layouts an operand may have                                           *)
Layouts == 10
LayQ(l, s, dt, norm) ==
  LET n == 1 + R(s, 70, 2 * P + 1)
      mask == [r \in Procs |-> R(s, 80 + r, 2)]
  IN  CASE l = 0 -> DistQ(<<n>>, "S", 0, <<>>, <<>>, dt, s, norm, 1)
        [] l = 1 -> DistQ(<<n>>, "S", 0, AnySizes(s, 20, n), <<>>, dt, s, norm, 1)
        [] l = 2 -> DistQ(<<3, 2>>, "S", 1, <<>>, <<>>, dt, s, norm, 1)
        [] l = 3 -> DistQ(<<n, 2>>, "S", 0, Sizes(2, s, n), <<>>, dt, s, norm, 1)
        [] l = 4 -> DistQ(<<4>>, "B", 0, <<>>, <<>>, dt, s, norm, 1)
        [] l = 5 -> DistQ(<<2, 2>>, "U", 0, <<>>, <<>>, dt, s, norm, 1)
        [] l = 6 -> DistQ(<<n>>, "S", 0, Sizes(R(s, 71, 3), s, n), mask, dt, s, norm, 1)
        [] l = 7 -> DistQ(<<2, 3, 2>>, "S", 1, Sizes(1, s, 3), <<>>, dt, s, norm, 1)
        [] l = 8 -> DistQ(<<2, 2, n>>, "S", 2, Sizes(1, s, n), <<>>, dt, s, norm, 1)
        [] l = 9 -> DistQ(<<3>>, "B", 0, <<>>, mask, dt, s, norm, 1)
FiveDts == <<"f8", "c16", "f4", "c8", "i8">>

(* apply operator a to a new vector in layout v                              *)
OneVec(A, c, v, s) ==
  LET part == IF c.part = {"S"} THEN "S" ELSE IF "S" \in c.part /\ v # 6 THEN "S" ELSE IF (v % 2) = 1 /\ "U" \in c.part THEN "U" ELSE "B"
      sz == IF part # "S" THEN <<>> ELSE IF v = 0 THEN c.sz ELSE IF v = 5 THEN <<>> ELSE Sizes(v, s, c.n)
      dt == IF IsC(A.dt) THEN At(<<"c16", "c16", "c16", "f8", "c8">>, R(s, 39, 5)) ELSE At(<<"f8", "f8", "f8", "f4", "i8">>, R(s, 39, 5))
  IN  DistQ(<<c.n>>, part, 0, sz, <<>>, dt, s, FALSE, IMin(A.mult, 2304))
AppOn(acc, a, adj, x) == Add(acc, [op |-> IF adj THEN "rmv" ELSE "mv", a |-> a, x |-> x, at |-> ((a + x) % 2) = 0])
AppNew(acc, a, adj, v, s) ==
  IF ~IsOp(acc, a) THEN acc
  ELSE LET A == acc.h[a]
           sig == InSig(A, adj)
           w == FoldLeft(LAMBDA c, i : Add(c, OneVec(A, sig.c[i], v, s + 131 * i)), acc, Upto(Len(sig.c)))
           first == Top_(acc)
       IN  IF Top_(w) # first + Len(sig.c) THEN w
           ELSE IF ~sig.stk THEN AppOn(w, a, adj, Top_(w))
           ELSE LET st == Add(w, [op |-> "stk", xs |-> [i \in 1..Len(sig.c) |-> first + i]])
                IN  AppOn(st, a, adj, Top_(st))
(* both ways, reusing the newest vector that fits if there is one            *)
Reuse(acc, a, adj, v, s) ==
  IF ~IsOp(acc, a) THEN acc
  ELSE LET sig == InSig(acc.h[a], adj)
           fit == Where(acc.h, LAMBDA x : FitsPart(x, sig) /\ MaxAbs(x) <= 3 * IMin(acc.h[a].mult, 2304)
                                          /\ (x.k = "arr" => MaxAbs(x) % (acc.h[a].mult) = 0))
       IN  IF fit = <<>> THEN AppNew(acc, a, adj, v, s) ELSE AppOn(acc, a, adj, fit[Len(fit)])
Both(acc, a, v, s) == Reuse(Reuse(acc, a, FALSE, v, s), a, TRUE, v, s + 7)

(* a new operator and all ways of applying it                                *)
OpAll(acc, q, vs, s) ==
  LET o == Add(acc, q)
      a == Top_(o)
  IN  IF a = Top_(acc) \/ ~IsOp(o, a) THEN o
      ELSE FoldLeft(LAMBDA c, j : AppNew(AppNew(c, a, FALSE, vs[j], s + 17 * j), a, TRUE, vs[j], s + 17 * j + 8), o, Upto(Len(vs)))

(* ---- C01, C02: arrays and their pieces -----------------------------------*)
Shapes1 == <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<7>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<5, 2>>, <<2, 5>>, <<3, 3>>, <<1, 1>>,
             <<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>, <<2, 2, 3>>, <<1, 3, 2>>, <<4, 1, 2>>>>
Round(acc, q) ==
  LET a == Add(acc, q)
      x == Top_(a)
      b == AddAll(a, <<[op |-> "asarray", x |-> x], [op |-> "shapes", x |-> x], [op |-> "ravel", x |-> x, order |-> "C"], [op |-> "ravel", x |-> x, order |-> "F"]>>)
  IN  AddAll(b, <<[op |-> "asarray", x |-> Top_(b)], [op |-> "shapes", x |-> Top_(b)]>>)
E01(i, s) ==
  LET g == At(Shapes1, i)
      pairs == [j \in 1..(3 * Len(g)) |-> <<(j - 1) \div 3, ((j - 1) % 3)>>]
      one(acc, p) == LET q == DistQ(g, "S", p[1], Sizes(At(<<p[2], p[2] + 2, p[2]>>, i), s + 31 * Len(acc.p), g[p[1] + 1]), <<>>, Pick(s, 40 + p[2], Dts), s, FALSE, 1)
                     IN  Round(acc, IF ((i \div 2) % 2) = 0 THEN q ELSE NewQ(q, s, FALSE))
      rep(acc, part) == LET q == DistQ(g, part, R(s, 50, Len(g)), <<>>, <<>>, Pick(s, 41, Dts), s, FALSE, 1) IN Round(Round(acc, q), NewQ(q, s + 3, FALSE))
  IN  FoldLeft(rep, FoldLeft(one, Start, pairs), <<"B", "U">>)
E02(i, s) ==
  LET g == At(<<<<1>>, <<3>>, <<4>>, <<3, 2>>, <<2, 3>>, <<2, 2, 2>>>>, i)
      part == At(<<"B", "U">>, i \div 6)
      n == g[1]
      rest == ProdI(Tail(g))
      a == Add(Start, NewQ(DistQ(g, part, 0, <<>>, <<>>, Pick(s, 41, Dts), s, FALSE, 1), s, FALSE))
      b == Add(a, DistQ(g, part, 0, <<>>, <<>>, "c16", s + 1, FALSE, 1))
      idxs == <<[t |-> "all"]>> \o [j \in 1..n |-> [t |-> "i", i |-> j - 1]] \o [j \in 1..n |-> [t |-> "s", a |-> j - 1, b |-> n]] \o [j \in 1..n |-> [t |-> "s", a |-> 0, b |-> j]]
              \o (IF Len(g) = 2 THEN [j \in 1..g[2] |-> [t |-> "c", i |-> j - 1]] ELSE <<>>)
      set(acc, j) == LET x == 1 + (j % 2)
                         ix(r) == IF part = "B" THEN idxs[j] ELSE At(idxs, j + r)
                         set1 == Add(acc, [op |-> "set", x |-> x, idx |-> [r \in Procs |-> ix(r)],
                                   val |-> [r \in Procs |-> Data(s + 5 * j, 100 + 40 * r, IF R(s + j, 9, 3) = 0 THEN 1 ELSE Len(Positions(ix(r), g)), acc.h[x].dt, FALSE, 1)]])
                     IN  Add(set1, [op |-> "asarray", x |-> x])
      c == FoldLeft(set, b, Upto(Len(idxs)))
  IN  AddAll(c, <<[op |-> "copy", x |-> 1], [op |-> "neg", x |-> 2], [op |-> "add", x |-> 1, y |-> 2], [op |-> "mul", x |-> 2, y |-> 1], [op |-> "conj", x |-> 2],
                  [op |-> "iadd", x |-> 2, y |-> 1], [op |-> "asarray", x |-> 2], [op |-> "isub", x |-> 3, y |-> 1], [op |-> "asarray", x |-> 3], [op |-> "zeros", x |-> 2]>>)

(* ---- C03, C04, C05, C13: arithmetic and reductions -----------------------*)
BinOps == <<"add", "sub", "mul">>
E03(i, s) ==
  LET l == (i % Layouts)
      dx == At(FiveDts, i \div Layouts)
      a == FoldLeft(LAMBDA c, dt : Add(c, [LayQ(l, s, dt, FALSE) EXCEPT !.d = Data(s + Len(c.p), 100, Len(@), dt, FALSE, 1)]), Start, <<dx>> \o FiveDts)
      bin == [j \in 1..30 |-> LET o == At(BinOps, j)
                                  y == 2 + (((j - 1) \div 3) % 5)
                              IN  IF j > 15 THEN [op |-> o, x |-> y, y |-> 1] ELSE [op |-> o, x |-> 1, y |-> y]]
      sm == [j \in 1..18 |-> LET sc == At(Scalars, j) IN [op |-> "smul", x |-> 1, s |-> sc.s, sk |-> sc.sk, left |-> j > 9]]
      un == <<[op |-> "neg", x |-> 1], [op |-> "conj", x |-> 1], [op |-> "copy", x |-> 1], [op |-> "zeros", x |-> 1], [op |-> "add", x |-> 1, y |-> 1],
              [op |-> "sub", x |-> 1, y |-> 1], [op |-> "mul", x |-> 1, y |-> 1]>>
      b == AddAll(a, bin \o sm \o un)
      inp(acc, y) == LET c == Add(acc, [op |-> "copy", x |-> 1])
                         d == Add(c, [op |-> "iadd", x |-> Top_(c), y |-> y])
                         e == Add(d, [op |-> "copy", x |-> 1])
                     IN  Add(e, [op |-> "isub", x |-> Top_(e), y |-> y])
  IN  AddAll(FoldLeft(inp, b, <<2, 3, 4, 5, 6>>), <<[op |-> "iadd", x |-> 1, y |-> 1], [op |-> "isub", x |-> 2, y |-> 2]>>)
Ords == <<"0", "1", "2", "3", "4", "half", "inf", "-inf">>
E04(i, s0) ==
  LET l == (i % Layouts)
      dx == At(FiveDts, i \div Layouts)
      s == s0 - (s0 % 2) + ((i \div 3) % 2)       \* every other one with squares
      a == FoldLeft(LAMBDA c, dt : Add(c, [LayQ(l, s, dt, TRUE) EXCEPT !.d = Data(s + 2 * Len(c.p), 100, Len(@), dt, TRUE, 1)]), Start, <<dx>> \o FiveDts)
      nr == [j \in 1..(2 * Len(Ords)) |-> [op |-> "norm", x |-> IF (j % 3) = 0 THEN 3 ELSE 1, ord |-> At(Ords, j),
                                           axis |-> IF j <= Len(Ords) THEN -1 ELSE IF Repl(a.h[1]) THEN 0 ELSE a.h[1].ax]]
      dots == [j \in 1..12 |-> [op |-> "dot", x |-> IF j > 6 THEN j - 6 ELSE 1, y |-> IF j > 6 THEN 1 ELSE j]]
  IN  AddAll(a, nr \o dots)
E05(i, s) ==
  LET mask == [r \in Procs |-> Digit(i, IF P <= 3 THEN 3 ELSE 2, r - 1)]
      n == 1 + R(s, 70, 2 * P + 2)
      dt == At(FiveDts, R(s, 71, 5))
      a == AddAll(Start, <<DistQ(<<n>>, "S", 0, Sizes(R(s, 72, 4), s, n), mask, dt, s, TRUE, 1)>>)
      b == Add(a, Likeness(s + 2, a.h[1]))
      c == AddAll(b, <<[op |-> "add", x |-> 1, y |-> 2], [op |-> "sub", x |-> 1, y |-> 2], [op |-> "mul", x |-> 2, y |-> 1], [op |-> "neg", x |-> 1], [op |-> "conj", x |-> 2],
                       [op |-> "copy", x |-> 1], [op |-> "zeros", x |-> 1], [op |-> "smul", x |-> 1, s |-> <<2, 0>>, sk |-> "int", left |-> TRUE], [op |-> "ravel", x |-> 1, order |-> "C"],
                       DistQ(<<3, 2>>, "S", R(s, 73, 2), <<>>, mask, dt, s + 4, TRUE, 1), DistQ(<<3>>, "B", 0, <<>>, mask, dt, s + 4, TRUE, 1),
                       DistQ(<<2>>, "U", 0, <<>>, mask, dt, s + 6, TRUE, 1)>>)
      red(acc, x) == AddAll(acc, <<[op |-> "dot", x |-> x, y |-> x], [op |-> "norm", x |-> x, ord |-> At(<<"2", "1", "inf", "-inf", "0">>, x), axis |-> IF (x % 2) = 0 \/ Len(acc.h[x].g) > 1 THEN -1 ELSE 0]>>)
      d == FoldLeft(red, c, SelectSeq(Upto(Len(c.h)), LAMBDA x : c.h[x].k = "arr"))
      e == AddAll(d, <<[op |-> "dot", x |-> 1, y |-> 2], [op |-> "dot", x |-> 2, y |-> 1], [op |-> "iadd", x |-> 1, y |-> 2], [op |-> "norm", x |-> 1, ord |-> "2", axis |-> -1]>>)
      other == Add(e, [LikeQ(e.h[1], s) EXCEPT !.mask = [r \in Procs |-> IF r = 1 THEN (mask[r] + 1) % 2 ELSE mask[r]]])
      none == Add(other, [LikeQ(e.h[1], s) EXCEPT !.mask = <<>>])
      bq == [DrawBlocks(s, "bdiag") EXCEPT !.mask = mask]
      diff == <<"add", "sub", "mul", "iadd", "isub", "dot">>
      f == OpAll(AddAll(none, <<[op |-> At(diff, i), x |-> 1, y |-> Top_(other)], [op |-> At(diff, i + 1 + (s % 5)), x |-> Top_(other), y |-> 1], [op |-> At(diff, i \div 2), x |-> 1, y |-> Top_(none)],
                                [op |-> At(diff, i \div 3 + 1), x |-> Top_(none), y |-> Top_(other)]>>), bq, <<0, 1>>, s)
      g == SelectSeq(Upto(Len(f.h)), LAMBDA x : x > Top_(none) /\ f.h[x].k = "arr")
  IN  FoldLeft(red, f, g)

(* ---- C06: ghost cells ----------------------------------------------------*)
GhostMenu(x, s) ==
  LET lo == <<>>
      uni(m) == [r \in Procs |-> m]
      upto(r, d) == IF r + d \in Procs THEN x.sz[r + d] ELSE 0
      some(i) == [r \in Procs |-> R(s, i + r, upto(r, -1) + 1)]
      more(i) == [r \in Procs |-> R(s, i + 20 + r, upto(r, 1) + 1)]
      one(r0, m) == [r \in Procs |-> IF r = r0 THEN m ELSE 0]
  IN  [j \in 1..4 |-> <<uni(j - 1), lo>>] \o [j \in 1..4 |-> <<lo, uni(j - 1)>>] \o <<<<uni(1), uni(1)>>, <<uni(2), uni(1)>>, <<uni(1), uni(2)>>, <<uni(2), uni(2)>>, <<uni(3), uni(3)>>>>
      \o [j \in 1..4 |-> <<some(10 * j), more(10 * j)>>]
      \o [r \in Procs |-> <<one(r, upto(r, -1)), one(r, upto(r, 1))>>]
      \o [r \in Procs |-> <<one(r, upto(r, -1) + 1), lo>>] \o [r \in Procs |-> <<lo, one(r, upto(r, 1) + 1)>>]
      \o <<<<[r \in Procs |-> upto(r, -1)], [r \in Procs |-> upto(r, 1)]>>>>
E06(i, s) ==
  LET b == IF P = 1 THEN 6 ELSE IF P = 2 THEN 5 ELSE IF P <= 4 THEN 4 ELSE 3
      sz0 == [r \in Procs |-> Digit(i, b, r - 1)]
      sz == IF SumI(sz0) = 0 THEN [r \in Procs |-> IF r = P THEN 2 ELSE 0] ELSE sz0
      n == SumI(sz)
      v == R(s, 90, 4)
      g == CASE v \in {0, 1} -> <<n>> [] v = 2 -> <<n, 2>> [] OTHER -> <<2, n>>
      a == Add(Start, DistQ(g, "S", IF v = 3 THEN 1 ELSE 0, sz, <<>>, Pick(s, 41, Dts), s, FALSE, 1))
  IN  AddAll(a, [j \in 1..Len(GhostMenu(a.h[1], s)) |-> LET m == GhostMenu(a.h[1], s)[j] IN [op |-> "ghost", x |-> 1, cf |-> m[1], cb |-> m[2]]])

(* ---- C07: all layouts of the input ---------------------------------------*)
Compositions(n) == LET C == {f \in [Procs -> 0..n] : SumI(f) = n} IN SetToSeq(C)
E07N == IF P = 1 THEN 4 ELSE IF P = 2 THEN 7 ELSE IF P = 3 THEN 5 ELSE IF P = 4 THEN 4 ELSE 3
E07(i, s) ==
  LET n == 1 + (i % E07N)
      t == i \div E07N
      all == Compositions(n)
      into == all[1 + R(s, 11, Len(all))]
      big == IF n >= P THEN LET pos == SelectSeq(all, LAMBDA f : \A r \in Procs : f[r] > 0) IN pos[1 + R(s, 11, Len(pos))] ELSE [r \in Procs |-> 1]
      m == SumI(big)
      blk(t2) == [op |-> t2, blocks |-> [r \in Procs |-> <<[nr |-> IF t2 = "hstack" THEN 2 ELSE big[r], nc |-> IF t2 = "vstack" THEN 2 ELSE big[r], dt |-> "f8",
                    m |-> Mat(s, 300 + 300 * r, IF t2 = "hstack" THEN 2 ELSE big[r], IF t2 = "vstack" THEN 2 ELSE big[r], "f8")]>>], mask |-> <<>>, dt |-> ""]
      rest == IF (m % 2) = 0 THEN 2 ELSE 1
      q == CASE (t % 6) = 0 -> blk("bdiag") [] (t % 6) = 1 -> blk("vstack") [] (t % 6) = 2 -> blk("hstack")
             [] (t % 6) = 3 -> [op |-> "deriv1", dims |-> <<m>>, kind |-> "centered", order |-> 3, edge |-> FALSE, samp |-> <<1, 1>>, dt |-> "f8"]
             [] (t % 6) = 4 -> [op |-> "deriv1", dims |-> IF rest = 2 THEN <<m \div 2, 2>> ELSE <<m>>, kind |-> At(<<"forward", "backward">>, i), order |-> 3, edge |-> FALSE, samp |-> <<1, 1>>, dt |-> "f8"]
             [] OTHER -> [op |-> "deriv2", dims |-> <<m>>, kind |-> "centered", edge |-> FALSE, samp |-> <<1, 1>>, dt |-> "f8"]
      a == Add(Start, q)
      A == a.h[1]
      ins == IF P > 5 THEN [j \in 1..28 |-> Sizes((j % 3) + 1, s + 41 * j, m)] ELSE
             LET c == IF m = n THEN all ELSE Compositions(m)
             IN  IF Len(c) <= 28 THEN c ELSE [j \in 1..28 |-> c[1 + ((R(s, 12, Len(c)) + j * 13) % Len(c))]]
      one(acc, sz) == LET x == Add(acc, DistQ(<<m>>, "S", 0, sz, <<>>, "f8", s + 3 * Len(acc.p), FALSE, A.mult))
                          y == IF "S" \in InSig(A, FALSE).c[1].part THEN AppOn(x, 1, FALSE, Top_(x)) ELSE x
                      IN  IF "S" \in InSig(A, TRUE).c[1].part /\ A.rows = m THEN AppOn(y, 1, TRUE, Top_(x)) ELSE y
  IN  FoldLeft(one, a, ins)

(* ---- C08, C10, C20: blocks, slices, convolutions -------------------------*)
E08(i, s) ==
  LET t == At(<<"bdiag", "vstack", "hstack">>, i)
      j == i \div 3
      code(r) == ((j \div (8 ^ ((r - 1) % 4))) % 8)          \* how many, rows, columns
      dtm == R(s, 15, 4)
      common == 1 + R(s, 16, 3)
      blk(r, b) == LET nr == IF t = "hstack" THEN common ELSE 1 + ((code(r) \div 2) % 2) + R(s, 30 + 3 * r + b, 2) * (b - 1)
                       nc == IF t = "vstack" THEN common ELSE 1 + ((code(r) \div 4) % 2) + R(s, 50 + 3 * r + b, 2) * (b - 1)
                       dt == IF dtm = 0 THEN Pick(s, 60 + 3 * r + b, BlockDts) ELSE Pick(s, 61, BlockDts)
                   IN  [nr |-> nr, nc |-> nc, dt |-> dt, m |-> Mat(s, 300 + 300 * r + 90 * b, nr, nc, dt)]
      q == [op |-> t, blocks |-> [r \in Procs |-> [b \in 1..(1 + (code(r) % 2)) |-> blk(r, b)]],
            mask |-> IF t = "bdiag" /\ R(s, 62, 4) = 0 THEN [r \in Procs |-> R(s, 64 + r, 2)] ELSE <<>>,
            dt |-> IF dtm = 1 THEN (IF \E r \in Procs : \E b \in 1..(1 + (code(r) % 2)) : IsC(blk(r, b).dt) THEN "c16" ELSE "f8") ELSE ""]
      a == OpAll(Start, q, <<0, 5, 2>>, s)
      q2 == [q EXCEPT !.blocks = [r \in Procs |-> [b \in 1..Len(q.blocks[r]) |-> blk(P + 1 - r, IF Len(q.blocks[r]) = Len(q.blocks[P + 1 - r]) THEN b ELSE 1)]]]
  IN  IF t = "bdiag" /\ q.dt = "" THEN OpAll(a, [q2 EXCEPT !.mask = <<>>], <<0, 6>>, s + 50) ELSE a
E10(i, s) ==
  LET nx == 1 + (i % 3)
      ny == 1 + ((i \div 3) % 3)
      nz == 1 + ((i \div 9) % 3)
      nsl(r) == 2 + ((i \div (27 * 2 ^ (r - 1))) % 2) + (IF R(s, 10 + r, 5) = 0 THEN 1 ELSE 0)
      dt == At(<<"f8", "c16", "f8", "c16", "c8", "f4">>, R(s, 9, 6))
      q == [op |-> "fred", G |-> [r \in Procs |-> [k2 \in 1..nsl(r) |-> Mat(s, 100 + 400 * r + 60 * k2, nx, ny, dt)]], nx |-> nx, ny |-> ny, nz |-> nz, dt |-> dt,
            save |-> R(s, 21, 2) = 0, matmul |-> R(s, 22, 2) = 0]
      a == OpAll(Start, q, <<0, 1>>, s)
      b == OpAll(a, [q EXCEPT !.save = ~@, !.matmul = R(s, 23, 2) = 0], <<1>>, s + 60)
      c == OpAll(b, [q EXCEPT !.matmul = ~@, !.save = R(s, 24, 2) = 0], <<0>>, s + 80)
      bad == [q EXCEPT !.G = [r \in Procs |-> IF r = 1 + (i % P) THEN <<q.G[r][1]>> ELSE q.G[r]]]
  IN  IF (i % 9) = 0 THEN Add(c, bad) ELSE c
E20(i, s) ==
  LET two == (i % 2) = 0
      odd == ((i \div 2) % 2) = 0 \/ two
      nf == 2 * P + ((i \div 4) % 3)
      nt == IF odd THEN 2 * nf - 1 ELSE 2 * nf - 2
      nfs0 == AnySizes(s, 10, nf - 2 * P)
      ns == 1 + ((i \div 12) % 2)
      nr == 1 + ((i \div 24) % 2)
      cd == Pick(s, 9, <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>>>)
      q == [op |-> "mdc", nt |-> nt, ns |-> ns, nr |-> nr, nv |-> 1 + R(s, 20, 2), nfs |-> [r \in Procs |-> 2 + nfs0[r]], two |-> two, conj |-> R(s, 21, 2) = 0,
            K |-> [t \in 1..nt |-> Mat(s, 100 + 50 * t, ns, nr, "f8")], c |-> cd[1], d |-> cd[2], pre |-> R(s, 30, 4) = 0, dt |-> IF R(s, 34, 4) = 0 THEN "f4" ELSE "f8", save |-> R(s, 31, 2) = 0, matmul |-> R(s, 32, 2) = 0]
      a == OpAll(Start, q, <<0, 1>>, s)
      b == OpAll(a, [q EXCEPT !.conj = ~@, !.save = ~@], <<0>>, s + 60)
      \* kernels of a narrow band, with the other frequencies left out
      flat == [q EXCEPT !.K = [t \in 1..nt |-> q.K[1]], !.nfs = [r \in Procs |-> 2], !.conj = R(s, 33, 2) = 0]
      last == CHOOSE r \in Procs : nfs0[r] > 0
      nyq == [q EXCEPT !.K = [t \in 1..nt |-> q.K[(((t + 1) \div 2) % (nt \div 2)) + 1]], !.nfs[last] = @ - 1]
      c == IF nf > 2 * P THEN OpAll(b, flat, <<0>>, s + 90) ELSE b
  IN  IF nf > 2 * P /\ ~odd THEN OpAll(c, nyq, <<0>>, s + 120) ELSE c

(* ---- C09: stencils -------------------------------------------------------*)
Kinds3 == <<"forward", "backward", "centered">>
E09L == 3 * P + 4
E09(i, s) ==
  LET n == 1 + (i % E09L)
      j == i \div E09L
      rest == At(<<<<>>, <<2>>, <<>>, <<1, 2>>>>, j)
      dt == At(<<"f8", "c16", "f8", "f4", "c8">>, R(s, 11, 5))
      sm == At(<<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>, <<1, 1>>>>, R(s, 12, 5))
      d1 == [m \in 1..6 |-> [op |-> "deriv1", dims |-> <<n>> \o rest, kind |-> At(<<"forward", "backward", "centered", "centered", "centered", "centered">>, m - 1), order |-> IF m > 4 THEN 5 ELSE 3,
                             edge |-> (m % 2) = 0, samp |-> sm, dt |-> dt]]
      d2 == [m \in 1..4 |-> [op |-> "deriv2", dims |-> <<n>> \o rest, kind |-> At(<<"forward", "backward", "centered", "centered">>, m - 1), edge |-> (m % 2) = 0, samp |-> sm, dt |-> dt]]
      more == [m \in 1..3 |-> [op |-> "lapl", dims |-> IF rest = <<>> THEN <<n, 2>> ELSE <<n>> \o rest, axes |-> At(<<<<0, 1>>, <<1, 0>>, <<0>>, <<1>>, <<-2, -1>>>>, R(s, 30 + m, 5)), wts |-> <<>>, samp |-> <<>>,
                               kind |-> Kinds3[m], edge |-> R(s, 33 + m, 2) = 0, dt |-> dt]]
      fix(q) == IF q.op = "lapl" THEN [q EXCEPT !.wts = [x \in 1..Len(q.axes) |-> At(<<1, -2, 3>>, R(s, 40 + x, 3))], !.samp = [x \in 1..Len(q.axes) |-> At(<<<<1, 1>>, <<2, 1>>>>, R(s, 44 + x, 2))]] ELSE q
      gr == [m \in 1..2 |-> LET dd == IF rest = <<>> THEN <<n, 3>> ELSE <<n>> \o rest
                            IN  [op |-> "grad", dims |-> dd, samp |-> [x \in 1..Len(dd) |-> At(<<<<1, 1>>, <<1, 2>>>>, R(s, 50 + x, 2))],
                                 kind |-> At(Kinds3, i + m), edge |-> m = 1, dt |-> dt]]
      qs == IF (j % 2) = 0 THEN d1 \o d2 ELSE [m \in 1..3 |-> fix(more[m])] \o gr \o [m \in 1..3 |-> d1[2 * m - 1]]
      one(acc, q) == LET o == Add(acc, q) IN IF Top_(o) = Top_(acc) \/ ~IsOp(o, Top_(o)) THEN o ELSE AppNew(AppNew(o, Top_(o), FALSE, At(<<0, 0, 2>>, Len(acc.p)), s), Top_(o), TRUE, 0, s + 9)
  IN  FoldLeft(one, Start, qs)

(* ---- C11, C13: expressions -----------------------------------------------*)
Leaf2(k2, s) ==       \* two operators of the same kind and size
  LET sq(dt, e) == [op |-> "bdiag", blocks |-> [r \in Procs |-> <<LET n == 1 + R(s, 20 + r, 2) IN [nr |-> n, nc |-> n, dt |-> dt, m |-> Mat(s + e, 300 + 300 * r, n, n, dt)]>>], mask |-> <<>>, dt |-> ""]
      rc(t, dt, e) == [op |-> t, blocks |-> [r \in Procs |-> <<LET nr == IF t = "hstack" THEN 2 ELSE 1 + R(s, 20 + r, 2)
                                                                  nc == IF t = "vstack" THEN 2 ELSE 1 + R(s, 40 + r, 3)
                                                              IN  [nr |-> nr, nc |-> nc, dt |-> dt, m |-> Mat(s + e, 300 + 300 * r, nr, nc, dt)]>>], mask |-> <<>>, dt |-> ""]
      fr(dt, e) == [op |-> "fred", G |-> [r \in Procs |-> [b \in 1..2 |-> Mat(s + e, 100 + 400 * r + 60 * b, 2, 2, dt)]], nx |-> 2, ny |-> 2, nz |-> 1, dt |-> dt, save |-> TRUE, matmul |-> TRUE]
      wr(dt, e) == LET M == Mat(s + e, 100, 3, 3, dt) IN [op |-> "wrap", nr |-> 3, nc |-> 3, dt |-> dt, M |-> M, Mh |-> MConjT(M, 3)]
      d(e) == [op |-> "deriv1", dims |-> <<2 * P>>, kind |-> At(Kinds3, R(s, 3, 3) + e), order |-> 3, edge |-> FALSE, samp |-> <<1, 1>>, dt |-> "f8"]
  IN  CASE k2 = 0 -> <<sq("c16", 0), sq("f8", 5)>>
        [] k2 = 1 -> <<sq("f8", 0), sq("c16", 5)>>
        [] k2 = 2 -> <<rc("bdiag", "c16", 0), rc("bdiag", "c16", 5)>>
        [] k2 = 3 -> <<rc("vstack", "c16", 0), rc("vstack", "f8", 5)>>
        [] k2 = 4 -> <<rc("hstack", "c16", 0), rc("hstack", "c16", 5)>>
        [] k2 = 5 -> <<fr("c16", 0), fr("f8", 5)>>
        [] k2 = 6 -> <<wr("c16", 0), wr("c16", 5)>>
        [] k2 = 7 -> <<d(0), d(1)>>
        [] OTHER -> <<wr("f8", 0), wr("f8", 5)>>
Unary1 == <<"H", "T", "Cj", "sc", "sf", "si", "negop", "p0", "p1", "p2", "p3">>
UnQ(u, a) ==
  CASE u \in {"H", "T", "Cj", "negop"} -> [op |-> u, a |-> a]
    [] u = "sc" -> [op |-> "scale", a |-> a, s |-> <<2, -1>>, sk |-> "complex", left |-> (a % 2) = 0]
    [] u = "sf" -> [op |-> "scale", a |-> a, s |-> <<2, 0>>, sk |-> "float", left |-> (a % 2) = 1]
    [] u = "si" -> [op |-> "scale", a |-> a, s |-> <<-3, 0>>, sk |-> "int", left |-> (a % 2) = 0]
    [] u = "p0" -> [op |-> "pow", a |-> a, p |-> 0]
    [] u = "p1" -> [op |-> "pow", a |-> a, p |-> 1]
    [] u = "p2" -> [op |-> "pow", a |-> a, p |-> 2]
    [] u = "p3" -> [op |-> "pow", a |-> a, p |-> 3]
New(acc, q, s) == LET o == Add(acc, q) IN IF Top_(o) = Top_(acc) THEN o ELSE Both(o, Top_(o), 0, s)
Exprs(acc, a, b, u, s) ==      \* u(a), v(u(a)) for all v, and u(a) with b
  LET c0 == New(acc, UnQ(u, a), s)
      c == Top_(Add(acc, UnQ(u, a)))
      ok == IsOp(c0, c)
      un == FoldLeft(LAMBDA w, v : New(w, UnQ(v, c), s + 3), c0, Unary1)
      bins == <<[op |-> "sum", a |-> c, b |-> b], [op |-> "sum", a |-> b, b |-> c], [op |-> "subop", a |-> c, b |-> b], [op |-> "prod", a |-> c, b |-> b],
                [op |-> "prod", a |-> b, b |-> c], [op |-> "prod", a |-> c, b |-> a], [op |-> "sum", a |-> c, b |-> a], [op |-> "subop", a |-> a, b |-> c]>>
      fits(w, q) == IF q.op = "prod" THEN w.h[q.a].cols = w.h[q.b].rows ELSE w.h[q.a].rows = w.h[q.b].rows /\ w.h[q.a].cols = w.h[q.b].cols
  IN  IF ~ok THEN c0 ELSE FoldLeft(LAMBDA w, q : IF fits(w, q) \/ R(s, 99, 4) = 0 THEN New(w, q, s + 4) ELSE w, un, bins)
E11(i, s) ==
  LET u == At(Unary1, i)
      l == Leaf2(((i \div Len(Unary1)) % 9), s)
      a == AddAll(Start, l)
  IN  Exprs(a, 1, 2, u, s)
E13(i, s) ==
  LET u == At(Unary1, i)
      t == ((i \div Len(Unary1)) % 6)
      sq == Leaf2(0, s)
      rc == Leaf2(2, s)
      vs == Leaf2(3, s)
      gr == [op |-> "grad", dims |-> <<2 * P, 2>>, samp |-> <<<<1, 1>>, <<1, 1>>>>, kind |-> At(Kinds3, R(s, 3, 3)), edge |-> FALSE, dt |-> "f8"]
      acc == CASE t = 0 -> AddAll(Start, sq \o <<[op |-> "sbdiag", as |-> <<1, 2>>], [op |-> "sbdiag", as |-> <<2, 1>>]>>)
               [] t = 1 -> AddAll(Start, sq \o <<[op |-> "sbdiag", as |-> <<1>>], [op |-> "sbdiag", as |-> <<2>>]>>)
               [] t = 2 -> AddAll(Start, rc \o <<[op |-> "svstack", as |-> <<1, 2>>], [op |-> "svstack", as |-> <<2, 1>>]>>)
               [] t = 3 -> AddAll(Start, vs \o <<[op |-> "sbdiag", as |-> <<1, 2>>], [op |-> "sbdiag", as |-> <<2, 2>>]>>)
               [] t = 4 -> AddAll(Start, sq \o <<[op |-> "svstack", as |-> <<2, 1, 2>>], [op |-> "svstack", as |-> <<1, 1, 2>>]>>)
               [] OTHER -> AddAll(Start, <<gr, gr, gr, gr>>)
  IN  IF Top_(acc) # 4 THEN acc ELSE Exprs(acc, 3, 4, u, s)
(* stacks of arrays                                                          *)
E13A(i, s) ==
  LET lay(j) == LayQ(((i + 3 * j) % Layouts), s + 7 * j, At(FiveDts, R(s, 20 + j, 5)), TRUE)
      m == 1 + (i % 3)
      a == FoldLeft(LAMBDA c, j : AddAll(c, <<lay(j), [lay(j) EXCEPT !.d = Data(s + 2 * j, 400, Len(@), lay(j).dt, TRUE, 1)]>>), Start, Upto(m))
      b == AddAll(a, <<[op |-> "stk", xs |-> [j \in 1..m |-> 2 * j - 1]], [op |-> "stk", xs |-> [j \in 1..m |-> 2 * j]]>>)
      x == Top_(b) - 1
      y == Top_(b)
      sm == [j \in 1..9 |-> LET sc == At(Scalars, j) IN [op |-> "smul", x |-> x, s |-> sc.s, sk |-> sc.sk, left |-> (j % 2) = 0]]
      un == <<[op |-> "neg", x |-> x], [op |-> "conj", x |-> y], [op |-> "copy", x |-> x], [op |-> "add", x |-> x, y |-> y], [op |-> "sub", x |-> y, y |-> x], [op |-> "mul", x |-> x, y |-> y],
              [op |-> "dot", x |-> x, y |-> y], [op |-> "dot", x |-> y, y |-> x], [op |-> "dot", x |-> x, y |-> x], [op |-> "asarray", x |-> x]>>
      no == [j \in 1..Len(Ords) |-> [op |-> "norm", x |-> IF (j % 2) = 0 THEN x ELSE y, ord |-> Ords[j], axis |-> -1]]
      c == AddAll(b, sm \o un \o no)
      swapped == Add(c, [op |-> "stk", xs |-> [j \in 1..m |-> 2 * (m + 1 - j)]])
      fewer == IF m = 1 THEN swapped ELSE Add(swapped, [op |-> "stk", xs |-> [j \in 1..(m - 1) |-> 2 * j]])
      \* only the last components do not agree
      last == fewer.h[2 * m]
      like == LikeQ(last, s + 3)
      odd == CASE last.part # "S" -> [like EXCEPT !.part = IF last.part = "B" THEN "U" ELSE "S", !.sz = <<>>]
               [] R(s, 9, 2) = 0 -> [like EXCEPT !.mask = IF @ = <<>> THEN [r \in Procs |-> 0] ELSE <<>>]
               [] OTHER -> [like EXCEPT !.sz = Shifted(s, 21, @)]
      half == IF m = 1 THEN fewer ELSE LET f == Add(fewer, odd) IN Add(f, [op |-> "stk", xs |-> [j \in 1..m |-> IF j = m THEN Top_(f) ELSE 2 * j]])
      hs == IF m = 1 THEN <<>> ELSE <<[op |-> "iadd", x |-> x, y |-> Top_(half)], [op |-> "isub", x |-> y, y |-> Top_(half)], [op |-> "iadd", x |-> Top_(half), y |-> x],
                                      [op |-> "dot", x |-> x, y |-> Top_(half)], [op |-> "sub", x |-> Top_(half), y |-> y]>>
      \* the shorter one first
      sh == IF m = 1 THEN <<>> ELSE [j \in 1..5 |-> [op |-> At(<<"add", "dot", "mul", "iadd", "sub">>, j - 1), x |-> Top_(fewer), y |-> IF j = 5 THEN y ELSE x]]
  IN  AddAll(half, hs \o sh \o <<[op |-> "add", x |-> x, y |-> Top_(swapped)], [op |-> "dot", x |-> x, y |-> Top_(fewer)], [op |-> "iadd", x |-> x, y |-> Top_(fewer)], [op |-> "mul", x |-> x, y |-> Top_(swapped)],
                      [op |-> "iadd", x |-> x, y |-> y], [op |-> "asarray", x |-> x], [op |-> "isub", x |-> y, y |-> x], [op |-> "asarray", x |-> y], [op |-> "norm", x |-> y, ord |-> "2", axis |-> -1]>>)

(* ---- C12: the dot test ---------------------------------------------------*)
E12(i, s) ==
  LET nr == 1 + (i % 3)
      nc == 1 + ((i \div 3) % 3)
      dt == At(<<"f8", "c16">>, i \div 9)
      M == Mat(s, 100, nr, nc, dt)
      H == MConjT(M, nc)
      off(e) == [H EXCEPT ![1 + R(s, 6, nc)] = [@ EXCEPT ![1 + R(s, 7, nr)] = CAdd(@, e)]]
      wrap(Mh) == [op |-> "wrap", nr |-> nr, nc |-> nc, dt |-> dt, M |-> M, Mh |-> Mh]
      a == AddAll(Start, <<wrap(H), wrap(off(<<1, 0>>)), wrap(off(<<0, IF dt = "c16" THEN 1 ELSE 0>>)), wrap(off(<<-1, 0>>)), wrap(MConjT(MConj(M), nc))>>)
      v(n, k2, t) == DistQ(<<n>>, "B", 0, <<>>, <<>>, dt, s + k2 + t, FALSE, 1)
      b == AddAll(a, <<v(nc, 1, 0), v(nr, 2, 0), v(nc, 3, 1), v(nr, 4, 1)>>)
      rts == <<<<<<0, 1>>, 1>>, <<<<0, 1>>, 12>>, <<<<1, 10>>, 0>>, <<<<1, 2>>, 0>>, <<<<1, 1000>>, 0>>>>
      t(op_, j) == [op |-> "dottest", a |-> op_, u |-> IF (j % 2) = 0 THEN 6 ELSE 8, w |-> IF (j % 2) = 0 THEN 7 ELSE 9, raise |-> j > 5, rt |-> rts[1 + (j % 5)][1], at |-> rts[1 + (j % 5)][2], nr |-> nr, nc |-> nc]
      c == FoldLeft(LAMBDA acc, o : AddAll(acc, [j \in 1..10 |-> t(o, j)]), b, <<1, 2, 3, 4, 5>>)
  IN  AddAll(c, <<[t(1, 1) EXCEPT !.nr = @ + 1], [t(1, 2) EXCEPT !.nc = @ + 1], [t(1, 1) EXCEPT !.nc = @ + 1, !.nr = @ - 1]>>)
(* and of operators of all kinds                                             *)
E12A(i, s) ==
  LET l == Leaf2((i % 9), s)
      a == AddAll(Start, l \o <<UnQ(At(Unary1, i \div 9), 1), [op |-> "sum", a |-> 1, b |-> 2]>>)
      ops == OpsOf(a.h)
      dt(acc, o) == LET w == AppNew(AppNew(acc, o, FALSE, 0, s), o, TRUE, 0, s + 1)
                        fu == Where(w.h, LAMBDA x : FitsPart(x, InSig(w.h[o], FALSE)))
                        fw == Where(w.h, LAMBDA x : FitsPart(x, InSig(w.h[o], TRUE)))
                        q == [op |-> "dottest", a |-> o, u |-> fu[Len(fu)], w |-> fw[Len(fw)], raise |-> TRUE, rt |-> <<0, 1>>, at |-> 1, nr |-> w.h[o].rows, nc |-> w.h[o].cols]
                    IN  IF fu = <<>> \/ fw = <<>> \/ w.h[o].stk THEN w ELSE AddAll(w, <<q, [q EXCEPT !.raise = FALSE, !.rt = <<1, 1000>>, !.at = 0]>>)
  IN  FoldLeft(dt, a, ops)

(* ---- C17: what must be rejected ------------------------------------------*)
Variants(s) ==
  LET n == P + 1 + R(s, 1, 3)
      m == [r \in Procs |-> IF r = 1 THEN 0 ELSE 1]
      dt == "f8"
      swap == LET b == Balanced(n, P) IN IF P = 1 THEN b ELSE [b EXCEPT ![P] = @ - 1, ![P - 1] = @ + 1]
      swap1 == LET b == Balanced(n, P) IN IF P = 1 THEN b ELSE [b EXCEPT ![1] = @ - 1, ![2] = @ + 1]
  IN  <<DistQ(<<n>>, "S", 0, <<>>, <<>>, dt, s, FALSE, 1),
        DistQ(<<n>>, "S", 0, swap, <<>>, dt, s + 1, FALSE, 1),
        DistQ(<<n>>, "S", 0, swap1, <<>>, dt, s + 2, FALSE, 1),
        DistQ(<<n>>, "B", 0, <<>>, <<>>, dt, s + 3, FALSE, 1),
        DistQ(<<n>>, "U", 0, <<>>, <<>>, dt, s + 4, FALSE, 1),
        DistQ(<<n + 1>>, "S", 0, <<>>, <<>>, dt, s + 5, FALSE, 1),
        DistQ(<<n>>, "S", 0, <<>>, m, dt, s + 6, FALSE, 1),
        DistQ(<<n, 1>>, "S", 0, <<>>, <<>>, dt, s + 7, FALSE, 1),
        DistQ(<<2, n>>, "S", 1, <<>>, <<>>, dt, s + 8, FALSE, 1),
        DistQ(<<n + P>>, "S", 0, <<>>, <<>>, "c16", s + 9, FALSE, 1),
        DistQ(<<n - 1>>, "B", 0, <<>>, <<>>, dt, s + 10, FALSE, 1),
        DistQ(<<n>>, "S", 0, <<>>, [r \in Procs |-> 1 - m[r]], dt, s + 11, FALSE, 1)>>
NV == 12
E17(i, s) ==       \* one against all others
  LET x == 1 + (i % NV)
      a == AddAll(Start, Variants(s))
      ops == <<"add", "sub", "mul", "dot", "iadd", "isub">>
      two(acc, y) == AddAll(acc, [j \in 1..6 |-> IF ((j + y) % 2) = 0 THEN [op |-> ops[j], x |-> x, y |-> y] ELSE [op |-> ops[j], x |-> y, y |-> x]])
  IN  FoldLeft(two, a, Upto(NV))
E17B(i, s) ==      \* vectors that do not fit operators; malformed constructions
  LET l == Leaf2((i % 9), s)
      n == 2 * P + R(s, 2, 2)
      g == <<n>>
      a == AddAll(Start, l \o <<[op |-> "sbdiag", as |-> <<1, 2>>], [op |-> "svstack", as |-> <<1, 2>>],
                                [op |-> "grad", dims |-> <<2 * P, 2>>, samp |-> <<<<1, 1>>, <<1, 1>>>>, kind |-> "forward", edge |-> FALSE, dt |-> "f8"]>>)
      A == a.h[1]
      v(k2, part, sz) == DistQ(<<k2>>, part, 0, sz, <<>>, "f8", s + k2, FALSE, A.mult)
      b == AddAll(a, <<v(A.cols, "S", <<>>), v(A.rows, "S", Sizes(3, s, A.rows)), v(A.cols, "B", <<>>), v(A.rows, "B", <<>>), v(A.cols + 1, "S", <<>>), v(A.rows + 1, "B", <<>>), v(2 * A.cols, "S", <<>>),
                       v(2 * A.rows, "B", <<>>), v(4 * P, "S", <<>>)>>)
      c == AddAll(b, <<[op |-> "stk", xs |-> <<6, 6>>], [op |-> "stk", xs |-> <<8, 8>>], [op |-> "stk", xs |-> <<7, 7>>], [op |-> "stk", xs |-> <<6>>], [op |-> "stk", xs |-> <<14, 14>>]>>)
      k1 == Len(a.h) + 1
      k2 == Len(c.h)
      app(acc, j) == LET o == 1 + (j % Len(a.h))
                         x == k1 + ((j \div Len(a.h)) % (k2 - k1 + 1))
                         adj == (j % 3) = R(s, 5, 3) \/ (j % 7) = 0
                     IN  AppOn(acc, o, adj, x)
      d0 == FoldLeft(app, c, [j \in 1..45 |-> j * 2 + R(s, 4, 2)])
      \* as many elements as fit, in the wrong number of dimensions
      top == Top_(d0)
      wide == AddAll(d0, <<DistQ(<<A.cols, 1>>, "S", 0, <<>>, <<>>, "f8", s, FALSE, A.mult), DistQ(<<1, A.rows>>, At(<<"S", "B">>, i), 0, <<>>, <<>>, "f8", s, FALSE, A.mult)>>)
      w1 == top + 1
      w2 == top + 2
      wides == AddAll(wide, <<[op |-> "stk", xs |-> <<w1, 6>>], [op |-> "stk", xs |-> <<6, w1>>], [op |-> "stk", xs |-> <<w1, w1>>], [op |-> "stk", xs |-> <<7, w2>>], [op |-> "stk", xs |-> <<w2, w2>>]>>)
      d == FoldLeft(LAMBDA acc, j : AppOn(acc, 3 + (j % 3), j > 15, top + 1 + (j % 7)), wides, Upto(30))
      badsz == FoldLeft(LAMBDA acc, r : AddAll(acc, <<[DistQ(g, "S", 0, <<>>, <<>>, "f8", s, FALSE, 1) EXCEPT !.sz = [Balanced(n, P) EXCEPT ![r] = @ + 1]],
                                                     [NewQ(DistQ(g, "S", 0, <<>>, <<>>, "f8", s, FALSE, 1), s, FALSE) EXCEPT !.sz = [Balanced(n, P) EXCEPT ![r] = @ - 1]]>>), d, Procs1)
  IN  AddAll(badsz, <<[DistQ(g, "S", 0, <<>>, <<>>, "f8", s, FALSE, 1) EXCEPT !.ax = 1], [DistQ(<<n, 2>>, "S", 0, Balanced(n, P), <<>>, "f8", s, FALSE, 1) EXCEPT !.bad = "other"],
                      DistQ(g, "S", 0, <<>>, BadMask(s, 80), "f8", s, FALSE, 1), NewQ(DistQ(<<2>>, "B", 0, <<>>, BadMask(s + 1, 80), "f8", s, FALSE, 1), s, FALSE),
                      [op |-> "sum", a |-> 1, b |-> 3], [op |-> "prod", a |-> 1, b |-> 1], [op |-> "pow", a |-> 1, p |-> -1], [op |-> "svstack", as |-> <<1, 2>>],
                      [op |-> "norm", x |-> k1, ord |-> "2", axis |-> 0], DrawBlocks(s + 3, "vstack"), DrawBlocks(s + 4, "hstack")>>)

(* ---- C19: results do not depend on what else was done --------------------*)
E19(i, s) ==
  LET l == (i % Layouts)
      dt == At(FiveDts, R(s, 71, 5))
      a == AddAll(Start, <<LayQ(l, s, dt, FALSE)>>)
      b == Add(a, [LikeQ(a.h[1], s + 5) EXCEPT !.d = Data(s + 5, 100, Len(@), dt, FALSE, 1)])
      ops == <<[op |-> "add", x |-> 1, y |-> 2], [op |-> "mul", x |-> 1, y |-> 2], [op |-> "neg", x |-> 1], [op |-> "conj", x |-> 1], [op |-> "copy", x |-> 1], [op |-> "zeros", x |-> 1],
               [op |-> "smul", x |-> 1, s |-> <<1, 0>>, sk |-> "int", left |-> FALSE], [op |-> "ravel", x |-> 1, order |-> "C"], [op |-> "ravel", x |-> 1, order |-> "F"], [op |-> "sub", x |-> 2, y |-> 1]>>
      setq(h, x, k2) == [op |-> "set", x |-> x, idx |-> [r \in Procs |-> [t |-> "all"]], val |-> [r \in Procs |-> Data(s + k2, 100 + 40 * r, Len(h[x].v[r]), h[x].dt, FALSE, 1)]]
      one(acc, q) == LET r1 == Add(acc, q)
                         x == Top_(r1)
                         w == Add(r1, setq(r1.h, x, x))                 \* change the result
                         z == Add(w, setq(w.h, q.x, x + 1))             \* then the operand
                     IN  AddAll(z, <<q, [op |-> "asarray", x |-> x]>>)
  IN  FoldLeft(one, b, ops)
E19B(i, s) ==
  LET l == Leaf2((i % 9), s)
      a == AddAll(Start, l \o <<UnQ(At(<<"H", "T", "Cj", "sc", "p1", "p0", "si", "p2">>, i \div 9), 1), [op |-> "sum", a |-> 1, b |-> 2], [op |-> "sbdiag", as |-> <<1, 2>>], [op |-> "svstack", as |-> <<1, 2>>]>>)
      setq(h, x, k2) == [op |-> "set", x |-> x, idx |-> [r \in Procs |-> [t |-> "all"]], val |-> [r \in Procs |-> LET dt == h[x].dt IN Data(s + k2, 100 + 40 * r, Len(h[x].v[r]), dt, FALSE, 48)]]
      setk(h, x, k2) == [op |-> "setk", x |-> x, c |-> 1, val |-> [r \in Procs |-> Data(s + k2, 100 + 40 * r, Len(h[x].a[1].v[r]), h[x].a[1].dt, FALSE, 48)]]
      ch(acc, x, k2) == IF acc.h[x].k = "arr" THEN Add(acc, setq(acc.h, x, k2)) ELSE IF acc.h[x].k = "stk" THEN Add(acc, setk(acc.h, x, k2)) ELSE acc
      one(acc, j) == LET o == (j + 1) \div 2
                         w == AppNew(acc, o, (j % 2) = 0, 0, s + j)
                         last == w.p[Len(w.p)]
                         y == Top_(w)
                         w2 == ch(w, y, 1)                              \* change the result
                         w3 == Add(w2, last)                            \* again
                         w4 == ch(w3, last.x, 2)                        \* change the operand
                     IN  IF ~IsOp(acc, o) \/ w.p = acc.p \/ last.op \notin {"mv", "rmv"} \/ Top_(w) = Top_(acc) THEN w ELSE Add(w4, last)
  IN  FoldLeft(one, a, Upto(2 * Len(a.h)))

(* ---- C14, C15: runs of the solvers ---------------------------------------*)
Modes == <<"solve", "class", "phases", "step", "reuse">>
Tols == <<<<1, 10000>>, <<0, 1>>, <<1, 1>>, <<50, 1>>, <<1, 100000000>>>>
Damps == <<<<0, 1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>>>
Runs(acc, t, a, i, s) ==
  LET A == acc.h[a]
      w == AppNew(acc, a, FALSE, 0, s)                     \* data the operator can explain
      last == w.p[Len(w.p)]
      x == last.x
      y == Top_(w)
      X == w.h[x]
      z == IF X.k = "arr" THEN Add(w, [op |-> "zeros", x |-> x]) ELSE Add(w, [op |-> "smul", x |-> x, s |-> <<0, 0>>, sk |-> "int", left |-> TRUE])
      z1 == Add(z, [op |-> "smul", x |-> x, s |-> <<-1, 0>>, sk |-> "int", left |-> TRUE])
      y1 == Add(AppOn(z1, a, FALSE, Top_(z1)), [op |-> "smul", x |-> y, s |-> <<2, 0>>, sk |-> "int", left |-> TRUE])
      run(c, j) == LET m == At(Modes, j + i)
                   IN  Add(c, Apart(c.h, [op |-> t, a |-> a, y |-> IF (j % 3) = 0 THEN Top_(y1) ELSE y, x0 |-> IF (j % 4) = 0 THEN Top_(z1) ELSE IF (j % 5) = 0 THEN x ELSE Top_(z),
                               niter |-> IF m = "step" THEN (j % 3) ELSE At(<<1, 2, 3, 4, 0, 6>>, j + i \div 2), tol |-> IF m = "step" THEN <<0, 1>> ELSE At(Tols, j \div 2),
                               damp |-> IF t = "cg" THEN <<0, 1>> ELSE At(Damps, j + i \div 3), mode |-> m, calls |-> m \in {"solve", "class", "reuse"} /\ (j % 2) = 0, show |-> (j % 4) = 1]))
  IN  IF w.p = acc.p \/ last.op # "mv" \/ Top_(w) = Top_(acc) \/ ~IsVec(w.h[y]) THEN w ELSE FoldLeft(run, y1, Upto(10))
E14(i, s) ==
  LET m == (i % 6)
      spd == [DrawSPD(s) EXCEPT !.mask = IF m = 5 THEN [r \in Procs |-> R(s, 3 + r, 2)] ELSE <<>>]
      acc == CASE m \in {0, 5} -> Add(Start, spd)
               [] m = 1 -> AddAll(Start, <<spd, [op |-> "scale", a |-> 1, s |-> <<2, 0>>, sk |-> "float", left |-> TRUE]>>)
               [] m = 2 -> AddAll(Start, <<spd, [DrawSPD(s + 3) EXCEPT !.mask = <<>>], [op |-> "sbdiag", as |-> <<1, 2>>]>>)
               [] m = 3 -> AddAll(Start, <<Leaf2(1, s)[1], [op |-> "H", a |-> 1], [op |-> "prod", a |-> 2, b |-> 1]>>)
               [] OTHER -> AddAll(Start, <<spd, [op |-> "sum", a |-> 1, b |-> 1]>>)
      a == Top_(acc)
  IN  IF ~IsOp(acc, a) THEN acc ELSE IF ~Solvable(acc.h[a]) \/ ~PD(acc.h[a]) THEN acc ELSE Runs(acc, "cg", a, i, s)
E15(i, s) ==
  LET m == (i % 8)
      L == Leaf2(At(<<0, 1, 2, 3, 4, 6, 7, 2>>, m), s)
      acc0 == AddAll(Start, [j \in 1..2 |-> Small8(L[j])])
      acc == CASE m = 2 -> Add(acc0, [op |-> "svstack", as |-> <<1, 2>>])
               [] m = 0 -> Add(acc0, [op |-> "svstack", as |-> <<1>>])
               [] m = 7 -> Add(acc0, [op |-> "sbdiag", as |-> <<1>>])
               [] m = 4 -> Add(acc0, [op |-> "H", a |-> 1])
               [] OTHER -> acc0
      a == Top_(acc)
  IN  IF ~IsOp(acc, a) THEN acc ELSE IF ~Solvable(acc.h[a]) THEN acc ELSE Runs(acc, "cgls", a, i, s)

(* solvers given vectors that do not fit, and talkative ones that do          *)
E17C(i, s) ==
  LET m == (i % 9)
      L == Leaf2(At(<<0, 1, 2, 3, 4, 6, 7, 2, 0>>, m), s)
      spd == [DrawSPD(s) EXCEPT !.mask = <<>>]
      none(q) == [q EXCEPT !.mask = <<>>, !.blocks[1] = <<[nr |-> 2, nc |-> 0, dt |-> "f8", m |-> <<<<>>, <<>>>>]>>]
      acc == CASE m = 8 -> Add(Start, spd)
               [] m = 1 /\ L[1].op = "bdiag" -> Add(Start, Small8(none(L[1])))
               [] m = 3 -> AddAll(Start, <<Small8(none(DrawBlocks(s, "bdiag"))), [op |-> "scale", a |-> 1, s |-> <<2, 0>>, sk |-> "float", left |-> TRUE]>>)
               [] m = 2 -> AddAll(Start, <<Small8(L[1]), Small8(L[2]), [op |-> "svstack", as |-> <<1, 2>>]>>)
               [] m = 0 -> AddAll(Start, <<spd, [DrawSPD(s + 3) EXCEPT !.mask = <<>>], [op |-> "sbdiag", as |-> <<1, 2>>]>>)
               [] m = 7 -> AddAll(Start, <<Small8(DrawBlocks(s, "bdiag")), Small8(DrawBlocks(s + 5, "bdiag")), [op |-> "sbdiag", as |-> <<2, 1>>]>>)
               [] m = 6 -> AddAll(Start, <<Small8(DrawBlocks(s, "vstack")), Small8(DrawBlocks(s + 5, "bdiag")), [op |-> "sbdiag", as |-> <<1, 2>>]>>)
               [] OTHER -> AddAll(Start, <<Small8(L[1]), Small8(L[2])>>)
      a == IF m \in {0, 2, 6, 7} THEN 3 ELSE IF m = 3 THEN 2 ELSE 1
      A == acc.h[a]
      w == AppNew(acc, a, FALSE, 0, s)
      x == w.p[Len(w.p)].x
      y == Top_(w)
      X == Comps(w.h[x])[1]
      wrong == <<[LikeQ(X, s) EXCEPT !.g = <<X.g[1] + 1>>, !.sz = <<>>, !.d = Data(s, 100, X.g[1] + 1, X.dt, FALSE, 1)],
                 [LikeQ(X, s) EXCEPT !.part = IF X.part = "S" THEN "B" ELSE "S", !.sz = <<>>],
                 [LikeQ(X, s) EXCEPT !.sz = Shifted(s, 20, X.sz)],
                 [LikeQ(X, s) EXCEPT !.mask = [r \in Procs |-> r % 2]],
                 LikeQ(X, s + 1)>>
      v == AddAll(w, wrong)
      k1 == Top_(w)
      st == AddAll(v, <<[op |-> "stk", xs |-> <<k1 + 5>>], [op |-> "stk", xs |-> <<k1 + 5, k1 + 1>>], [op |-> "stk", xs |-> <<k1 + 1, k1 + 5>>], [op |-> "zeros", x |-> k1 + 5]>>)
      vs == Where(st.h, IsVec)
      run(c, j) == LET md == At(Modes, j + i)
                       t == IF m \in {0, 8} /\ (j % 2) = 0 THEN "cg" ELSE "cgls"
                       ok == (j % 3) = 0
                   IN  Add(c, Apart(c.h, [op |-> t, a |-> IF (j % 7) = 6 /\ Len(acc.h) > 1 THEN 2 ELSE a, y |-> IF ok \/ (j % 3) = 1 THEN y ELSE At(vs, j * 5 + i),
                               x0 |-> IF ok THEN x ELSE At(vs, j * 3 + i), niter |-> IF md = "step" THEN 1 ELSE 2, tol |-> IF md = "step" THEN <<0, 1>> ELSE <<1, 10000>>,
                               damp |-> IF t = "cg" THEN <<0, 1>> ELSE At(Damps, j), mode |-> md, calls |-> FALSE, show |-> (j % 4) # 1]))
  IN  IF ~IsOp(acc, a) THEN acc
      ELSE IF ~Solvable(A) \/ w.p = acc.p THEN acc
      ELSE IF w.p[Len(w.p)].op # "mv" \/ Top_(w) = Top_(acc) \/ ~IsVec(w.h[y]) THEN acc ELSE FoldLeft(run, st, Upto(14))

(* ---- beyond small scopes: longer, wider, deeper ---------------------------*)
BigShapes == <<<<37>>, <<64>>, <<20, 6>>, <<3, 17>>, <<2, 3, 2, 2>>, <<2, 2, 2, 2, 2>>, <<100>>, <<5, 4, 3>>>>
L01(i, s) ==
  LET g == At(BigShapes, i)
      ax == R(s, 1, Len(g))
      q == DistQ(g, "S", ax, Sizes(R(s, 2, 6), s, g[ax + 1]), <<>>, Pick(s, 3, Dts), s, FALSE, 1)
      b == DistQ(g, Pick(s, 4, <<"B", "U">>), R(s, 5, Len(g)), <<>>, <<>>, Pick(s, 6, Dts), s + 1, FALSE, 1)
  IN  Round(Round(Round(Start, q), NewQ(q, s, FALSE)), b)
L02(i, s) ==
  LET g == At(BigShapes, i)
      a == Add(Start, NewQ(DistQ(g, At(<<"B", "U">>, i \div 3), 0, <<>>, <<>>, Pick(s, 41, Dts), s, FALSE, 1), s, FALSE))
  IN  FoldLeft(LAMBDA c, j : AddAll(c, <<DrawSetOf(s + 29 * j, c.h, 1, FALSE, 1), [op |-> "asarray", x |-> 1]>>), a, Upto(8))
L03(i, s, masked, norm) ==
  LET g == At(BigShapes, i)
      ax == R(s, 1, Len(g))
      q == DistQ(g, IF R(s, 8, 5) = 0 THEN "B" ELSE "S", ax, IF R(s, 8, 5) = 0 THEN <<>> ELSE Sizes(R(s, 2, 6), s, g[ax + 1]), IF masked THEN [r \in Procs |-> R(s, 80 + r, 4)] ELSE <<>>,
                  Pick(s, 3, Dts), s, norm, 1)
      a == AddAll(Start, <<q, [q EXCEPT !.dt = Pick(s, 4, Dts), !.d = Data(s + 5, 100, Len(@), Pick(s, 4, Dts), norm, 1)]>>)
      red == [j \in 1..Len(Ords) |-> [op |-> "norm", x |-> 1 + (j % 2), ord |-> Ords[j], axis |-> IF (j % 3) = 0 THEN ax ELSE -1]]
             \o <<[op |-> "dot", x |-> 1, y |-> 2], [op |-> "dot", x |-> 1, y |-> 1], [op |-> "dot", x |-> 2, y |-> 1]>>
      ari == <<[op |-> "add", x |-> 1, y |-> 2], [op |-> "sub", x |-> 2, y |-> 1], [op |-> "mul", x |-> 1, y |-> 2], [op |-> "neg", x |-> 1], [op |-> "conj", x |-> 2], [op |-> "copy", x |-> 1],
               [op |-> "zeros", x |-> 2], [op |-> "smul", x |-> 1, s |-> <<2, -1>>, sk |-> "complex", left |-> TRUE], [op |-> "iadd", x |-> 3, y |-> 4], [op |-> "isub", x |-> 1, y |-> 2],
               [op |-> "ravel", x |-> 3, order |-> "C"], [op |-> "ravel", x |-> 4, order |-> "F"]>>
  IN  IF norm THEN AddAll(AddAll(a, red), IF masked THEN SubSeq(ari, 1, 8) ELSE <<>>) ELSE AddAll(a, ari)
L06(i, s) ==
  LET n == 30 + R(s, 1, 40)
      sz == Sizes(At(<<0, 1, 2, 1>>, i), s, n)
      g == At(<<<<n>>, <<n, 3>>, <<3, n>>, <<2, n, 2>>, <<2, 2, 2, n>>>>, i)
      ax == (CHOOSE j \in 1..Len(g) : g[j] = n) - 1
      a == Add(Start, DistQ(g, "S", ax, sz, <<>>, Pick(s, 41, Dts), s, FALSE, 1))
      upto(r, d) == IF r + d \in Procs THEN a.h[1].sz[r + d] ELSE 3
      one(j) == [op |-> "ghost", x |-> 1, cf |-> [r \in Procs |-> R(s, 20 * j + r, upto(r, -1) + 1)], cb |-> [r \in Procs |-> R(s, 500 + 20 * j + r, upto(r, 1) + 1)]]
  IN  AddAll(a, [j \in 1..10 |-> one(j)])
LBlk(t, s, small) ==
  LET common == 1 + R(s, 16, 5)
      dt == Pick(s, 61, <<"f8", "c16", "f8", "c16", "f4", "c8">>)
      blk(r, b) == LET nr == IF t = "hstack" THEN common ELSE 1 + R(s, 30 + 9 * r + b, 5)
                       nc == IF t = "vstack" THEN common ELSE 1 + R(s, 90 + 9 * r + b, 5)
                   IN  [nr |-> nr, nc |-> nc, dt |-> dt, m |-> Mat(s, 300 + 900 * r + 90 * b, nr, nc, dt)]
  IN  [op |-> t, blocks |-> [r \in Procs |-> [b \in 1..(1 + R(s, 20 + r, IF small THEN 2 ELSE 5)) |-> blk(r, b)]], mask |-> <<>>, dt |-> ""]
L08(i, s) == OpAll(Start, LBlk(At(<<"bdiag", "vstack", "hstack">>, i), s, FALSE), <<0, 2, 5, 6>>, s)
L09(i, s) ==
  LET n == 8 * P + R(s, 1, 20)
      m == 3 * P + R(s, 2, 6)
      dt == Pick(s, 3, <<"f8", "c16">>)
      k3 == At(Kinds3, i \div 4)
      sm == Pick(s, 4, Samps)
      dims == At(<<<<n>>, <<m, 5>>, <<m, 2, 2, 2>>, <<m, 3, 2>>>>, R(s, 5, 4))
      dims2 == At(<<<<m, 5>>, <<m, 2, 2, 2>>, <<m, 3, 2>>>>, R(s, 6, 3))
      axes == At(<<<<0, 1>>, <<1, 0>>, <<-1, 0>>, <<-2, -1>>>>, R(s, 7, 4))
      axs == IF Len(dims2) = 4 THEN At(<<<<0, 3, 1>>, <<0, 1, 2, 3>>, <<3, 2>>, <<2, 0>>>>, R(s, 7, 4)) ELSE axes
      q == CASE (i % 4) = 0 -> [op |-> "deriv1", dims |-> dims, kind |-> k3, order |-> Pick(s, 8, <<3, 5>>), edge |-> R(s, 9, 2) = 0, samp |-> sm, dt |-> dt]
             [] (i % 4) = 1 -> [op |-> "deriv2", dims |-> dims, kind |-> k3, edge |-> R(s, 9, 2) = 0, samp |-> sm, dt |-> dt]
             [] (i % 4) = 2 -> [op |-> "lapl", dims |-> dims2, axes |-> axs, wts |-> [x \in 1..Len(axs) |-> R(s, 50 + x, 5) - 2], samp |-> [x \in 1..Len(axs) |-> Pick(s, 60 + x, Samps)], kind |-> k3,
                                edge |-> R(s, 9, 2) = 0, dt |-> dt]
             [] OTHER -> [op |-> "grad", dims |-> dims2, samp |-> [x \in 1..Len(dims2) |-> Pick(s, 60 + x, Samps)], kind |-> k3, edge |-> R(s, 9, 2) = 0, dt |-> dt]
  IN  OpAll(Start, q, <<0, 2, 5>>, s)
L10(i, s) ==
  LET nx == 1 + R(s, 1, 6)
      ny == 1 + R(s, 2, 6)
      dt == At(<<"f8", "c16", "c8", "f4">>, i)
      q == [op |-> "fred", G |-> [r \in Procs |-> [k2 \in 1..(2 + R(s, 10 + r, 4)) |-> Mat(s, 100 + 900 * r + 90 * k2, nx, ny, dt)]], nx |-> nx, ny |-> ny, nz |-> 1 + R(s, 3, 6), dt |-> dt,
            save |-> R(s, 21, 2) = 0, matmul |-> R(s, 22, 2) = 0]
  IN  OpAll(OpAll(Start, q, <<0>>, s), [q EXCEPT !.save = ~@, !.matmul = ~@], <<1>>, s + 60)
(* signed permutations, of which any number can be multiplied                *)
Perm(s, i, n, dt) ==
  LET sh == R(s, i, n)
      unit(r) == IF IsC(dt) THEN At(<<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>, R(s, i + r, 4)) ELSE At(<<<<1, 0>>, <<-1, 0>>>>, R(s, i + r, 2))
  IN  [a \in 1..n |-> [b \in 1..n |-> IF ((a + sh) % n) + 1 = b THEN unit(a) ELSE <<0, 0>>]]
L11(i, s) ==
  LET n(r) == 2 + R(s, r, 3)
      leaf(e, dt) == IF (i % 3) = 2 THEN LET M == Perm(s + e, 300, 4, dt) IN [op |-> "wrap", nr |-> 4, nc |-> 4, dt |-> dt, M |-> M, Mh |-> MConjT(M, 4)]
                     ELSE [op |-> "bdiag", blocks |-> [r \in Procs |-> <<[nr |-> n(r), nc |-> n(r), dt |-> dt, m |-> Perm(s + e, 300 + 50 * r, n(r), dt)]>>], mask |-> <<>>, dt |-> ""]
      a == AddAll(Start, <<leaf(0, "c16"), leaf(7, "f8"), leaf(13, "c16")>>)
      any == <<"H", "T", "Cj", "negop", "prod", "prod", "prod", "sum", "subop", "scale", "pow", "pow">>
      grow(c, j) == LET k2 == Pick(s, 700 + j, any)
                        u == Top_(c) - R(s, 720 + j, 2)
                        v == 1 + R(s, 740 + j, Top_(c))
                        q == CASE k2 \in {"H", "T", "Cj", "negop"} -> [op |-> k2, a |-> u]
                               [] k2 = "scale" -> [op |-> k2, a |-> u, s |-> At(<<<<0, 1>>, <<0, -1>>, <<-1, 0>>>>, j), sk |-> "complex", left |-> (j % 2) = 0]
                               [] k2 = "pow" -> [op |-> k2, a |-> u, p |-> R(s, 760 + j, 7)]
                               [] OTHER -> [op |-> k2, a |-> u, b |-> v]
                    IN  IF c.h[u].k # "op" \/ c.h[v].k # "op" THEN c ELSE Add(c, q)
      b == FoldLeft(grow, a, Upto(14))
      N2 == Top_(b)
  IN  FoldLeft(LAMBDA c, j : Both(c, N2 + 1 - j, 0, s + j), b, Upto(IMin(8, N2)))
L20(i, s) ==
  LET nf == 2 * P + 2 + R(s, 1, 6)
      two == (i % 2) = 0
      nt == IF two \/ R(s, 2, 2) = 0 THEN 2 * nf - 1 ELSE 2 * nf - 2
      nfs0 == AnySizes(s, 10, nf - 2 * P)
      ns == 1 + R(s, 3, 4)
      nr == 1 + R(s, 4, 4)
      q == [op |-> "mdc", nt |-> nt, ns |-> ns, nr |-> nr, nv |-> 1 + R(s, 20, 3), nfs |-> [r \in Procs |-> 2 + nfs0[r]], two |-> two, conj |-> R(s, 21, 2) = 0,
            K |-> [t \in 1..nt |-> Mat(s, 100 + 90 * t, ns, nr, "f8")], c |-> Pick(s, 22, <<1, 2, 3>>), d |-> Pick(s, 23, <<1, 2>>), pre |-> R(s, 30, 4) = 0, dt |-> "f8", save |-> R(s, 31, 2) = 0, matmul |-> R(s, 32, 2) = 0]
  IN  OpAll(Start, q, <<0, 1>>, s)
(* large systems of few eigenvalues: solved after as many steps               *)
L14(i, s, ls) ==
  LET blk(r) == LET n == 3 + R(s, 10 + r, 4)
                    d == Pick(s, 40 + r, <<1, 2, 3>>)
                IN  [nr |-> n, nc |-> n, dt |-> "f8", m |-> [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN <<d, 0>> ELSE <<0, 0>>]]]
      a == Add(Start, [op |-> "bdiag", blocks |-> [r \in Procs |-> <<blk(r)>>], mask |-> <<>>, dt |-> ""])
      w == AppNew(a, 1, FALSE, At(<<0, 2>>, i), s)
      y == Top_(w)
      x == w.p[Len(w.p)].x
      z == Add(w, [op |-> "zeros", x |-> x])
      run(c, j) == Add(c, Apart(c.h, [op |-> IF ls THEN "cgls" ELSE "cg", a |-> 1, y |-> y, x0 |-> IF j = 2 THEN y ELSE Top_(z), niter |-> 10, tol |-> IF j = 3 THEN <<1, 100000000>> ELSE <<1, 10000>>,
                      damp |-> IF ls THEN At(Damps, j + i) ELSE <<0, 1>>, mode |-> At(<<"solve", "class", "phases">>, i + j), calls |-> TRUE, show |-> (j % 2) = 0]))
  IN  IF Top_(w) < 3 THEN w ELSE FoldLeft(run, z, Upto(3))
LProg(f, i, s) ==
  CASE f = "L01" -> L01(i, s) [] f = "L02" -> L02(i, s) [] f \in {"L03", "L19"} -> L03(i, s, FALSE, FALSE) [] f = "L04" -> L03(i, s, FALSE, TRUE) [] f = "L05" -> L03(i, s, TRUE, TRUE)
    [] f = "L06" -> L06(i, s) [] f \in {"L07", "L08"} -> L08(i, s) [] f = "L09" -> L09(i, s) [] f = "L10" -> L10(i, s) [] f = "L11" -> L11(i, s) [] f = "L14" -> L14(i, s, FALSE) [] f = "L15" -> L14(i, s, TRUE)
    [] f = "L20" -> L20(i, s)
LFams == <<"L01", "L02", "L03", "L04", "L05", "L06", "L08", "L09", "L10", "L11", "L20", "L14", "L15">>

(* ---- once more after a change --------------------------------------------*)
(* Some of the requests of a program again, each after one of its operands   *)
(* has been assigned to (at an index, a slice, a column, wholly) or added to.*)
Observing == {"asarray", "ravel", "dot", "norm", "ghost", "add", "sub", "mul", "neg", "conj", "copy", "smul", "mv", "rmv", "dottest", "cg", "cgls"}
Stir(acc, x, s, norm, mult) ==
  LET o == acc.h[x]
      c == 1 + R(s, 2, Len(o.a))
  IN  IF o.k = "stk" THEN Add(acc, [op |-> "setk", x |-> x, c |-> c, val |-> [r \in Procs |-> Data(s, 100 + 40 * r, Len(o.a[c].v[r]), o.a[c].dt, norm, mult)]])
      ELSE IF o.k # "arr" THEN acc
      ELSE IF R(s, 1, 5) = 0 /\ MaxAbs(o) <= 50 THEN Add(acc, [op |-> "iadd", x |-> x, y |-> x])
      ELSE Add(acc, DrawSetOf(s, acc.h, x, norm, mult))
Again(acc, s, norm) ==
  LET seen == SelectSeq(Upto(Len(acc.p)), LAMBDA j : acc.p[j].op \in Observing)
      xs(q) == IF q.op = "dottest" THEN <<q.u, q.w>> ELSE IF q.op \in {"cg", "cgls"} THEN <<q.y, q.x0>> ELSE IF q.op \in {"dot", "add", "sub", "mul"} THEN <<q.x, q.y>> ELSE <<q.x>>
      mult(q) == IF q.op \in {"mv", "rmv", "dottest"} THEN (IF IsOp(acc, q.a) THEN IMin(acc.h[q.a].mult, 2304) ELSE 1) ELSE 1
      one(c, j) == LET q == acc.p[seen[((R(s, 7, Len(seen)) + j * IMax(1, Len(seen) \div 5)) % Len(seen)) + 1]]
                   IN  FoldLeft(LAMBDA d, x : LET st == Stir(d, x, s + 23 * j + x, norm, mult(q)) IN IF st.p = d.p THEN d ELSE Add(st, q), c, xs(q))
  IN  IF seen = <<>> THEN acc ELSE FoldLeft(one, acc, Upto(5))

(* ---- all -----------------------------------------------------------------*)
Total ==
  CASE PROFILE = "E01" -> 60 [] PROFILE = "E02" -> 24 [] PROFILE = "E03" -> 50 [] PROFILE = "E04" -> 100
    [] PROFILE = "E05" -> 2 * (IF P <= 3 THEN 3 ELSE 2) ^ P [] PROFILE = "E06" -> (IF P = 1 THEN 6 ELSE IF P = 2 THEN 25 ELSE IF P = 3 THEN 64 ELSE IF P = 4 THEN 256 ELSE 243)
    [] PROFILE = "E07" -> 12 * E07N [] PROFILE = "E08" -> 3 * 8 ^ IMin(P, 3) [] PROFILE = "E09" -> 4 * E09L [] PROFILE = "E10" -> 27 * 2 ^ P
    [] PROFILE = "E11" -> 99 [] PROFILE = "E12" -> 18 [] PROFILE = "E12A" -> 99 [] PROFILE = "E13" -> 66 [] PROFILE = "E13A" -> 30
    [] PROFILE = "E14" -> 36 [] PROFILE = "E15" -> 48 [] PROFILE = "E17" -> NV [] PROFILE = "E17B" -> 18 [] PROFILE = "E17C" -> 54 [] PROFILE = "E19" -> 30 [] PROFILE = "E19B" -> 72 [] PROFILE = "E20" -> 48
    [] PROFILE \in {LFams[j] : j \in 1..Len(LFams)} \cup {"L07", "L19", "LMIX"} -> 400
    [] PROFILE = "EMIX" -> 500 [] PROFILE = "E18" -> 960
EProg(f, i, s) ==
  CASE f = "E01" -> E01(i, s) [] f = "E02" -> E02(i, s) [] f = "E03" -> E03(i, s) [] f = "E04" -> E04(i, s) [] f = "E05" -> E05(i, s)
    [] f = "E06" -> E06(i, s) [] f = "E07" -> E07(i, s) [] f = "E08" -> E08(i, s) [] f = "E09" -> E09(i, s) [] f = "E10" -> E10(i, s)
    [] f = "E11" -> E11(i, s) [] f = "E12" -> E12(i, s) [] f = "E12A" -> E12A(i, s) [] f = "E13" -> E13(i, s) [] f = "E13A" -> E13A(i, s)
    [] f = "E14" -> E14(i, s) [] f = "E15" -> E15(i, s) [] f = "E17" -> E17(i, s) [] f = "E17B" -> E17B(i, s) [] f = "E17C" -> E17C(i, s) [] f = "E19" -> E19(i, s) [] f = "E19B" -> E19B(i, s) [] f = "E20" -> E20(i, s)
    [] OTHER -> LProg(f, i, s)
Families18 == <<"E09", "E08", "E13A", "E10", "E20", "E11", "E07", "E09", "E13", "E03", "E19", "E08", "E14", "E06", "E04", "E17", "E12A", "E09", "E15", "E05", "E19B", "E12", "E17B", "E01">>
Families == <<"E01", "E03", "E04", "E05", "E06", "E07", "E08", "E09", "E10", "E11", "E12A", "E13", "E13A", "E17", "E19", "E20">>
Coprime(a, b) == \A d \in 2..IMin(a, b) : ~((a % d) = 0 /\ (b % d) = 0)
Stride == LET t == Total IN CHOOSE k2 \in ((t * 5) \div 8 + 1)..(2 * t + 1) : Coprime(k2, t) /\ \A j \in ((t * 5) \div 8 + 1)..(k2 - 1) : ~Coprime(j, t)
EInit == /\ id \in 1..N
         /\ k = 1
         /\ heap = <<>>
         /\ prog = <<>>
EStep == /\ k = 1
         /\ LET i == (((id - 1) * Stride + (SEED % 1000) * 7) % Total)
                s == StepSeed(id, 1)
                pr == IF PROFILE = "E18" THEN EProg(At(Families18, id - 1 + SEED), i \div Len(Families18) + 7 * (id \div Len(Families18)), s)
                      ELSE IF PROFILE = "EMIX" THEN EProg(At(Families, i), i \div Len(Families), s) ELSE EProg(PROFILE, i, s)
                pr2 == IF PROFILE = "LMIX" THEN LProg(At(LFams, i), i \div Len(LFams), s) ELSE IF PROFILE \in {"E18", "E17", "E17B", "E17C", "E02"} THEN pr ELSE Again(pr, s + 3, PROFILE \in {"E04", "E05"})
            IN  PrintT("PROG " \o ToJson([id |-> id, p |-> P, case |-> i, steps |-> pr2.p]))
         /\ k' = 2
         /\ UNCHANGED <<id, heap, prog>>
ESpec == EInit /\ [][EStep]_vars
=============================================================================
