------------------------------- MODULE Machine -------------------------------
(* The library as a machine: a heap of arrays, stacks and operators, and     *)
(* requests that all processes make together.  Exec(heap, q) is what a       *)
(* request must do:                                                          *)
(*   st    "must"  it returns on all processes, as specified                 *)
(*         "may"   as specified, or rejected on all processes                *)
(*         "rej"   rejected on all processes                                 *)
(*         "skip"  outside the contract; not requested                       *)
(*   heap  the heap afterwards; a creating request appends one object        *)
(*   ret   what each process is told, or <<>>                                *)
(* A rejected request changes nothing (a creating one appends "none").       *)
EXTENDS Solvers

None == [k |-> "none"]
Creating == {"dist", "new", "neg", "conj", "copy", "zeros", "add", "sub", "mul", "smul", "ravel", "stk",
             "bdiag", "vstack", "hstack", "deriv1", "deriv2", "lapl", "grad", "fred", "mdc", "wrap",
             "H", "T", "Cj", "scale", "negop", "sum", "subop", "prod", "pow", "svstack", "sbdiag", "mv", "rmv"}

Out(st, heap, ret) == [st |-> st, heap |-> heap, ret |-> ret]
Skip(h) == Out("skip", h, <<>>)
RejectIt(h, q) == Out("rej", IF q.op \in Creating THEN Append(h, None) ELSE h, <<>>)
Push(st, h, x) == Out(st, Append(h, x), <<>>)
Tell(st, h, ret) == Out(st, h, ret)

(* ---- magnitudes, so that everything stays exact --------------------------*)
MaxAbsV(v) == FoldLeft(LAMBDA m, z : IMax(m, IMax(IAbs(z[1]), IAbs(z[2]))), 0, v)
MaxAbsA(x) == MaxI([r \in Procs |-> MaxAbsV(x.v[r])])
MaxAbs(x) == IF x.k = "stk" THEN FoldLeft(LAMBDA m, a : IMax(m, MaxAbsA(a)), 0, x.a) ELSE MaxAbsA(x)
Small(x, b) == MaxAbs(x) <= b
Top == 100000
(* has it elements of single precision?                                      *)
Coarse(x) == IF x.k = "stk" THEN \E i \in 1..Len(x.a) : Single(x.a[i].dt) ELSE Single(x.dt)
SizeOf(x) == IF x.k = "stk" THEN SumI([i \in 1..Len(x.a) |-> ProdI(x.a[i].g)]) ELSE ProdI(x.g)
AllDts(x, T(_)) == IF x.k = "stk" THEN \A i \in 1..Len(x.a) : T(x.a[i].dt) ELSE T(x.dt)
SameDts(x, y, T(_, _)) ==
  IF x.k = "stk" THEN \A i \in 1..Len(x.a) : T(x.a[i].dt, y.a[i].dt) ELSE T(x.dt, y.dt)

IsVec(x) == x.k \in {"arr", "stk"}
(* what the references of a request must be, or the request is skipped       *)
Known(h, i) == i \in 1..Len(h) /\ h[i].k # "none"
V(h, i) == Known(h, i) /\ IsVec(h[i])
O(h, i) == Known(h, i) /\ h[i].k = "op"

(* ---- arrays --------------------------------------------------------------*)
ExecDist(h, q) ==
  LET part == q.part
      sz == IF q.sz = <<>> THEN DefSizes(q.g, part, q.ax) ELSE q.sz
  IN  IF q.ax >= Len(q.g) THEN RejectIt(h, q)
      ELSE IF q.bad # "" \/ ~ValidMask(q.mask) \/ ~ValidLayout(q.g, part, q.ax, sz) THEN RejectIt(h, q)
      ELSE Push("must", h, Make(q.d, q.g, part, q.ax, sz, q.mask, q.dt))

(* an array made by its constructor, and then each process assigns its piece *)
ExecNew(h, q) ==
  LET sz == IF q.sz = <<>> THEN DefSizes(q.g, q.part, q.ax) ELSE q.sz
  IN  IF q.ax >= Len(q.g) THEN RejectIt(h, q)
      ELSE IF q.bad # "" \/ ~ValidMask(q.mask) \/ ~ValidLayout(q.g, q.part, q.ax, sz) THEN RejectIt(h, q)
      ELSE Push("must", h, Arr(q.g, q.part, q.ax, sz, q.mask, q.dt,
                               [r \in Procs |-> IF q.part = "B" THEN q.v[1] ELSE q.v[r]]))

ExecSet(h, q) ==
  IF ~Known(h, q.x) THEN Skip(h)
  ELSE LET x == h[q.x]
       IN  IF x.k # "arr" THEN Skip(h)
           ELSE Out("must", [h EXCEPT ![q.x] = SetA(x, q.idx, q.val)], <<>>)
(* component c of a stack                                                    *)
ExecSetK(h, q) ==
  IF ~Known(h, q.x) \/ h[q.x].k # "stk" THEN Skip(h)
  ELSE IF q.c > Len(h[q.x].a) THEN Skip(h)
  ELSE LET x == h[q.x].a[q.c]
           all == [r \in Procs |-> [t |-> "all"]]
       IN  Out("must", [h EXCEPT ![q.x] = [@ EXCEPT !.a = [@ EXCEPT ![q.c] = SetA(x, all, q.val)]]], <<>>)

Unary(h, q, F(_)) ==
  IF ~V(h, q.x) THEN Skip(h)
  ELSE Push("must", h, IF h[q.x].k = "stk" THEN StkMap(F, h[q.x]) ELSE F(h[q.x]))

OkPair(x, y) ==
  IF x.k = "stk" THEN y.k = "stk" /\ StkCompatible(x, y) ELSE y.k = "arr" /\ Compatible(x, y)
Binary(h, q, F(_, _), b) ==
  IF ~V(h, q.x) \/ ~V(h, q.y) \/ h[q.x].k # h[q.y].k THEN Skip(h)
  ELSE LET x == h[q.x]
           y == h[q.y]
       IN  IF ~OkPair(x, y) THEN RejectIt(h, q)
           ELSE IF ~Small(x, b) \/ ~Small(y, b) THEN Skip(h)
           ELSE Push("must", h, IF x.k = "stk" THEN StkMap2(F, x, y) ELSE F(x, y))
InPlace(h, q, F(_, _)) ==
  IF ~V(h, q.x) \/ ~V(h, q.y) \/ h[q.x].k # h[q.y].k THEN Skip(h)
  ELSE LET x == h[q.x]
           y == h[q.y]
       IN  IF ~OkPair(x, y) THEN RejectIt(h, q)
           ELSE IF ~Small(x, Top) \/ ~Small(y, Top) \/ ~SameDts(x, y, Holds) THEN Skip(h)
           ELSE Out("must", [h EXCEPT ![q.x] = IF x.k = "stk" THEN StkMap2(F, x, y) ELSE F(x, y)], <<>>)

ExecSMul(h, q) ==
  IF ~V(h, q.x) \/ ~Small(h[q.x], Top) THEN Skip(h)
  ELSE LET F(a) == SMulA(a, q.s, q.sk)
       IN  Push("must", h, IF h[q.x].k = "stk" THEN StkMap(F, h[q.x]) ELSE F(h[q.x]))

ExecRavel(h, q) ==
  IF ~Known(h, q.x) \/ h[q.x].k # "arr" THEN Skip(h) ELSE Push("must", h, RavelA(h[q.x], q.order))

ExecDot(h, q) ==
  IF ~V(h, q.x) \/ ~V(h, q.y) \/ h[q.x].k # h[q.y].k THEN Skip(h)
  ELSE LET x == h[q.x]
           y == h[q.y]
       IN  IF ~OkPair(x, y) THEN RejectIt(h, q)
           ELSE IF ~Small(x, IF Coarse(x) THEN 200 ELSE 3000) \/ ~Small(y, IF Coarse(y) THEN 200 ELSE 3000) THEN Skip(h)
           ELSE Tell("must", h, IF x.k = "stk" THEN StkDot(x, y) ELSE DotA(x, y))

(* orders for which the masses of the elements are small integers            *)
AllV(x) == IF x.k = "stk" THEN FoldLeft(LAMBDA acc, a : acc \o FoldLeft(LAMBDA b, v : b \o v, <<>>, a.v), <<>>, x.a)
           ELSE FoldLeft(LAMBDA b, v : b \o v, <<>>, x.v)
IsSquare(n) == \E k \in 0..n : k * k = n
OrdOK(x, ord) ==
  CASE ord = "0" -> TRUE
    [] ord = "2" -> Small(x, IF Coarse(x) THEN 500 ELSE 3000)
    [] ord = "4" -> Small(x, IF Coarse(x) THEN 9 ELSE 40)
    [] ord \in {"1", "3", "inf", "-inf"} ->
         Small(x, IF ord = "3" THEN (IF Coarse(x) THEN 30 ELSE 200) ELSE 500) /\ \A i \in 1..Len(AllV(x)) : CAbs(AllV(x)[i]) >= 0
    [] ord = "half" ->
         Small(x, 400) /\ \A i \in 1..Len(AllV(x)) : CAbs(AllV(x)[i]) >= 0 /\ IsSquare(CAbs(AllV(x)[i]))
ExecNorm(h, q) ==
  IF ~V(h, q.x) THEN Skip(h)
  ELSE LET x == h[q.x]
       IN  IF x.k = "stk"
           THEN IF q.axis # -1 \/ ~OrdOK(x, q.ord) THEN Skip(h) ELSE Tell("must", h, StkNorm(x, q.ord))
           ELSE IF q.axis # -1 /\ q.axis >= Len(x.g) THEN Skip(h)
           ELSE IF q.axis # -1 /\ q.axis # (IF Repl(x) THEN 0 ELSE x.ax) THEN RejectIt(h, q)
           ELSE IF ~OrdOK(x, q.ord) THEN Skip(h)
           ELSE Tell("must", h, NormA(x, q.ord, q.axis))

ExecGhost(h, q) ==
  IF ~Known(h, q.x) \/ h[q.x].k # "arr" \/ Repl(h[q.x]) THEN Skip(h)
  ELSE LET x == h[q.x]
           w == GhostA(x, q.cf, q.cb)
           n(r) == x.sz[r] + (IF r > 1 /\ q.cf # <<>> THEN q.cf[r] ELSE 0) + (IF r < P /\ q.cb # <<>> THEN q.cb[r] ELSE 0)
       IN  IF ~GhostOK(x, q.cf, q.cb)
           THEN RejectIt(h, q)
           ELSE Tell("must", h, [r \in Procs |-> [sh |-> SetAx(x.g, x.ax, n(r)), v |-> w[r]]])

ExecAsarray(h, q) ==
  IF ~V(h, q.x) THEN Skip(h)
  ELSE LET x == h[q.x]
           own(a, r) == IF a.part = "S" THEN Global(a) ELSE a.v[r]
       IN  Tell("must", h,
                [r \in Procs |->
                  IF x.k = "stk"
                  THEN LET d == FoldLeft(LAMBDA acc, a : acc \o own(a, r), <<>>, x.a) IN [sh |-> <<Len(d)>>, v |-> d]
                  ELSE [sh |-> x.g, v |-> own(x, r)]])

ExecShapes(h, q) ==
  IF ~Known(h, q.x) \/ h[q.x].k # "arr" THEN Skip(h)
  ELSE Tell("must", h, [r \in Procs |-> LShapes(h[q.x])])

ExecStk(h, q) ==
  IF \E i \in 1..Len(q.xs) : ~Known(h, q.xs[i]) \/ h[q.xs[i]].k # "arr" THEN Skip(h)
  ELSE Push("must", h, Stk([i \in 1..Len(q.xs) |-> h[q.xs[i]]]))

(* ---- operators -----------------------------------------------------------*)
(* gain bounds by how much an operator enlarges; mult is what its input      *)
(* should be divisible by                                                    *)
Op(t, rows, cols, dt, gain, mult, more) ==
  [k |-> "op", t |-> t, rows |-> rows, cols |-> cols, dt |-> dt, gain |-> gain, mult |-> mult, stk |-> FALSE] @@ more
MaxGain == 30000
PushOp(st, h, A) == IF A.gain > MaxGain THEN Skip(h) ELSE Push(st, h, A)

MaxM(m) == FoldLeft(LAMBDA a, rw : IMax(a, MaxAbsV(rw)), 0, m)
(* element type of a stack of blocks: given, or what holds all of them       *)
BlocksDt(q) ==
  LET bs == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, q.blocks)
  IN  IF q.dt # "" THEN q.dt ELSE FoldLeft(LAMBDA d, b : Promote(d, b.dt), bs[1].dt, bs)
StackOp(h, q, t) ==
  LET bs == FoldLeft(LAMBDA acc, b : acc \o b, <<>>, q.blocks)
      nrs == SumI([i \in 1..Len(bs) |-> bs[i].nr])
      ncs == SumI([i \in 1..Len(bs) |-> bs[i].nc])
      rows == IF t = "hstack" THEN bs[1].nr ELSE nrs
      cols == IF t = "vstack" THEN bs[1].nc ELSE ncs
      dt == BlocksDt(q)
      gain == 2 * IMax(rows, cols) * FoldLeft(LAMBDA a, b : IMax(a, MaxM(b.m)), 1, bs)
  IN  IF \E r \in Procs : q.blocks[r] = <<>> THEN RejectIt(h, q)
      ELSE IF t = "vstack" /\ \E i \in 1..Len(bs) : bs[i].nc # bs[1].nc THEN RejectIt(h, q)
      ELSE IF t = "hstack" /\ \E i \in 1..Len(bs) : bs[i].nr # bs[1].nr THEN RejectIt(h, q)
      ELSE IF \E i \in 1..Len(bs) : ~Holds(dt, bs[i].dt) THEN Skip(h)
      ELSE PushOp("must", h, Op(t, rows, cols, dt, gain, 1, [blocks |-> q.blocks, mask |-> q.mask]))

Known1(kind, order) == kind \in {"forward", "backward"} \/ (kind = "centered" /\ order \in {3, 5})
SGain(sm) == 8 * sm[2] * sm[2]
ExecDeriv1(h, q) ==
  LET n == ProdI(q.dims)
  IN  IF ~Known1(q.kind, q.order) THEN RejectIt(h, q)
      ELSE PushOp("must", h, Op("deriv1", n, n, q.dt, SGain(q.samp), 48,
                    [dims |-> q.dims, kind |-> q.kind, order |-> q.order, edge |-> q.edge, samp |-> q.samp]))
ExecDeriv2(h, q) ==
  LET n == ProdI(q.dims)
  IN  IF q.kind \notin {"forward", "backward", "centered"} THEN RejectIt(h, q)
      ELSE PushOp("must", h, Op("deriv2", n, n, q.dt, SGain(q.samp), 48,
                    [dims |-> q.dims, kind |-> q.kind, edge |-> q.edge, samp |-> q.samp]))
(* axes may be negative                                                      *)
NormAxis(a, nd) == IF a < 0 THEN a + nd ELSE a
ExecLapl(h, q) ==
  LET n == ProdI(q.dims)
      nd == Len(q.dims)
      ok == \A i \in 1..Len(q.axes) : NormAxis(q.axes[i], nd) \in 0..(nd - 1)
      wmax == SumI([i \in 1..Len(q.wts) |-> IAbs(q.wts[i])])
      smax == FoldLeft(LAMBDA a, s : IMax(a, SGain(s)), 1, q.samp)
  IN  IF ~ok \/ Len(q.wts) # Len(q.axes) \/ Len(q.samp) # Len(q.axes) THEN RejectIt(h, q)
      ELSE IF q.kind \notin {"forward", "backward", "centered"} THEN RejectIt(h, q)
      ELSE PushOp("must", h, Op("lapl", n, n, q.dt, IMax(1, wmax) * smax, 48,
                    [dims |-> q.dims, axes |-> [i \in 1..Len(q.axes) |-> NormAxis(q.axes[i], nd)],
                     wts |-> q.wts, samp |-> q.samp, kind |-> q.kind, edge |-> q.edge]))
ExecGrad(h, q) ==
  LET n == ProdI(q.dims)
  IN  PushOp("must", h, [Op("grad", n * Len(q.dims), n, q.dt, FoldLeft(LAMBDA a, s : a + SGain(s), 0, q.samp), 48,
                      [dims |-> q.dims, kind |-> q.kind, edge |-> q.edge, samp |-> q.samp, ops |-> GradOps(q)])
                    EXCEPT !.stk = TRUE])
ExecFred(h, q) ==
  LET nsl == SumI([r \in Procs |-> Len(q.G[r])])
      top == FoldLeft(LAMBDA a, g : IMax(a, FoldLeft(LAMBDA b, m : IMax(b, MaxM(m)), 0, g)), 1, q.G)
  IN  IF \E r \in Procs : Len(q.G[r]) = 1 THEN RejectIt(h, q)
      ELSE IF \E r \in Procs : Len(q.G[r]) = 0 THEN Skip(h)
      ELSE PushOp("must", h, Op("fred", nsl * q.nx * q.nz, nsl * q.ny * q.nz, q.dt, 2 * IMax(q.nx, q.ny) * top, 1,
                    [G |-> q.G, nx |-> q.nx, ny |-> q.ny, nz |-> q.nz]))
(* number of frequencies kept of a time axis                                 *)
NFreq(nt) == nt \div 2 + 1
(* frequencies left out have to be absent from the kernel: constant kernels   *)
(* only have the first, and an alternating sum of zero means not the last     *)
Absent(q) ==
  LET tot == SumI(q.nfs)
      alt(i, j) == SumC([t \in 1..q.nt |-> IF (t % 2) = 1 THEN q.K[t][i][j] ELSE CNeg(q.K[t][i][j])])
  IN  \/ \A t \in 1..q.nt : q.K[t] = q.K[1]
      \/ (q.nt % 2) = 0 /\ tot = NFreq(q.nt) - 1 /\ \A i \in 1..q.ns, j \in 1..q.nr : alt(i, j) = Z0
ExecMdc(h, q) ==
  LET top == FoldLeft(LAMBDA a, m : IMax(a, MaxM(m)), 1, q.K)
  IN  IF q.two /\ q.nt % 2 = 0 THEN RejectIt(h, q)
      ELSE IF \E r \in Procs : q.nfs[r] = 1 THEN RejectIt(h, q)
      ELSE IF SumI(q.nfs) > NFreq(q.nt) \/ (SumI(q.nfs) < NFreq(q.nt) /\ ~Absent(q)) \/ \E r \in Procs : q.nfs[r] = 0 THEN Skip(h)
      ELSE PushOp("must", h, Op("mdc", q.nt * q.ns * q.nv, q.nt * q.nr * q.nv, q.dt, q.nt * IMax(q.ns, q.nr) * top * IMax(1, q.c), q.d,
                    [nt |-> q.nt, ns |-> q.ns, nr |-> q.nr, nv |-> q.nv, K |-> q.K, two |-> q.two,
                     conj |-> q.conj, c |-> q.c, d |-> q.d]))
ExecWrap(h, q) ==
  PushOp("must", h, Op("wrap", q.nr, q.nc, q.dt, 2 * IMax(q.nr, q.nc) * IMax(1, IMax(MaxM(q.M), MaxM(q.Mh))), 1,
                    [M |-> q.M, Mh |-> q.Mh]))

Derived(t, A, more) ==
  [k |-> "op", t |-> t, rows |-> A.rows, cols |-> A.cols, dt |-> A.dt, gain |-> A.gain, mult |-> A.mult, stk |-> A.stk] @@ more
Flip(t, A) == [Derived(t, A, [A |-> A]) EXCEPT !.rows = A.cols, !.cols = A.rows]
(* multiples stop at MaxMult + 1: operators that would need more are left out *)
MaxMult == 100000
CapTimes(a, b) == IF a > MaxMult \div b THEN MaxMult + 1 ELSE a * b
CapPow(a, p) == FoldLeft(LAMBDA m, i : CapTimes(m, a), 1, [i \in 1..p |-> i])
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
Lcm(a, b) == IF a > MaxMult \/ b > MaxMult THEN MaxMult + 1 ELSE CapTimes(a \div GcdI(a, b), b)
PushMult(st, h, A) == IF A.mult > MaxMult THEN Skip(h) ELSE PushOp(st, h, A)

ExecOp1(h, q) ==
  IF ~O(h, q.a) THEN Skip(h)
  ELSE LET A == h[q.a]
       IN  CASE q.op \in {"H", "T"} -> PushOp("must", h, Flip(q.op, A))
             [] q.op = "Cj" -> PushOp("must", h, Derived("Cj", A, [A |-> A]))
             [] q.op \in {"scale", "negop"} ->
                  LET s == IF q.op = "negop" THEN <<-1, 0>> ELSE q.s
                      sk == IF q.op = "negop" THEN "int" ELSE q.sk
                  IN  PushOp("must", h, [Derived("scale", A, [A |-> A, s |-> s, sk |-> sk])
                                     EXCEPT !.gain = @ * 2 * IMax(1, MaxAbsV(<<s>>)), !.dt = PromoteScalar(A.dt, sk)])
             [] q.op = "pow" ->
                  IF A.rows # A.cols \/ q.p < 0 THEN RejectIt(h, q)
                  ELSE IF A.gain > 1000 \/ (q.p > 2 /\ A.gain > 30) \/ (q.p > 3 /\ A.gain > 8) \/ q.p > 6 THEN Skip(h)
                  ELSE PushMult("must", h, [Derived("pow", A, [A |-> A, p |-> q.p])
                                      EXCEPT !.gain = IMax(1, Pow(A.gain, q.p)), !.mult = CapPow(A.mult, IMax(1, q.p))])

RECURSIVE Unscaled(_)
Unscaled(A) == IF A.t = "scale" THEN Unscaled(A.A) ELSE A
ExecOp2(h, q) ==
  IF ~O(h, q.a) \/ ~O(h, q.b) THEN Skip(h)
  ELSE LET A == h[q.a]
           B0 == h[q.b]
           B == IF q.op = "subop" THEN Derived("scale", B0, [A |-> B0, s |-> <<-1, 0>>, sk |-> "int"]) ELSE B0
       IN  IF A.stk # B.stk THEN RejectIt(h, q)
           ELSE IF q.op \in {"sum", "subop"}
           THEN IF A.rows # B.rows \/ A.cols # B.cols THEN RejectIt(h, q)
                ELSE PushMult(IF A.stk /\ Unscaled(A).t # Unscaled(B).t THEN "may" ELSE "must", h,
                            [Derived("sum", A, [A |-> A, B |-> B])
                             EXCEPT !.gain = A.gain + B.gain, !.dt = Promote(A.dt, B.dt), !.mult = Lcm(A.mult, B.mult)])
           ELSE IF A.cols # B.rows THEN RejectIt(h, q)
           ELSE IF A.gain > 1000 \/ B.gain > 1000 \/ A.gain * B.gain > MaxGain THEN Skip(h)
           ELSE PushMult(IF A.stk /\ A.t = B.t THEN "may" ELSE "must", h,
                       [Derived("prod", A, [A |-> A, B |-> B])
                        EXCEPT !.cols = B.cols, !.gain = A.gain * B.gain, !.dt = Promote(A.dt, B.dt), !.mult = CapTimes(A.mult, B.mult)])

ExecStackOps(h, q) ==
  IF \E i \in 1..Len(q.as) : ~O(h, q.as[i]) \/ h[q.as[i]].stk THEN Skip(h)
  ELSE LET ops == [i \in 1..Len(q.as) |-> h[q.as[i]]]
           rows == SumI([i \in 1..Len(ops) |-> ops[i].rows])
           cols == IF q.op = "svstack" THEN ops[1].cols ELSE SumI([i \in 1..Len(ops) |-> ops[i].cols])
           dt == FoldLeft(LAMBDA d, A : Promote(d, A.dt), ops[1].dt, ops)
       IN  IF q.op = "svstack" /\ \E i \in 1..Len(ops) : ops[i].cols # cols THEN RejectIt(h, q)
           ELSE PushMult("must", h, [Op(q.op, rows, cols, dt, SumI([i \in 1..Len(ops) |-> ops[i].gain]),
                                FoldLeft(LAMBDA m, A : Lcm(m, A.mult), 1, ops), [ops |-> ops]) EXCEPT !.stk = TRUE])

(* ---- application ---------------------------------------------------------*)
AgreedV(x) == IF x.k = "stk" THEN \A i \in 1..Len(x.a) : Agreed(x.a[i]) ELSE Agreed(x)
ExecApply(h, q) ==
  IF ~O(h, q.a) \/ ~V(h, q.x) THEN Skip(h)
  ELSE LET A == h[q.a]
           x == h[q.x]
           adj == q.op = "rmv"
       IN  IF ~AgreedV(x) \/ MaxAbs(x) > (IF Single(A.dt) \/ Coarse(x) THEN 400000 ELSE 10000000) \div A.gain THEN Skip(h)
           ELSE LET r == Apply(A, x, adj)
                IN  IF r.st = "skip" THEN Skip(h)
                    ELSE IF r.st = "rej" THEN RejectIt(h, q)
                    ELSE Push(r.st, h, r.y)

(* the dot test: raises or tells whether the two inner products agree within *)
(* the tolerances rt[1] / rt[2] and at                                       *)
ExecDottest(h, q) ==
  IF ~O(h, q.a) \/ ~V(h, q.u) \/ ~V(h, q.w) THEN Skip(h)
  ELSE LET A == h[q.a]
           u == h[q.u]
           w == h[q.w]
       IN  IF ~AgreedV(u) \/ ~AgreedV(w)
              \/ MaxAbs(u) > 100000 \div A.gain \/ MaxAbs(w) > 100000 \div A.gain \/ ~Small(u, 1000) \/ ~Small(w, 1000) THEN Skip(h)
           ELSE IF q.nr # A.rows \/ q.nc # A.cols THEN RejectIt(h, q)
           ELSE LET y == Apply(A, u, FALSE)
                    x == Apply(A, w, TRUE)
                    g(z) == IF z.k = "stk" THEN StkGlobal(z) ELSE Global(z)
                IN  IF y.st = "skip" \/ x.st = "skip" THEN Skip(h)
                    ELSE IF y.st = "rej" \/ x.st = "rej" THEN RejectIt(h, q)
                    ELSE LET yy == VHDot(g(y.y), g(w))
                             xx == VHDot(g(u), g(x.y))
                             d == CSub(xx, yy)
                             big == IMax(MaxAbsV(<<xx>>), MaxAbsV(<<yy>>))
                             sq(z) == CAbs2(z)
                             \* within, judged with either one as the reference
                             small == sq(d) <= 2000000000 \div (q.rt[2] * q.rt[2])
                             in(b) == small /\ q.rt[2] * q.rt[2] * sq(d) <= q.rt[1] * q.rt[1] * sq(b)
                             edge(b) == small /\ q.rt[2] * q.rt[2] * sq(d) = q.rt[1] * q.rt[1] * sq(b) /\ d # Z0
                         IN  IF big > 3000 THEN (IF d = Z0 THEN Tell(Weaken(x.st, y).st, h, [r \in Procs |-> TRUE]) ELSE Skip(h))
                             ELSE IF q.rt[1] > 0 /\ (in(xx) # in(yy) \/ edge(xx) \/ edge(yy)) THEN Skip(h)
                             ELSE IF q.rt[1] = 0 /\ sq(d) = q.at * q.at /\ d # Z0 THEN Skip(h)
                             ELSE LET pass == d = Z0 \/ (IF q.rt[1] > 0 THEN in(yy) ELSE sq(d) < q.at * q.at)
                                  IN  IF ~pass /\ q.raise THEN RejectIt(h, q)
                                      ELSE Tell(Weaken(x.st, y).st, h, [r \in Procs |-> pass])

(* ---- solvers -------------------------------------------------------------*)
(* What a run tells is judged by SolverFaults (in module Solvers), since its *)
(* numbers are rounded; here is only whether the run must go through.        *)
SolverSized(A) == A.rows <= 14 /\ A.cols <= 14 /\ A.rows > 0 /\ A.cols > 0
ZerosV(x) == IF x.k = "stk" THEN StkMap(ZerosA, x) ELSE ZerosA(x)
PlainV(x) == \A i \in 1..Len(Comps(x)) :
               /\ Comps(x)[i].part \in {"S", "B"}
               /\ Len(Comps(x)[i].g) = 1
               /\ Comps(x)[i].mask = MaskOf(x)
               /\ MaskOf(x) # <<>> => Comps(x)[i].part = "S"
ExecSolve(h, q) ==
  IF ~O(h, q.a) \/ ~V(h, q.y) \/ ~V(h, q.x0) THEN Skip(h)
  ELSE LET A == h[q.a]
           y == h[q.y]
           x == h[q.x0]
           dt == Comps(x)[1].dt
           isdt(d) == d = dt
       IN  IF dt \notin {"f8", "c16"} \/ ~AllDts(x, isdt) \/ ~AllDts(y, isdt) \/ ~PlainV(x) \/ ~PlainV(y) \/ ~SolverSized(A)
              \/ ~Small(x, 2000) \/ ~Small(y, 2000000) THEN Skip(h)
           ELSE LET Ax == Apply(A, ZerosV(x), FALSE)
                IN  IF Ax.st = "rej" THEN RejectIt(h, q)
                    ELSE IF Ax.st # "must" \/ y.k # Ax.y.k THEN Skip(h)
                    ELSE IF ~OkPair(y, Ax.y) THEN RejectIt(h, q)
                    ELSE IF ~AllDts(Ax.y, isdt) \/ MaskOf(x) # MaskOf(y) THEN Skip(h)
                    ELSE IF q.op = "cg" THEN (IF x.k # y.k THEN Skip(h) ELSE IF ~OkPair(x, y) \/ ~GroupsUncoupled(A, y, x) THEN Skip(h) ELSE Tell("must", h, <<>>))
                    ELSE LET Ay == Apply(A, ZerosV(y), TRUE)
                         IN  IF Ay.st = "rej" THEN RejectIt(h, q)
                             ELSE IF Ay.st # "must" \/ Ay.y.k # x.k THEN Skip(h)
                             ELSE IF ~OkPair(Ay.y, x) THEN RejectIt(h, q)
                             ELSE IF ~AllDts(Ay.y, isdt) \/ ~GroupsUncoupled(A, y, x) THEN Skip(h)
                             ELSE Tell("must", h, <<>>)

Exec(h, q) ==
  CASE q.op = "dist" -> ExecDist(h, q)
    [] q.op = "new" -> ExecNew(h, q)
    [] q.op = "set" -> ExecSet(h, q)
    [] q.op = "setk" -> ExecSetK(h, q)
    [] q.op = "neg" -> Unary(h, q, NegA)
    [] q.op = "conj" -> Unary(h, q, ConjA)
    [] q.op = "copy" -> Unary(h, q, CopyA)
    [] q.op = "zeros" -> IF Known(h, q.x) /\ h[q.x].k = "stk" THEN Skip(h) ELSE Unary(h, q, ZerosA)
    [] q.op = "add" -> Binary(h, q, AddA, Top)
    [] q.op = "sub" -> Binary(h, q, SubA, Top)
    [] q.op = "mul" -> Binary(h, q, MulA, 1000)
    [] q.op = "smul" -> ExecSMul(h, q)
    [] q.op = "iadd" -> InPlace(h, q, IAddA)
    [] q.op = "isub" -> InPlace(h, q, ISubA)
    [] q.op = "ravel" -> ExecRavel(h, q)
    [] q.op = "dot" -> ExecDot(h, q)
    [] q.op = "norm" -> ExecNorm(h, q)
    [] q.op = "ghost" -> ExecGhost(h, q)
    [] q.op = "asarray" -> ExecAsarray(h, q)
    [] q.op = "shapes" -> ExecShapes(h, q)
    [] q.op = "stk" -> ExecStk(h, q)
    [] q.op \in {"bdiag", "vstack", "hstack"} -> StackOp(h, q, q.op)
    [] q.op = "deriv1" -> ExecDeriv1(h, q)
    [] q.op = "deriv2" -> ExecDeriv2(h, q)
    [] q.op = "lapl" -> ExecLapl(h, q)
    [] q.op = "grad" -> ExecGrad(h, q)
    [] q.op = "fred" -> ExecFred(h, q)
    [] q.op = "mdc" -> ExecMdc(h, q)
    [] q.op = "wrap" -> ExecWrap(h, q)
    [] q.op \in {"H", "T", "Cj", "scale", "negop", "pow"} -> ExecOp1(h, q)
    [] q.op \in {"sum", "subop", "prod"} -> ExecOp2(h, q)
    [] q.op \in {"svstack", "sbdiag"} -> ExecStackOps(h, q)
    [] q.op \in {"mv", "rmv"} -> ExecApply(h, q)
    [] q.op = "dottest" -> ExecDottest(h, q)
    [] q.op \in {"cg", "cgls"} -> ExecSolve(h, q)
=============================================================================
