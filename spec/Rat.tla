--------------------------------- MODULE Rat ---------------------------------
(* Exact rational numbers of any size, written "n/d" in lowest terms with    *)
(* d > 0 (strings, since TLC's own integers have 32 bits), and complex       *)
(* rationals <<re, im>>.  The operators of the first group are evaluated by  *)
(* Rat.java; the others are defined from them (Rat.java also evaluates QDot  *)
(* and QAxpy, for speed, with the same meaning).                             *)
EXTENDS Integers, Sequences, SequencesExt

RFrac(n, d) == CHOOSE s \in STRING : s = "n/d in lowest terms"
RAdd(a, b) == CHOOSE s \in STRING : s = "a + b"
RSub(a, b) == CHOOSE s \in STRING : s = "a - b"
RMul(a, b) == CHOOSE s \in STRING : s = "a * b"
RDiv(a, b) == CHOOSE s \in STRING : s = "a / b"
RLe(a, b) == CHOOSE t \in BOOLEAN : t = TRUE     \* a <= b
(* is the string a rational number (and not "nan", say)?                     *)
RIs(a) == CHOOSE t \in BOOLEAN : t = TRUE

R0 == "0/1"
R1 == "1/1"
RLt(a, b) == ~RLe(b, a)
RAbs(a) == IF RLe(R0, a) THEN a ELSE RSub(R0, a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RClose(a, b, tol) == RIs(a) /\ RLe(RAbs(RSub(a, b)), tol)

Q0 == <<R0, R0>>
QFrom(z, d) == <<RFrac(z[1], d), RFrac(z[2], d)>>        \* Gaussian integer over d
QReal(a) == <<a, R0>>
QAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
QMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
QConj(a) == <<a[1], RSub(R0, a[2])>>
QVConj(x) == [i \in 1..Len(x) |-> QConj(x[i])]
QDot(x, y) == FoldLeft(QAdd, Q0, [i \in 1..Len(x) |-> QMul(x[i], y[i])])             \* no conjugation
QAxpy(a, x, y) == [i \in 1..Len(x) |-> QAdd(QMul(a, x[i]), y[i])]                     \* a x + y
QNorm2(x) == QDot(x, QVConj(x))[1]
QMatVec(M, x) == [i \in 1..Len(M) |-> QDot(M[i], x)]
QConjT(M, nc) == [j \in 1..nc |-> [i \in 1..Len(M) |-> QConj(M[i][j])]]
QMaxAbs(x) == FoldLeft(LAMBDA m, z : RMax(m, RMax(RAbs(z[1]), RAbs(z[2]))), R0, x)
QIs(z) == RIs(z[1]) /\ RIs(z[2])
QCloseV(x, y, tol) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : RClose(x[i][1], y[i][1], tol) /\ RClose(x[i][2], y[i][2], tol)
=============================================================================
