-------------------------------- MODULE CInt --------------------------------
(* Gaussian integers <<re, im>>, sequences of them, and dense matrices.      *)
(* All data of the conformance checks are Gaussian integers, on which the    *)
(* floating-point code under test is exact.                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Z0 == <<0, 0>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
CScale(n, a) == <<n * a[1], n * a[2]>>
CAbs2(a) == a[1] * a[1] + a[2] * a[2]
IAbs(n) == IF n < 0 THEN -n ELSE n
IMax(a, b) == IF a >= b THEN a ELSE b
IMin(a, b) == IF a <= b THEN a ELSE b

(* |z| where it is an integer, and -1 where it is not                        *)
CAbs(a) == IF a[2] = 0 THEN IAbs(a[1])
           ELSE IF a[1] = 0 THEN IAbs(a[2])
           ELSE LET m == IAbs(a[1]) + IAbs(a[2])
                IN  IF \E n \in 0..m : n * n = CAbs2(a)
                    THEN CHOOSE n \in 0..m : n * n = CAbs2(a)
                    ELSE -1

(* exact division by an integer; Bad marks values that are not integers      *)
Bad == <<2000000077, 0>>
CDiv(a, d) == IF a[1] % d = 0 /\ a[2] % d = 0 THEN <<a[1] \div d, a[2] \div d>> ELSE Bad

HasBad(v) == \E i \in 1..Len(v) : v[i] = Bad

SumI(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
ProdI(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)
SumC(s) == FoldLeft(CAdd, Z0, s)
MaxI(s) == FoldLeft(IMax, s[1], s)
MinI(s) == FoldLeft(IMin, s[1], s)

VAdd(x, y) == [i \in 1..Len(x) |-> CAdd(x[i], y[i])]
VMul(x, y) == [i \in 1..Len(x) |-> CMul(x[i], y[i])]
VNeg(x) == [i \in 1..Len(x) |-> CNeg(x[i])]
VConj(x) == [i \in 1..Len(x) |-> CConj(x[i])]
VScale(a, x) == [i \in 1..Len(x) |-> CMul(a, x[i])]
VDiv(x, d) == [i \in 1..Len(x) |-> CDiv(x[i], d)]
VZero(n) == [i \in 1..n |-> Z0]
VDot(x, y) == SumC(VMul(x, y))              \* no conjugation
VHDot(x, y) == SumC(VMul(VConj(x), y))      \* conjugates x

(* matrices: sequences of rows; nc is passed along for matrices without rows *)
MatVec(M, x) == [i \in 1..Len(M) |-> VDot(M[i], x)]
MatHVec(M, nc, x) == [j \in 1..nc |-> SumC([i \in 1..Len(M) |-> CMul(CConj(M[i][j]), x[i])])]
MConjT(M, nc) == [j \in 1..nc |-> [i \in 1..Len(M) |-> CConj(M[i][j])]]
MMul(A, B, nc) == [i \in 1..Len(A) |-> [j \in 1..nc |-> SumC([k \in 1..Len(B) |-> CMul(A[i][k], B[k][j])])]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MScale(a, A) == [i \in 1..Len(A) |-> VScale(a, A[i])]
MConj(A) == [i \in 1..Len(A) |-> VConj(A[i])]
MEye(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN <<1, 0>> ELSE Z0]]
=============================================================================
