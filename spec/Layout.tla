------------------------------- MODULE Layout -------------------------------
(* How a global array is cut into the pieces of the processes.               *)
(* Arrays are flat sequences in row-major order together with a shape;       *)
(* axes are numbered from 0, processes from 1.                               *)
EXTENDS CInt

(* the balanced split: the remainder goes to the lowest ranks                *)
Balanced(n, P) == [r \in 1..P |-> n \div P + (IF r <= n % P THEN 1 ELSE 0)]

(* offsets of the pieces: P + 1 cumulative sums                              *)
Offs(sz) == FoldLeft(LAMBDA acc, n : Append(acc, acc[Len(acc)] + n), <<0>>, sz)

SetAx(g, ax, n) == [g EXCEPT ![ax + 1] = n]
Inner(g, ax) == ProdI(SubSeq(g, ax + 2, Len(g)))
Outer(g, ax) == ProdI(SubSeq(g, 1, ax))

(* elements lo..hi-1 along the axis (0-based, hi exclusive)                  *)
Window(x, g, ax, lo, hi) ==
  LET inner == Inner(g, ax)
      n == g[ax + 1]
      m == hi - lo
  IN  [i \in 1..(Outer(g, ax) * m * inner) |->
        LET f == i - 1
            c == (f \div inner) % m
            o == f \div (inner * m)
        IN  x[(o * n + lo + c) * inner + (f % inner) + 1]]

Scatter(x, g, ax, sz) ==
  LET off == Offs(sz) IN [r \in 1..Len(sz) |-> Window(x, g, ax, off[r], off[r + 1])]

Gather(v, g, ax, sz) ==
  LET inner == Inner(g, ax)
      n == g[ax + 1]
      off == Offs(sz)
      own == [c \in 0..(n - 1) |-> CHOOSE r \in 1..Len(sz) : off[r] <= c /\ c < off[r + 1]]
  IN  [i \in 1..ProdI(g) |->
        LET f == i - 1
            c == (f \div inner) % n
            o == f \div (inner * n)
            r == own[c]
        IN  v[r][(o * sz[r] + c - off[r]) * inner + (f % inner) + 1]]

(* row-major position of the k-th element in column-major order              *)
RECURSIVE FtoC(_, _)
FtoC(k, sh) ==
  IF Len(sh) = 0 THEN 0
  ELSE (k % sh[1]) * ProdI(Tail(sh)) + FtoC(k \div sh[1], Tail(sh))

FRavel(x, sh) == [i \in 1..Len(x) |-> x[FtoC(i - 1, sh) + 1]]

ValidSizes(sz, n, P) == Len(sz) = P /\ SumI(sz) = n /\ \A r \in 1..P : sz[r] >= 0

(* Can a vector move from one layout to another with transfers between       *)
(* neighbours only?  What each process lacks in front must be on its left    *)
(* neighbour, what it lacks at the back on its right neighbour.              *)
NeighboursSuffice(src, dst) ==
  LET so == Offs(src)
      do == Offs(dst)
      P == Len(src)
  IN  \A r \in 1..P :
        LET front == IMax(0, so[r] - do[r])
            back == IMax(0, do[r + 1] - so[r + 1])
        IN  /\ r > 1 => front <= src[r - 1]
            /\ r < P => back <= src[r + 1]
=============================================================================
