------------------------------- MODULE Exchange -------------------------------
(* The exchange of ghost cells between neighbouring processes, message by    *)
(* message, and the redistribution of an array that is built on it.          *)
(* Every process first learns what all processes ask for and hold (so that   *)
(* all of them reject a request or none does).  Then the pieces travel       *)
(* forwards: a process receives from its left neighbour before it sends to   *)
(* its right one; then backwards: a process sends to its left neighbour      *)
(* before it receives from its right one.  A send buffers its message or     *)
(* waits for the receiver, as the message layer pleases.                     *)
(* All layouts of up to B elements on P processes and all requests of up to  *)
(* R cells are gone through (job "ghost"), or all pairs of layouts (job      *)
(* "move").                                                                  *)
EXTENDS Arrays, TLC

CONSTANTS B, R, JOB

VARIABLES src,      \* sizes of the pieces
          dst,      \* and those wanted (job "move")
          front, back,   \* cells asked for by each process (0: none)
          ok,       \* was the request accepted? (per process)
          pc, sent, chan, got
vars == <<src, dst, front, back, ok, pc, sent, chan, got>>

Layouts(n) == {f \in [Procs -> 0..n] : SumI(f) = n}
Data(n) == [i \in 1..n |-> <<i, 0>>]
N == SumI(src)
Piece(r) == LET o == Offs(src) IN SubSeq(Data(N), o[r] + 1, o[r + 1])
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
FirstN(s, n) == SubSeq(s, 1, n)

(* what a redistribution asks for: the differences of the running totals     *)
Dif(s, d, r) == LET a == Offs(s) b == Offs(d) IN b[r + 1] - a[r + 1]
FrontOf(s, d) == [r \in Procs |-> IF r = 1 THEN 0 ELSE IMax(0, -Dif(s, d, r - 1))]
BackOf(s, d) == [r \in Procs |-> IMax(0, Dif(s, d, r))]

Steps == <<"check", "recvL", "sendR", "sendL", "recvR", "end">>
Init ==
  /\ \E n \in 0..B : src \in Layouts(n)
  /\ IF JOB = "move"
     THEN dst \in Layouts(N) /\ front = FrontOf(src, dst) /\ back = BackOf(src, dst)
     ELSE dst = src /\ front \in [Procs -> 0..R] /\ back \in [Procs -> 0..R]
  /\ ok = [r \in Procs |-> TRUE]
  /\ pc = [r \in Procs |-> 1]
  /\ sent = [r \in Procs |-> FALSE]
  /\ chan = [f \in Procs |-> [t \in Procs |-> <<>>]]
  /\ got = [r \in Procs |-> Piece(r)]

(* everybody knows all sizes and requests: a collective, here one step       *)
Fits == /\ \A r \in 2..P : front[r] <= src[r - 1]
        /\ \A r \in 1..(P - 1) : back[r] <= src[r + 1]
At(r, what) == ok[r] /\ Steps[pc[r]] = what
Go(r) == pc' = [pc EXCEPT ![r] = @ + 1]
Check == /\ \A r \in Procs : At(r, "check")
         /\ ok' = [r \in Procs |-> Fits]
         /\ pc' = [r \in Procs |-> IF Fits THEN 2 ELSE 6]
         /\ UNCHANGED <<src, dst, front, back, sent, chan, got>>

Put(f, t, m) == chan' = [chan EXCEPT ![f][t] = Append(@, m)]
Take(f, t) == chan' = [chan EXCEPT ![f][t] = Tail(@)]
(* begin a send: then it may go on at once, or when its message is taken     *)
Send(r, t, m) ==
  IF ~sent[r]
  THEN /\ Put(r, t, m)
       /\ \/ Go(r) /\ UNCHANGED sent
          \/ sent' = [sent EXCEPT ![r] = TRUE] /\ UNCHANGED pc
  ELSE /\ chan[r][t] = <<>>
       /\ sent' = [sent EXCEPT ![r] = FALSE]
       /\ Go(r)
       /\ UNCHANGED chan
Fixed == UNCHANGED <<src, dst, front, back, ok>>

RecvL(r) == /\ At(r, "recvL") /\ Fixed /\ UNCHANGED sent
            /\ IF r = 1 THEN Go(r) /\ UNCHANGED <<chan, got>>
               ELSE /\ chan[r - 1][r] # <<>>
                    /\ got' = [got EXCEPT ![r] = Head(chan[r - 1][r]) \o @]
                    /\ Take(r - 1, r)
                    /\ Go(r)
SendR(r) == /\ At(r, "sendR") /\ Fixed /\ UNCHANGED got
            /\ IF r = P THEN Go(r) /\ UNCHANGED <<chan, sent>>
               ELSE Send(r, r + 1, LastN(Piece(r), front[r + 1]))
SendL(r) == /\ At(r, "sendL") /\ Fixed /\ UNCHANGED got
            /\ IF r = 1 THEN Go(r) /\ UNCHANGED <<chan, sent>>
               ELSE Send(r, r - 1, FirstN(Piece(r), back[r - 1]))
RecvR(r) == /\ At(r, "recvR") /\ Fixed /\ UNCHANGED sent
            /\ IF r = P THEN Go(r) /\ UNCHANGED <<chan, got>>
               ELSE /\ chan[r + 1][r] # <<>>
                    /\ got' = [got EXCEPT ![r] = @ \o Head(chan[r + 1][r])]
                    /\ Take(r + 1, r)
                    /\ Go(r)
Done == \A r \in Procs : Steps[pc[r]] = "end"
Next == Check \/ (\E r \in Procs : RecvL(r) \/ SendR(r) \/ SendL(r) \/ RecvR(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ----------------------------------------------------------*)
(* (that nobody waits forever is TLC's check for deadlocks)                  *)
Alike == \A r, s \in Procs : ok[r] = ok[s]
NothingLeft == Done => \A f, t \in Procs : chan[f][t] = <<>>
(* ghost cells are the neighbouring elements of the global array             *)
Window1(r) == LET o == Offs(src) IN SubSeq(Data(N), o[r] + 1 - (IF r > 1 THEN front[r] ELSE 0), o[r + 1] + (IF r < P THEN back[r] ELSE 0))
Right == Done /\ ok[1] => \A r \in Procs : got[r] = Window1(r)
(* the specification of the machine says the same                            *)
X == Make(Data(N), <<N>>, "S", 0, src, <<>>, "f8")
AsSpecified == Done => /\ ok[1] = GhostOK(X, front, back)
                       /\ ok[1] => \A r \in Procs : got[r] = GhostA(X, front, back)[r]
(* redistribution: a slice of what was got is the piece of the new layout;   *)
(* it is rejected exactly when the neighbours do not suffice                 *)
Drop(r) == IF r = 1 THEN 0 ELSE IMax(0, Dif(src, dst, r - 1))
Moved == JOB = "move" /\ Done =>
  /\ ok[1] = NeighboursSuffice(src, dst)
  /\ ok[1] => \A r \in Procs : SubSeq(got[r], Drop(r) + 1, Drop(r) + dst[r]) = Scatter(Data(N), <<N>>, 0, dst)[r]
Returns == <>Done
=============================================================================
