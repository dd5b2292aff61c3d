---------------------------------- MODULE Comm ----------------------------------
(* The message passing of recorded executions, under all schedules.          *)
(* An execution is what each process called, in order (line of file COMM):   *)
(*   [id, comms, logs]   comms: members of each communicator                 *)
(*                       logs:  per process, its calls                       *)
(* call: [k, c, peer, tag, root, sig]                                        *)
(*   k     "send", "isend", "recv", "all" (a collective in which everybody   *)
(*         waits for everybody), "out" (data flows from the root), "in"      *)
(*         (to the root)                                                     *)
(*   c     communicator, peer: process (0 any), tag (-1 any)                 *)
(*   sig   what the processes of a collective have to agree on               *)
(* The processes are deterministic and their calls do not depend on the      *)
(* schedule, so the calls of one execution determine all others: which       *)
(* process moves next, whether a standard-mode send buffers its message or   *)
(* waits for its receiver, and whether collectives synchronise (strong) or   *)
(* only wait for the data they need are left open, as in the MPI standard.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Execs == ndJsonDeserialize(IOEnv.COMM)

VARIABLES e,        \* the execution
          strong,   \* do collectives synchronise?
          pc,       \* per process: its next call
          begun,    \* per process: has it begun that call (and waits in it)?
          chan      \* per process: the messages it sent which are under way, in order
vars == <<e, strong, pc, begun, chan>>

N(x) == Len(Execs[x].logs)
Log(r) == Execs[e].logs[r]
Ranks == 1..N(e)
Finished(r) == pc[r] > Len(Log(r))
Call(r) == Log(r)[pc[r]]
Members(c) == {Execs[e].comms[c][i] : i \in 1..Len(Execs[e].comms[c])}
IsColl(x) == x.k \in {"all", "out", "in"}

(* the ordinal of call i of process r among its collectives on communicator  *)
(* x.c is x.no (precomputed); has process m begun number no of c?            *)
Joined(m, c, no) ==
  \E i \in 1..Len(Log(m)) : /\ IsColl(Log(m)[i])
                            /\ Log(m)[i].c = c
                            /\ Log(m)[i].no = no
                            /\ (i < pc[m] \/ (i = pc[m] /\ begun[m]))

CollReady(r) ==
  LET x == Call(r)
  IN  IF strong \/ x.k = "all" THEN \A m \in Members(x.c) : Joined(m, x.c, x.no)
      ELSE IF x.k = "out" THEN r = x.root \/ Joined(x.root, x.c, x.no)
      ELSE r # x.root \/ \A m \in Members(x.c) : Joined(m, x.c, x.no)

(* messages that a receive may take: of each source the first that fits      *)
Fits(m, r, x) == m.to = r /\ m.c = x.c /\ (x.tag = -1 \/ m.tag = x.tag)
First(f, r, x) ==
  LET S == {i \in 1..Len(chan[f]) : Fits(chan[f][i], r, x)}
  IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Sources(r) == {f \in (IF Call(r).peer = 0 THEN Ranks ELSE {Call(r).peer}) : First(f, r, Call(r)) # 0}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Pending(r) == \E i \in 1..Len(chan[r]) : chan[r][i].at = pc[r]

CanMove(r) ==
  /\ ~Finished(r)
  /\ LET x == Call(r)
     IN  IF x.k \in {"send", "isend"} THEN ~begun[r] \/ ~Pending(r)
         ELSE IF x.k = "recv" THEN Sources(r) # {}
         ELSE ~begun[r] \/ CollReady(r)

Go(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ begun' = [begun EXCEPT ![r] = FALSE]
Wait(r) == begun' = [begun EXCEPT ![r] = TRUE] /\ UNCHANGED pc

Move(r) ==
  /\ CanMove(r)
  /\ LET x == Call(r)
     IN  CASE x.k \in {"send", "isend"} /\ ~begun[r] ->
                /\ chan' = [chan EXCEPT ![r] = Append(@, [to |-> x.peer, c |-> x.c, tag |-> x.tag, at |-> pc[r]])]
                /\ IF x.k = "isend" THEN Go(r) ELSE Go(r) \/ Wait(r)
           [] x.k \in {"send", "isend"} /\ begun[r] -> Go(r) /\ UNCHANGED chan
           [] x.k = "recv" -> /\ \E f \in Sources(r) : chan' = [chan EXCEPT ![f] = Without(@, First(f, r, x))]
                              /\ Go(r)
           [] IsColl(x) /\ ~begun[r] -> Wait(r) /\ UNCHANGED chan
           [] OTHER -> Go(r) /\ UNCHANGED chan
  /\ UNCHANGED <<e, strong>>

(* disagreement about a collective                                           *)
Disagree ==
  \E r, m \in Ranks :
    /\ ~Finished(r) /\ ~Finished(m) /\ begun[r] /\ begun[m]
    /\ IsColl(Call(r)) /\ IsColl(Call(m))
    /\ Call(r).c = Call(m).c /\ Call(r).no = Call(m).no /\ Call(r).sig # Call(m).sig

Over == \A r \in Ranks : Finished(r)
Stuck == ~Over /\ \A r \in Ranks : ~CanMove(r)

Init == /\ e \in 1..Len(Execs)
        /\ strong \in BOOLEAN
        /\ pc = [r \in 1..N(e) |-> 1]
        /\ begun = [r \in 1..N(e) |-> FALSE]
        /\ chan = [r \in 1..N(e) |-> <<>>]

Tell(what) == PrintT("FAIL " \o ToJson([line |-> e, what |-> what, strong |-> strong, at |-> pc, left |-> chan]))
(* the end of an execution is told once: nothing moves any more              *)
End == /\ (Over \/ Stuck)
       /\ IF Stuck THEN Tell("stuck") ELSE IF \E r \in Ranks : chan[r] # <<>> THEN Tell("lost") ELSE PrintT("DONE " \o ToJson([line |-> e]))
       /\ FALSE
       /\ UNCHANGED vars
Next == (\E r \in 1..N(e) : Move(r)) \/ End
Spec == Init /\ [][Next]_vars
Agree == ~Disagree \/ Tell("disagree")
=============================================================================
