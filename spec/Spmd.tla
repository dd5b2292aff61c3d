--------------------------------- MODULE Spmd ---------------------------------
(* Why processes that make the same requests do not wait for each other      *)
(* forever: requests as sequences of collectives, which processes enter one  *)
(* after the other and leave when all members have entered.                  *)
(* SCEN is what the requests are like:                                       *)
(*   "agreed"   a request checks its operands on every process (the outcomes *)
(*              may differ), the processes tell each other the outcomes, and *)
(*              either all raise or all go on to the collectives of the work *)
(*   "alone"    without telling each other (what must not be)                *)
(*   "world"    solvers: every iteration multiplies by an operator (with a   *)
(*              collective of all) and reduces over all; everybody stops by  *)
(*              the reduced number                                           *)
(*   "groups"   the same with reductions within the groups of a mask, whose  *)
(*              numbers differ: groups may stop at different iterations      *)
(*   "inner"    the same with an operator that needs no communication        *)
(*   "own"      two communicators, each with requests of its own, whose      *)
(*              collectives are all on the own communicator                  *)
(*   "leak"     the same when a collective is on the world (must not be)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, SCEN, K      \* K: requests, or iterations at most
Procs == 1..P

VARIABLES todo,     \* per process: what it has still to do
          in,       \* per process: is it waiting in the collective at the head?
          out,      \* per process: what it has been told, or has decided
          cfg       \* the choice of the scenario
vars == <<todo, in, out, cfg>>

(* a collective [c, k, v]: members, kind, and the contribution; a decision   *)
(* on what it returned is made by Then                                       *)
Coll(c, k, v) == [c |-> c, k |-> k, v |-> v]
Repeat(s, n) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]

(* outcomes of the local checks of K requests                                *)
Checks == [1..K -> [Procs -> BOOLEAN]]
GroupOf(g, r) == {q \in Procs : g[q] = g[r]}
Init ==
  /\ cfg \in CASE SCEN \in {"agreed", "alone"} -> [bad : Checks]
               [] SCEN = "world" -> [n : 0..K]
               [] SCEN \in {"groups", "inner"} -> {c \in [g : [Procs -> 1..2], n : [1..2 -> 0..K]] : TRUE}
               [] SCEN \in {"own", "leak"} -> [g : [Procs -> 1..2], n : [1..2 -> 0..K], at : 1..K]
  /\ todo = [r \in Procs |->
       CASE SCEN = "agreed" -> [i \in 1..K |-> Coll(Procs, "agree", cfg.bad[i][r])]
         [] SCEN = "alone" -> IF \E i \in 1..K : cfg.bad[i][r] THEN Repeat(<<Coll(Procs, "work", FALSE)>>, (CHOOSE i \in 1..K : cfg.bad[i][r] /\ \A j \in 1..(i - 1) : ~cfg.bad[j][r]) - 1)
                              ELSE Repeat(<<Coll(Procs, "work", FALSE)>>, K)
         [] SCEN = "world" -> Repeat(<<Coll(Procs, "work", FALSE), Coll(Procs, "sum", FALSE)>>, cfg.n)
         [] SCEN = "groups" -> Repeat(<<Coll(Procs, "work", FALSE), Coll(GroupOf(cfg.g, r), "sum", FALSE)>>, cfg.n[cfg.g[r]])
         [] SCEN = "inner" -> Repeat(<<Coll(GroupOf(cfg.g, r), "sum", FALSE)>>, cfg.n[cfg.g[r]])
         [] SCEN = "own" -> Repeat(<<Coll(GroupOf(cfg.g, r), "sum", FALSE)>>, cfg.n[cfg.g[r]])
         [] SCEN = "leak" -> [i \in 1..cfg.n[cfg.g[r]] |-> Coll(IF i = cfg.at THEN Procs ELSE GroupOf(cfg.g, r), "sum", FALSE)]]
  /\ in = [r \in Procs |-> FALSE]
  /\ out = [r \in Procs |-> <<>>]

Over(r) == todo[r] = <<>>
Enter(r) == /\ ~Over(r) /\ ~in[r]
            /\ in' = [in EXCEPT ![r] = TRUE]
            /\ UNCHANGED <<todo, out, cfg>>
(* all members are in it: they are told the disjunction of what they gave    *)
Ready(r) == /\ ~Over(r) /\ in[r]
            /\ \A m \in todo[r][1].c : ~Over(m) /\ in[m] /\ todo[m][1].c = todo[r][1].c /\ todo[m][1].k = todo[r][1].k
Rest(r, some) ==
  IF todo[r][1].k = "agree"
  THEN IF some THEN Tail(todo[r]) ELSE <<Coll(Procs, "work", FALSE)>> \o Tail(todo[r])
  ELSE Tail(todo[r])
Leave == \E r \in Procs :
  /\ Ready(r)
  /\ LET M == todo[r][1].c
         some == \E m \in M : todo[m][1].v
     IN  /\ todo' = [m \in Procs |-> IF m \in M THEN Rest(m, some) ELSE todo[m]]
         /\ in' = [m \in Procs |-> IF m \in M THEN FALSE ELSE in[m]]
         /\ out' = [m \in Procs |-> IF m \in M /\ todo[m][1].k = "agree" THEN Append(out[m], some) ELSE out[m]]
  /\ UNCHANGED cfg
AllOver == \A r \in Procs : Over(r)
Next == (\E r \in Procs : Enter(r)) \/ Leave \/ (AllOver /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ----------------------------------------------------------*)
Stuck == ~AllOver /\ ~ENABLED ((\E r \in Procs : Enter(r)) \/ Leave)
NeverStuck == ~Stuck
(* all reject or none, and a request that a process rejects is rejected      *)
Alike == SCEN = "agreed" => \A r, s \in Procs : \A i \in 1..K : i <= Len(out[r]) /\ i <= Len(out[s]) => out[r][i] = out[s][i]
Rejected == SCEN = "agreed" /\ AllOver => \A r \in Procs : \A i \in 1..K : out[r][i] = (\E q \in Procs : cfg.bad[i][q])
(* the known finding: groups get stuck exactly when they stop at different   *)
(* iterations (and there are both)                                           *)
Both == {cfg.g[r] : r \in Procs} = {1, 2}
StuckOnlyApart == SCEN = "groups" /\ Stuck => Both /\ cfg.n[1] # cfg.n[2]
ApartGetsStuck == SCEN = "groups" /\ AllOver => ~(Both /\ cfg.n[1] # cfg.n[2])
Returns == <>AllOver
=============================================================================
