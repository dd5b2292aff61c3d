-------------------------------- MODULE Trace --------------------------------
(* Recorded behaviours of the implementation against the machine.            *)
(* Each line of the file TRACE is one execution of a program by P processes: *)
(*   [id, p, run, left, steps]                                               *)
(* with steps [q, st, ret, chg, alias, spoiled]:                             *)
(*   st     "ok" or "exc" on all processes, "mixed", "dead" (a process never *)
(*          returned) or "comm" (the processes disagreed in communication)   *)
(*   ret    what the processes were told, or <<>>                            *)
(*   chg    the objects that are now different from before, [i, o]           *)
(*   alias  pairs of objects which have come to share storage                *)
(*   spoiled  whether an array or list the user passed in has changed         *)
(*   left   (of the execution) whether messages or collectives were left     *)
(*   alien  (of the execution) whether a process communicated outside the    *)
(*          communicator the program ran on                                  *)
(* The machine makes the same requests; a step is accepted iff it is one the *)
(* machine can make.  After a wrong result that is a proper object, the      *)
(* machine carries on from what was observed, so that each step is judged    *)
(* by itself.                                                                *)
EXTENDS Machine, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sc, k, heap, tally
vars == <<sc, k, heap, tally>>

Sh(o) ==   \* what is compared of an object
  CASE o.k = "arr" -> [k |-> "arr", g |-> o.g, part |-> o.part, ax |-> o.ax, sz |-> o.sz, mask |-> o.mask, v |-> o.v]
    [] o.k = "stk" -> [k |-> "stk", a |-> [i \in 1..Len(o.a) |->
                        LET a == o.a[i]
                        IN  [g |-> a.g, part |-> a.part, ax |-> a.ax, sz |-> a.sz, mask |-> a.mask, v |-> a.v]]]
    [] o.k = "op" -> [k |-> "op", rows |-> o.rows, cols |-> o.cols, stk |-> o.stk]
    [] OTHER -> [k |-> o.k]

LayoutOf(o) == [g |-> o.g, part |-> o.part, ax |-> o.ax, sz |-> o.sz, mask |-> o.mask]
Diff(obs, exp) ==
  IF obs.k = "bad" THEN "malformed"
  ELSE IF obs.k # exp.k THEN "kind"
  ELSE IF obs.k = "arr" THEN (IF LayoutOf(obs) # LayoutOf(exp) THEN "layout" ELSE IF obs.v # exp.v THEN "value"
                              ELSE IF ~Holds(obs.dt, exp.dt) THEN "dtype" ELSE "")
  ELSE IF obs.k = "stk"
  THEN (IF Len(obs.a) # Len(exp.a) THEN "layout"
        ELSE IF \E i \in 1..Len(obs.a) : LayoutOf(obs.a[i]) # LayoutOf(exp.a[i]) THEN "layout"
        ELSE IF \E i \in 1..Len(obs.a) : obs.a[i].v # exp.a[i].v THEN "value"
        ELSE IF \E i \in 1..Len(obs.a) : ~Holds(obs.a[i].dt, exp.a[i].dt) THEN "dtype" ELSE "")
  ELSE IF Sh(obs) # Sh(exp) THEN "shape" ELSE ""

(* what the machine has after a step: its own object with the element types  *)
(* seen, or the observed one                                                 *)
Adopt(obs, exp) ==
  CASE obs.k = "arr" -> obs
    [] obs.k = "stk" -> obs
    [] OTHER -> exp
Targets(q) == IF q.op \in {"set", "setk", "iadd", "isub"} THEN {q.x} ELSE {}

(* the judgement of a step: its faults, and the heap to continue with        *)
Judge(st, h) ==
  LET out == Exec(h, st.q)
      last == Len(out.heap)
      obsOf(i) == LET c == SelectSeq(st.chg, LAMBDA d : d.i = i) IN c[1].o
      changed == {st.chg[j].i : j \in 1..Len(st.chg)}
      fault(c, d) == <<[clause |-> c, d |-> d]>>
      solver == st.q.op \in {"cg", "cgls"} /\ out.st = "must"
      \* the groups of a mask stop at different times, or rounding decides when
      groups == solver /\ GroupsPart(st.q, h[st.q.a], h[st.q.y], h[st.q.x0])
  IN  IF st.st \in {"dead", "comm"} /\ solver /\ groups /\ MaskOf(h[st.q.x0]) # <<>> THEN [faults |-> fault(st.st, "groups"), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE IF st.st \in {"exc", "mixed"} /\ solver /\ groups THEN [faults |-> <<>>, heap |-> h, go |-> FALSE, st |-> "skip"]
      ELSE IF st.st = "dead" THEN [faults |-> fault("dead", out.st), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE IF st.st = "comm" THEN [faults |-> fault("comm", out.st), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE IF st.st = "mixed" THEN [faults |-> fault("mixed", out.st), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE IF out.st = "skip" THEN [faults |-> <<>>, heap |-> h, go |-> FALSE, st |-> "skip"]
      ELSE IF st.st = "exc" /\ out.st = "must" THEN [faults |-> fault("refused", ""), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE IF st.st = "ok" /\ out.st = "rej" THEN [faults |-> fault("accepted", ""), heap |-> h, go |-> FALSE, st |-> out.st]
      ELSE
        LET \* a rejection leaves everything as it was
            exp == IF st.st = "exc" THEN (IF st.q.op \in Creating THEN Append(h, None) ELSE h) ELSE out.heap
            n == Len(exp)
            was(i) == IF i <= Len(h) THEN h[i] ELSE None
            f(i) ==   \* faults of object i
              IF i > n THEN fault("extra", "")
              ELSE IF i \in changed
              THEN LET d == Diff(obsOf(i), exp[i])
                   IN  IF d = "" THEN <<>>
                       ELSE IF i = Len(h) + 1 \/ (st.st = "ok" /\ i \in Targets(st.q)) THEN fault(d, IF obsOf(i).k = "bad" THEN obsOf(i).why ELSE "")
                       ELSE fault(IF st.st = "exc" THEN "frame-rejected" ELSE "frame", d)
              ELSE IF st.st = "ok" /\ i \in Targets(st.q) /\ Sh(exp[i]) # Sh(was(i)) THEN fault("value", "unchanged")
              ELSE <<>>
            \* operators never change
            opf(i) == IF i \in changed /\ i <= Len(h) /\ h[i].k = "op" THEN fault("frame", "operator data") ELSE <<>>
            objs == FoldLeft(LAMBDA acc, i : acc \o f(i) \o opf(i), <<>>, [i \in 1..IMax(n, IF changed = {} THEN 0 ELSE CHOOSE m \in changed : \A j \in changed : j <= m) |-> i])
            retf == IF st.st = "ok" /\ solver
                    THEN LET c == SolverFaults(st.q, h[st.q.a], h[st.q.y], h[st.q.x0], st.ret) IN [i \in 1..Len(c) |-> [clause |-> c[i], d |-> ""]]
                    ELSE IF st.st = "ok" /\ out.ret # <<>> /\ st.ret # out.ret THEN fault("ret", "") ELSE <<>>
            alf == IF st.alias # <<>> THEN fault("alias", "") ELSE <<>>
            spf == IF st.spoiled THEN fault("frame", "argument") ELSE <<>>
            usable == \A i \in changed : /\ i <= n /\ obsOf(i).k # "bad" /\ obsOf(i).k = exp[i].k
                                        /\ IsVec(obsOf(i)) => MaxAbs(obsOf(i)) < 1000000000
            heap2 == [i \in 1..n |-> IF i \in changed /\ i <= n THEN Adopt(obsOf(i), exp[i]) ELSE exp[i]]
        IN  [faults |-> objs \o retf \o alf \o spf, heap |-> IF usable THEN heap2 ELSE h, go |-> usable, st |-> IF st.st = "exc" THEN "rejected" ELSE out.st]

Init == /\ sc \in 1..Len(Traces)
        /\ k = 1
        /\ heap = <<>>
        /\ tally = [must |-> 0, may |-> 0, rej |-> 0, faults |-> 0]

Note(f) == PrintT("FAIL " \o ToJson([line |-> sc, step |-> k, clause |-> f.clause, d |-> f.d]))
Count(t, st, n) ==
  [must |-> t.must + (IF st = "must" THEN 1 ELSE 0), may |-> t.may + (IF st = "may" THEN 1 ELSE 0),
   rej |-> t.rej + (IF st \in {"rej", "rejected"} THEN 1 ELSE 0), faults |-> t.faults + n]

Stop == 1000000
Step ==
  /\ k <= Len(Traces[sc].steps)
  /\ LET j == Judge(Traces[sc].steps[k], heap)
     IN  /\ \A i \in 1..Len(j.faults) : Note(j.faults[i])
         /\ heap' = j.heap
         /\ tally' = Count(tally, j.st, Len(j.faults))
         /\ k' = IF j.go THEN k + 1 ELSE Stop
  /\ UNCHANGED sc
(* the end: nothing may be left in the message layer of a run without faults *)
End ==
  /\ k > Len(Traces[sc].steps) /\ k <= Stop
  /\ IF k # Stop /\ Traces[sc].left THEN Note([clause |-> "lost", d |-> ""]) ELSE TRUE
  /\ IF Traces[sc].alien THEN Note([clause |-> "alien", d |-> ""]) ELSE TRUE
  /\ PrintT("DONE " \o ToJson([line |-> sc, full |-> k # Stop, must |-> tally.must, may |-> tally.may, rej |-> tally.rej, faults |-> tally.faults]))
  /\ k' = Stop + 1
  /\ UNCHANGED <<sc, heap, tally>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
View == <<sc, k>>
=============================================================================
