-------------------------------- MODULE Linear --------------------------------
(***************************************************************************)
(* Histories of one session recorded while real threads work on the        *)
(* in-memory store, checked against what the operations do: each takes     *)
(* effect at one moment between its call and its return (a verification at *)
(* two: it looks the session up, and later records the outcome).           *)
(*                                                                         *)
(* A history is accepted if some choice of those moments explains all      *)
(* that was returned; accepted histories are printed.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES h, at, st, op
vars == <<h, at, st, op>>

Ev == Hist[h].ev
Statuses == {"byref", "sent"}            \* any other text but "absent": the outcome it stands for
Unborn == [k |-> "-", pc |-> "-", saw |-> "-", r |-> "-"]

Init == /\ h \in 1..Len(Hist)
        /\ at = 0 /\ st = Hist[h].init
        /\ op = [n \in 1..Hist[h].ops |-> Unborn]

Left == at < Len(Ev)
E == Ev[at + 1]
Call == /\ Left /\ E.e = "call"
        /\ op' = [op EXCEPT ![E.n] = [k |-> E.k, pc |-> "called", saw |-> "-", r |-> "-"]]
        /\ at' = at + 1 /\ UNCHANGED <<h, st>>
Return == /\ Left /\ E.e = "ret"
          /\ op[E.n].pc = "done" /\ op[E.n].r = E.r /\ op[E.n].saw = E.saw
          /\ op' = [op EXCEPT ![E.n] = Unborn]
          /\ at' = at + 1 /\ UNCHANGED <<h, st>>

Ends(n, r, s) == op' = [op EXCEPT ![n].pc = "done", ![n].r = r] /\ st' = s
Do(n) == LET o == op[n] IN
  CASE o.pc = "called" /\ st = "absent" /\ o.k \in {"byref", "sent"} -> Ends(n, "ok", o.k)      \* a request is built
    [] o.pc = "called" /\ st = "absent" -> Ends(n, "err", st)
    [] o.pc = "called" /\ o.k = "poll" -> Ends(n, st, st)
    [] o.pc = "called" /\ o.k = "remove" -> Ends(n, "ok", "absent")
    [] o.pc = "called" /\ o.k = "retrieve" -> Ends(n, "ok", IF st = "byref" THEN "sent" ELSE st)
    [] o.pc = "called" /\ o.k = "verify" -> op' = [op EXCEPT ![n].pc = "validated", ![n].saw = st] /\ st' = st
    [] o.pc = "validated" -> Ends(n, IF st = "absent" THEN "err" ELSE "ok", IF st = "absent" THEN st ELSE ToString(n))
    [] OTHER -> FALSE
\* Moments can wait until something is returned.
Moment == /\ Left /\ E.e = "ret"
          /\ \E n \in DOMAIN op : op[n].pc \in {"called", "validated"} /\ Do(n)
          /\ UNCHANGED <<h, at>>
Next == Call \/ Return \/ Moment
Spec == Init /\ [][Next]_vars
Accepted == ~Left => PrintT(<<"VEC", ToJson([h |-> h])>>)
--------------------------------------------------------------------------------
\* The operations do what Session says: forward only, and complete only by a verification.
Rank(s) == CASE s = "absent" -> 0 [] s = "byref" -> 1 [] s = "sent" -> 2 [] OTHER -> 3
Forward == [][Rank(st') >= Rank(st) \/ st' = "absent"]_vars
CompleteMeansVerified == Rank(st) = 3 => \E n \in DOMAIN op : ToString(n) = st
================================================================================
