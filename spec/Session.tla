------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* The verifier's presentation sessions, as a user sees them: every        *)
(* operation takes effect atomically at one point between its invocation   *)
(* and its return, or not at all.                                          *)
(*                                                                         *)
(* A session is "absent", or it has a phase and, once complete, the        *)
(* outcome it completed with.  This module is the specification that       *)
(*   - SessionImpl (store calls one at a time) is checked to refine, and   *)
(*   - SessionTrace checks recordings of the real code against.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Sids,       \* session identifiers
          Procs,      \* concurrent operations
          Outs        \* what a response validator may return

VARIABLES sess,       \* [Sids -> Status]
          op          \* [Procs -> the operation in flight]

vars == <<sess, op>>

Phases == <<"absent", "byref", "sent", "received", "complete">>
Rank(st) == CHOOSE i \in 1..5 : Phases[i] = st.ph

St(ph)    == [ph |-> ph, out |-> "-"]
Absent    == St("absent")
ByRef     == St("byref")
Sent      == St("sent")
Received  == St("received")
Done(o)   == [ph |-> "complete", out |-> o]

Kinds == {"buildref", "buildval", "builddc", "poll", "retrieve", "verify", "remove"}

Idle == [k |-> "none", s |-> "-", ph |-> "idle", faulted |-> FALSE,
         res |-> "-", st |-> Absent, out |-> "-"]

Init == /\ sess \in [Sids -> {Absent, ByRef, Sent}]
        /\ op = [p \in Procs |-> Idle]

--------------------------------------------------------------------------------
Invoke(p, k, s) ==
  /\ op[p].ph = "idle"
  /\ op' = [op EXCEPT ![p] = [Idle EXCEPT !.k = k, !.s = s, !.ph = "pending"]]
  /\ UNCHANGED sess

\* The environment makes a store access of this operation fail.
Fault(p) ==
  /\ op[p].ph \in {"pending", "decided"}
  /\ op' = [op EXCEPT ![p].faulted = TRUE]
  /\ UNCHANGED sess

Finish(p, res, st) == op' = [op EXCEPT ![p].ph = "finished", ![p].res = res, ![p].st = st]

\* A new request: the session appears, in the phase its delivery calls for.
LinBuild(p) ==
  /\ op[p].ph = "pending" /\ ~op[p].faulted
  /\ op[p].k \in {"buildref", "buildval", "builddc"}
  /\ sess[op[p].s] = Absent
  /\ sess' = [sess EXCEPT ![op[p].s] = IF op[p].k = "buildref" THEN ByRef ELSE Sent]
  /\ Finish(p, "ok", Absent)

LinPoll(p) ==
  /\ op[p].ph = "pending" /\ ~op[p].faulted /\ op[p].k = "poll"
  /\ sess[op[p].s] # Absent
  /\ Finish(p, "ok", sess[op[p].s])
  /\ UNCHANGED sess

\* Handing out the request moves a session on to "sent" and never moves it back.
LinRetrieve(p) ==
  /\ op[p].ph = "pending" /\ ~op[p].faulted /\ op[p].k = "retrieve"
  /\ sess[op[p].s] # Absent
  /\ sess' = [sess EXCEPT ![op[p].s] = IF Rank(@) < Rank(Sent) THEN Sent ELSE @]
  /\ Finish(p, "ok", Absent)

LinRemove(p) ==
  /\ op[p].ph = "pending" /\ ~op[p].faulted /\ op[p].k = "remove"
  /\ sess[op[p].s] # Absent
  /\ sess' = [sess EXCEPT ![op[p].s] = Absent]
  /\ Finish(p, "ok", Absent)

\* Verification hands the stored session to the validator ...
LinLookup(p) ==
  /\ op[p].ph = "pending" /\ ~op[p].faulted /\ op[p].k = "verify"
  /\ sess[op[p].s] # Absent
  /\ op' = [op EXCEPT ![p].ph = "validating", ![p].st = sess[op[p].s]]
  /\ UNCHANGED sess

\* ... may make known that a response is being processed ...
LinReceived(p) ==
  /\ op[p].ph \in {"validating", "decided"} /\ ~op[p].faulted
  /\ Rank(sess[op[p].s]) \in {Rank(ByRef), Rank(Sent)}
  /\ sess' = [sess EXCEPT ![op[p].s] = Received]
  /\ UNCHANGED op

ValidatorReturns(p, o) ==
  /\ op[p].ph = "validating"
  /\ op' = [op EXCEPT ![p].ph = "decided", ![p].out = o]
  /\ UNCHANGED sess

\* ... and records exactly the validator's outcome.
LinCommit(p) ==
  /\ op[p].ph = "decided" /\ ~op[p].faulted
  /\ sess[op[p].s] # Absent
  /\ sess' = [sess EXCEPT ![op[p].s] = Done(op[p].out)]
  /\ Finish(p, "ok", Absent)

\* An operation fails, without effect, only for a missing session or a failing store.
LinFail(p) ==
  /\ op[p].ph \in {"pending", "decided"}
  /\ \/ op[p].faulted
     \/ /\ op[p].k \notin {"buildref", "buildval", "builddc"}
        /\ sess[op[p].s] = Absent
  /\ Finish(p, "err", Absent)
  /\ UNCHANGED sess

Return(p) ==
  /\ op[p].ph = "finished"
  /\ op' = [op EXCEPT ![p] = Idle]
  /\ UNCHANGED sess

\* The caller gives up (the future is dropped): whatever took effect, took effect.
Cancel(p) ==
  /\ op[p].ph # "idle"
  /\ op' = [op EXCEPT ![p] = Idle]
  /\ UNCHANGED sess

Lin(p) == \/ LinBuild(p) \/ LinPoll(p) \/ LinRetrieve(p) \/ LinRemove(p)
          \/ LinLookup(p) \/ LinReceived(p) \/ LinCommit(p) \/ LinFail(p)

Next == \E p \in Procs :
          \/ \E k \in Kinds, s \in Sids : Invoke(p, k, s)
          \/ Fault(p)
          \/ Lin(p)
          \/ \E o \in Outs : ValidatorReturns(p, o)
          \/ Return(p)
          \/ Cancel(p)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
TypeOK ==
  /\ \A s \in Sids : sess[s] \in {Absent, ByRef, Sent, Received} \cup {Done(o) : o \in Outs}
  /\ \A p \in Procs : op[p].ph \in {"idle", "pending", "validating", "decided", "finished"}

\* P01: a session that stays in the store never moves backwards.
Forward(s) ==
  \/ sess[s] = Absent \/ sess'[s] = Absent
  \/ Rank(sess'[s]) >= Rank(sess[s])
NeverBackwards == [][\A s \in Sids : Forward(s)]_vars

\* P02: a session completes only with the outcome of a validation of that very session.
CompletesWith(s) ==
  (sess'[s] # sess[s] /\ sess'[s].ph = "complete") =>
     \E p \in Procs : /\ op[p].k = "verify" /\ op[p].s = s /\ op[p].ph = "decided"
                      /\ sess'[s] = Done(op[p].out)
OutcomeIsValidators == [][\A s \in Sids : CompletesWith(s)]_vars

\* P03: a session changes only through an operation on it; one operation changes one session.
Isolated ==
  [][ /\ Cardinality({s \in Sids : sess'[s] # sess[s]}) <= 1
      /\ \A s \in Sids : sess'[s] # sess[s] =>
            \E p \in Procs : op[p].s = s /\ op[p].ph # "idle" /\ op[p].k # "poll" ]_vars

\* P03: sessions appear only by building a request, and only where there was none.
AppearsByBuild ==
  [][\A s \in Sids : (sess[s] = Absent /\ sess'[s] # Absent) =>
        \E p \in Procs : op[p].s = s /\ op[p].k \in {"buildref", "buildval", "builddc"}]_vars

\* P02: an operation that fails leaves nothing behind and never ran on a missing session.
NoValidationOfMissing ==
  \A p \in Procs : op[p].ph = "validating" => op[p].st # Absent
================================================================================
