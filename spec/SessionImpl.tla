----------------------------- MODULE SessionImpl -----------------------------
(***************************************************************************)
(* How src/verifier/mod.rs implements Session: every operation is a        *)
(* sequence of calls to the session store, which is shared, so operations  *)
(* interleave between any two store calls.  A step of this module is one   *)
(* store call (made atomic by the store's lock), the return of a response  *)
(* validator, or the loss of an operation (its future is dropped).         *)
(*                                                                         *)
(* hist records the schedule; the harness replays it step by step.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Sids, Procs,
          Start,        \* set of initial stores to consider
          Menu,         \* set of <<kind, sid>> the operations are drawn from
          MaxOps, MaxFaults, MaxCancels,
          Overlap,      \* whether operations may overlap
          Monotone,     \* whether the store refuses to move a session backwards
          Record        \* whether to keep hist (behaviours) or not (states)

VARIABLES store, pc, started, faults, cancels, hist, st0

vars == <<store, pc, started, faults, cancels, hist, st0>>

A == INSTANCE Session WITH
       Outs <- {"success", "failure", "error"},
       sess <- store,
       op   <- [p \in Procs |-> [k |-> pc[p].k, s |-> pc[p].s, ph |-> pc[p].aph,
                                 faulted |-> pc[p].faulted, res |-> pc[p].res,
                                 st |-> pc[p].st, out |-> pc[p].out]]

None == [k |-> "none", s |-> "-", at |-> "idle", aph |-> "idle", faulted |-> FALSE,
         res |-> "-", st |-> A!Absent, out |-> "-"]

Init == /\ store \in Start
        /\ pc = [p \in Procs |-> None]
        /\ started = 0 /\ faults = 0 /\ cancels = 0
        /\ hist = <<>>
        /\ st0 = [s \in Sids |-> store[s].ph]

Log(e) == hist' = IF Record THEN Append(hist, e) ELSE hist

\* Operation number n is run by process n: schedules differ only where behaviour may.
Begin(p, k, s) ==
  /\ p = started + 1 /\ started < MaxOps
  /\ ~Overlap => \A q \in Procs : pc[q].at \in {"idle", "over"}
  /\ k \in {"buildref", "buildval", "builddc"} =>
        /\ store[s] = A!Absent
        /\ st0[s] = "absent"
        /\ \A q \in Procs : pc[q].s = s => pc[q].k \notin {"buildref", "buildval", "builddc"}
  /\ started' = started + 1
  /\ pc' = [pc EXCEPT ![p] = [None EXCEPT !.k = k, !.s = s, !.at = "call", !.aph = "pending"]]
  /\ Log([a |-> "start", p |-> p, k |-> k, s |-> s])
  /\ UNCHANGED <<store, faults, cancels, st0>>

\* What a returned operation leaves behind, for the abstraction: finished, then idle.
Over(p, res, st) == pc' = [pc EXCEPT ![p].at = "over", ![p].aph = "finished", ![p].res = res, ![p].st = st]

\* initiate(session)
CallInitiate(p) ==
  /\ pc[p].at = "call" /\ pc[p].k \in {"buildref", "buildval", "builddc"}
  /\ store' = [store EXCEPT ![pc[p].s] = IF pc[p].k = "buildref" THEN A!ByRef ELSE A!Sent]
  /\ Over(p, "ok", A!Absent)

\* get_session(uuid)
CallGet(p) ==
  /\ pc[p].at = "call" /\ pc[p].k \in {"poll", "retrieve", "verify"}
  /\ UNCHANGED store
  /\ IF store[pc[p].s] = A!Absent
     THEN Over(p, "err", A!Absent)
     ELSE CASE pc[p].k = "poll"     -> Over(p, "ok", store[pc[p].s])
            [] pc[p].k = "retrieve" -> IF A!Rank(store[pc[p].s]) < A!Rank(A!Sent)
                                       THEN pc' = [pc EXCEPT ![p].at = "update"]
                                       ELSE Over(p, "ok", A!Absent)
            [] pc[p].k = "verify"   -> pc' = [pc EXCEPT ![p].at = "validating", ![p].aph = "validating",
                                                        ![p].st = store[pc[p].s]]

\* update_status(uuid, status)
CallUpdate(p) ==
  /\ pc[p].at = "update"
  /\ LET s   == pc[p].s
         new == IF pc[p].k = "verify" THEN A!Done(pc[p].out) ELSE A!Sent
     IN IF store[s] = A!Absent
        THEN Over(p, "err", A!Absent) /\ UNCHANGED store
        ELSE /\ store' = [store EXCEPT ![s] =
                  IF Monotone /\ new.ph # "complete" /\ A!Rank(new) <= A!Rank(@) THEN @ ELSE new]
             /\ Over(p, "ok", A!Absent)

\* remove_session(uuid)
CallRemove(p) ==
  /\ pc[p].at = "call" /\ pc[p].k = "remove"
  /\ IF store[pc[p].s] = A!Absent
     THEN Over(p, "err", A!Absent) /\ UNCHANGED store
     ELSE Over(p, "ok", A!Absent) /\ store' = [store EXCEPT ![pc[p].s] = A!Absent]

Call(p) == /\ \/ CallInitiate(p) \/ CallGet(p) \/ CallUpdate(p) \/ CallRemove(p)
           /\ Log([a |-> "step", p |-> p])
           /\ UNCHANGED <<started, faults, cancels, st0>>

\* The store call fails: in two steps here, so that the abstraction sees the fault first.
CallFails(p) ==
  /\ pc[p].at \in {"call", "update"} /\ ~pc[p].faulted
  /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ pc' = [pc EXCEPT ![p].faulted = TRUE, ![p].at = "failing"]
  /\ Log([a |-> "fail", p |-> p])
  /\ UNCHANGED <<store, started, cancels, st0>>
Failing(p) ==
  /\ pc[p].at = "failing"
  /\ Over(p, "err", A!Absent)
  /\ UNCHANGED <<store, started, faults, cancels, hist, st0>>

Outcome(p, o) ==
  /\ pc[p].at = "validating"
  /\ pc' = [pc EXCEPT ![p].at = "update", ![p].aph = "decided", ![p].out = o]
  /\ Log([a |-> "decide", p |-> p, o |-> o])
  /\ UNCHANGED <<store, started, faults, cancels, st0>>

Lost(p) ==
  /\ pc[p].at \in {"call", "update", "validating"}
  /\ cancels < MaxCancels
  /\ cancels' = cancels + 1
  /\ pc' = [pc EXCEPT ![p] = [None EXCEPT !.at = "over"]]
  /\ Log([a |-> "cancel", p |-> p])
  /\ UNCHANGED <<store, started, faults, st0>>

\* The result of an operation is handed to its caller.
Deliver(p) ==
  /\ pc[p].at = "over" /\ pc[p].aph = "finished"
  /\ pc' = [pc EXCEPT ![p] = [None EXCEPT !.at = "over"]]
  /\ UNCHANGED <<store, started, faults, cancels, hist, st0>>

\* The outcome's kind does not influence the schedule: one kind per operation when recording.
Kind(p) == IF Record THEN {<<"success", "failure", "error">>[(p % 3) + 1]} ELSE {"success", "failure", "error"}

Busy == \E q \in Procs : pc[q].at = "failing" \/ (pc[q].at = "over" /\ pc[q].aph = "finished")

Next == IF Busy
        THEN \E p \in Procs : Failing(p) \/ Deliver(p)
        ELSE \E p \in Procs :
               \/ \E m \in Menu : Begin(p, m[1], m[2])
               \/ Call(p)
               \/ CallFails(p)
               \/ \E o \in Kind(p) : Outcome(p, o)
               \/ Lost(p)

Spec == Init /\ [][Next]_vars

Refines == A!Spec
NeverBackwards == A!NeverBackwards
OutcomeIsValidators == A!OutcomeIsValidators
Isolated == A!Isolated
AppearsByBuild == A!AppearsByBuild

Quiet == ~Busy /\ \A p \in Procs : pc[p].at \in {"idle", "over"}
\* Emits every complete behaviour once.
Emit == (Record /\ Quiet /\ started = MaxOps) =>
          PrintT(<<"VEC", ToJson([init |-> st0, sched |-> hist])>>)
================================================================================
