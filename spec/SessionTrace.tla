----------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Recordings of the real verifier, checked against Session's formulas.    *)
(*                                                                         *)
(* Nodes is a forest of recorded events: shared prefixes are shared nodes.  *)
(* A behaviour of this module walks from the root to a leaf, i.e. is one   *)
(* recorded run; sess is what the session store really held after each     *)
(* event, op is the operations in flight as far as their callers can see.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Nodes == ndJsonDeserialize(IOEnv.TRACE_FILE)

Procs == 1..8
Sids  == {"s1", "s2"}

VARIABLES node, sess, op, body, prevEv

vars == <<node, sess, op, body, prevEv>>

S == INSTANCE Session WITH Outs <- {}

StOf(x) == IF x \in {"absent", "byref", "sent", "received"} THEN S!St(x) ELSE S!Done(x)

Idle == [k |-> "none", s |-> "-", ph |-> "idle", faulted |-> FALSE, vals |-> 0,
         out |-> "-", seen |-> {}, valok |-> TRUE]

Look(e) == [s \in Sids |-> StOf(e.st[s])]

Init == /\ node \in {i \in 1..Len(Nodes) : Nodes[i].root}
        /\ sess = Look(Nodes[node].ev)
        /\ body = Nodes[node].ev.body
        /\ op = [p \in Procs |-> Idle]
        /\ prevEv = Nodes[node].ev

\* What the caller of an operation has seen of its session since it called.
Seen(o, new) == IF o.ph = "idle" THEN o ELSE [o EXCEPT !.seen = @ \cup {new[o.s]}]

Step(n) ==
  LET e == Nodes[n].ev IN
  /\ node' = n
  /\ prevEv' = e
  /\ sess' = Look(e)
  /\ body' = e.body
  /\ op' = [q \in Procs |->
       LET o == op[q] IN
       Seen(IF "p" \notin DOMAIN e \/ e.p # q THEN o
            ELSE CASE e.e = "inv"    -> [Idle EXCEPT !.k = e.k, !.s = e.s, !.ph = "pending", !.seen = {sess[e.s]}]
                   [] e.e = "fault"  -> [o EXCEPT !.faulted = TRUE]
                   [] e.e = "val"    -> [o EXCEPT !.ph = "validating", !.vals = @ + 1,
                                                  !.valok = e.s = o.s /\ e.jwt = o.s /\ e.q = o.s /\ e.resp = q
                                                            /\ StOf(e.sst) \in o.seen \cup {sess[o.s]}]
                   [] e.e = "decide" -> [o EXCEPT !.ph = "decided", !.out = e.o]
                   [] e.e = "ret"    -> [o EXCEPT !.ph = "idle"]
                   [] e.e = "cancel" -> [o EXCEPT !.ph = "idle"]
                   [] OTHER          -> o,
            sess')]

Next == \E n \in {Nodes[node].kids[i] : i \in 1..Len(Nodes[node].kids)} : Step(n)

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Ev == prevEv'
Ret(p, k) == Ev.e = "ret" /\ Ev.p = p /\ op[p].k = k
Live == {p \in Procs : op[p].ph # "idle"}
On(s) == {p \in Live : op[p].s = s}
Saw(p) == op[p].seen \cup {sess[op[p].s], sess'[op[p].s]}

(* P01 *)
NeverBackwards == [][\A s \in Sids : S!Forward(s)]_vars
\* Handing out a request marks it sent, whatever else is going on.
RetrieveMarksSent ==
  [][\A p \in Procs : (Ret(p, "retrieve") /\ Ev.r = "ok" /\ sess'[op[p].s] # S!Absent) =>
        S!Rank(sess'[op[p].s]) >= S!Rank(S!Sent)]_vars
\* Retrieval alone moves a session no further than "sent"; only verification completes it.
OnlyVerificationCompletes ==
  [][\A s \in Sids : (sess'[s] # sess[s] /\ S!Rank(sess'[s]) > S!Rank(S!Sent)) =>
        \E p \in On(s) : op[p].k = "verify"]_vars
\* Polling tells the truth.
PollTrue ==
  [][\A p \in Procs : (Ret(p, "poll") /\ Ev.r = "ok") =>
        StOf(Ev.got) \in Saw(p) \ {S!Absent}]_vars
\* A new request starts out by its delivery.
StartsByDelivery ==
  [][\A s \in Sids : (sess[s] = S!Absent /\ sess'[s] # S!Absent) =>
        \A p \in On(s) : op[p].k \in {"buildref", "buildval", "builddc"} =>
           sess'[s] = IF op[p].k = "buildref" THEN S!ByRef ELSE S!Sent]_vars
\* Every poll-like observation made through the public interface agrees with the store.
PollAgrees == prevEv.polled = prevEv.st

(* P02 *)
CompletesWith == [][\A s \in Sids :
  (sess'[s] # sess[s] /\ sess'[s].ph = "complete") =>
     \E p \in On(s) : op[p].k = "verify" /\ op[p].vals = 1 /\ op[p].ph = "decided" /\ sess'[s] = S!Done(op[p].out)]_vars
ValidatorSeesTruth == \A p \in Procs : op[p].valok /\ op[p].vals <= 1
NoValidationOfMissing ==
  [][(Ev.e = "val") => sess[op[Ev.p].s] # S!Absent \/ op[Ev.p].seen # {S!Absent}]_vars
VerifyOkMeansRecorded ==
  [][\A p \in Procs : (Ret(p, "verify") /\ Ev.r = "ok") =>
        /\ op[p].vals = 1 /\ op[p].ph = "decided" /\ ~op[p].faulted
        /\ S!Done(op[p].out) \in Saw(p)]_vars
VerifyErrMeansWhy ==
  [][\A p \in Procs : (Ret(p, "verify") /\ Ev.r # "ok") =>
        op[p].faulted \/ S!Absent \in Saw(p)]_vars

(* P03 *)
Isolated ==
  [][\A s \in Sids : sess'[s] # sess[s] => \E p \in On(s) : op[p].k # "poll"]_vars
AppearsByBuild ==
  [][\A s \in Sids : (sess[s] = S!Absent /\ sess'[s] # S!Absent) =>
        \E p \in On(s) : op[p].k \in {"buildref", "buildval", "builddc"}]_vars
VanishesByRemove ==
  [][\A s \in Sids : (sess[s] # S!Absent /\ sess'[s] = S!Absent) => \E p \in On(s) : op[p].k = "remove"]_vars
\* What was stored at the start stays the session's request and query for good.
ContentFixed ==
  [][\A s \in Sids : (sess[s] # S!Absent /\ sess'[s] # S!Absent) => body'[s] = body[s]]_vars
ContentOwn == \A s \in Sids : sess[s] # S!Absent => body[s] = s
RetrieveOwn ==
  [][\A p \in Procs : (Ret(p, "retrieve") /\ Ev.r = "ok") => Ev.jwt = op[p].s]_vars
MissingFails ==
  [][\A p \in Procs : (Ev.e = "ret" /\ Ev.p = p /\ Saw(p) = {S!Absent}
                        /\ op[p].k \in {"poll", "retrieve", "verify", "remove"}) => Ev.r = "err"]_vars
\* And an operation on a session that is there does not fail for no reason.
PresentSucceeds ==
  [][\A p \in Procs : (Ev.e = "ret" /\ Ev.p = p /\ ~op[p].faulted /\ S!Absent \notin Saw(p)
                        /\ op[p].k \in {"poll", "retrieve"}) => Ev.r = "ok"]_vars
\* Faults are reported.
FaultsReported == [][\A p \in Procs : (Ev.e = "ret" /\ Ev.p = p /\ op[p].faulted) => Ev.r # "ok"]_vars
\* Nothing ever gets stuck or panics.
NoPanic == prevEv.e # "panic" /\ prevEv.e # "hang"

================================================================================
