-------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* Setting up a verifier and a request (src/verifier/mod.rs,               *)
(* src/verifier/request_builder.rs): any history of calls on the builder   *)
(* of a verifier, then on the builder of a request, with a copy kept at    *)
(* some point of either.  Every request comes out as its own settings say. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxCalls
VARIABLES start, set, req, kept, phase, hist
vars == <<start, set, req, kept, phase, hist>>

NA == "-"
\* The settings of a verifier, and of a request of it (NA: as the verifier has it).
Empty == [client |-> NA, store |-> NA, endpoint |-> NA, byref |-> NA, nonce |-> "n0", state |-> NA, meta |-> NA]
Full  == [client |-> "A", store |-> "S", endpoint |-> "https://v.example/e", byref |-> NA, nonce |-> "n0", state |-> NA, meta |-> NA]
NoReq == [query |-> NA, nonce |-> NA, state |-> NA, meta |-> NA]
Nothing == [set |-> Empty, req |-> NoReq, phase |-> NA]

Init == /\ start \in {"empty", "full"}
        /\ set = (IF start = "empty" THEN Empty ELSE Full)
        /\ req = (IF start = "empty" THEN [NoReq EXCEPT !.query = "q0"] ELSE NoReq)
        /\ kept = Nothing /\ phase = "verifier" /\ hist = <<>>
More(op, arg) == Len(hist) < MaxCalls /\ hist' = Append(hist, <<op, arg>>) /\ UNCHANGED start
Set(f, op, xs) == phase = "verifier" /\ \E x \in xs : set' = [set EXCEPT ![f] = x] /\ More(op, x) /\ UNCHANGED <<req, kept, phase>>
Ask(f, op, xs) == phase = "request" /\ \E x \in xs : req' = [req EXCEPT ![f] = x] /\ More(op, x) /\ UNCHANGED <<set, kept, phase>>
OfVerifier == \/ Set("client", "client", {"A", "B"}) \/ Set("store", "store", {"S", "T"})
              \/ Set("endpoint", "endpoint", {"https://v.example/e", "https://v.example:8443/f/g"})
              \/ Set("byref", "by_reference", {"https://v.example/r", "app:/r/s"}) \/ Set("byref", "by_value", {NA})
              \/ Set("nonce", "default_nonce", {"n1", "n2"}) \/ Set("state", "default_state", {"s1"}) \/ Set("meta", "default_meta", {"m1"})
OfRequest == Ask("query", "query", {"q1", "q2"}) \/ Ask("nonce", "nonce", {"n3", "n4"}) \/ Ask("state", "state", {"s2", "s3"}) \/ Ask("meta", "meta", {"m1", "m2"})
\* A copy is as the original is now, and stays so.
Keep == kept.phase = NA /\ phase # "done" /\ kept' = [set |-> set, req |-> req, phase |-> phase] /\ More("keep", NA) /\ UNCHANGED <<set, req, phase>>
Turn == /\ phase = "verifier" /\ phase' = "request" /\ hist' = Append(hist, <<"turn", NA>>) /\ UNCHANGED <<start, set, req, kept>>
Stop == phase = "request" /\ phase' = "done" /\ UNCHANGED <<start, set, req, kept, hist>>
Next == OfVerifier \/ OfRequest \/ Keep \/ Turn \/ Stop
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Or(x, y) == IF x = NA THEN y ELSE x
Proper(s) == s.client # NA /\ s.store # NA /\ s.endpoint # NA
\* What comes out of the settings of a verifier and of a request.
Out(s, q) == [verifier |-> Proper(s), ok |-> Proper(s) /\ q.query # NA, client |-> s.client, store |-> s.store, endpoint |-> s.endpoint,
              byref |-> s.byref, nonce |-> Or(q.nonce, s.nonce), state |-> Or(q.state, s.state), meta |-> Or(q.meta, s.meta), query |-> q.query]
\* The latest setting of each kind counts, and no other.
Calls(op) == {i \in DOMAIN hist : hist[i][1] \in op}
LastOf(op, otherwise) == IF Calls(op) = {} THEN otherwise ELSE hist[CHOOSE i \in Calls(op) : \A j \in Calls(op) : j <= i][2]
S0 == IF start = "empty" THEN Empty ELSE Full
LatestCounts == phase = "done" =>
  LET o == Out(set, req) IN
  /\ o.client = LastOf({"client"}, S0.client) /\ o.store = LastOf({"store"}, S0.store) /\ o.endpoint = LastOf({"endpoint"}, S0.endpoint)
  /\ o.byref = LastOf({"by_reference", "by_value"}, NA)
  /\ o.nonce = LastOf({"nonce"}, LastOf({"default_nonce"}, "n0")) /\ o.state = LastOf({"state"}, LastOf({"default_state"}, NA)) /\ o.meta = LastOf({"meta"}, LastOf({"default_meta"}, NA))
\* A request's settings never change the verifier's.
RequestsApart == [][phase = "request" => set' = set]_vars
CopiesStay == [][kept.phase # NA => kept' = kept]_vars
Emit == phase = "done" => PrintT(<<"VEC", ToJson([start |-> start, hist |-> hist, out |-> Out(set, req), next |-> Out(set, [NoReq EXCEPT !.query = "q9"]),
          kept |-> kept.phase, keptout |-> Out(kept.set, IF kept.phase = "verifier" THEN [NoReq EXCEPT !.query = "q9"] ELSE kept.req)])>>)
================================================================================
