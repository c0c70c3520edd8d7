------------------------------- MODULE JweBuild -------------------------------
(***************************************************************************)
(* JweBuilder (src/core/jwe.rs) as a history of calls: each setter may be  *)
(* called several times, the last call counts, and build says what was     *)
(* set or fails.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxCalls
VARIABLES calls, now, pc
vars == <<calls, now, pc>>
Menu == {<<"payload", "object">>, <<"payload", "other">>, <<"payload", "list">>, <<"payload", "empty">>,
         <<"key", "kid">>, <<"key", "nokid">>, <<"keyjson", "sig">>, <<"keyjson", "kid">>, <<"keyjson", "nokid">>,
         <<"alg", "ECDH-ES">>, <<"alg", "ECDH-ES+A128KW">>, <<"alg", "ecdh-es">>,
         <<"enc", "A256GCM">>, <<"enc", "A128CBC-HS256">>, <<"enc", "nonsense">>, <<"kid", "mine">>, <<"kid", "">>}
Slot(m) == IF m[1] = "keyjson" THEN "key" ELSE m[1]
Init == calls = <<>> /\ now = [s \in {"payload", "key", "alg", "enc", "kid"} |-> "-"] /\ pc = "call"
Call == pc = "call" /\ Len(calls) < MaxCalls /\ \E m \in Menu :
          calls' = Append(calls, m) /\ now' = [now EXCEPT ![Slot(m)] = m[2]] /\ UNCHANGED pc
Good == /\ now.payload \in {"object", "other", "empty"} /\ now.key \in {"kid", "nokid"} /\ now.alg = "ECDH-ES" /\ now.enc # "nonsense"
\* Complete builders are explored further than incomplete ones.
Build == pc = "call" /\ pc' = (IF Good THEN "ok" ELSE "err") /\ UNCHANGED <<calls, now>>
Next == Call \/ Build
Spec == Init /\ [][Next]_vars
NothingMissing == pc = "ok" => now.payload # "-" /\ now.key # "-" /\ now.alg # "-"
Emit == pc \in {"ok", "err"} => PrintT(<<"VEC", ToJson([calls |-> calls, now |-> now, ok |-> pc = "ok"])>>)
================================================================================
