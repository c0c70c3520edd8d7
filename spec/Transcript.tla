------------------------------ MODULE Transcript ------------------------------
(***************************************************************************)
(* Reading handovers and session transcripts from CBOR                     *)
(* (src/core/iso_18013_7): only the right kind, whole, is read.            *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>
Redirect == "OpenID4VPHandover"
Api == "OpenID4VPDCAPIHandover"
Names == {Redirect, Api, "", "openid4vphandover", "OpenID4VPHandove", "OpenID4VPHandoverx", "OpenID4VPHandover ", "OID4VPHandover",
          "OpenID4VPDCAPIHandove", "OpenID4VPDCAPIHandoverx", "!number", "!null", "!bytes", "!array"}
Dom == [
  kind  |-> {"redirect", "dcapi"},            \* what is expected
  outer |-> {"handover", "transcript"},
  name  |-> Names,
  hash  |-> {"zero", "ff", "count", "!number", "!null", "!map", "!missing"},
  first |-> {"null", "number", "text", "bytes"},
  second|-> {"null", "number", "text", "bytes"},
  third |-> {"handover", "null", "missing", "text", "emptyarray"},
  shape |-> {"array", "map", "number", "null", "text", "empty", "truncated"}
]
Fields == <<"kind", "outer", "name", "hash", "first", "second", "third", "shape">>
Base == [kind |-> "redirect", outer |-> "handover", name |-> Redirect, hash |-> "count", first |-> "null", second |-> "null",
         third |-> "handover", shape |-> "array"]
Bases == {[Base EXCEPT !.kind = k, !.outer = o, !.name = IF k = "redirect" THEN Redirect ELSE Api] :
            k \in {"redirect", "dcapi"}, o \in {"handover", "transcript"}}
Sensible == /\ c.outer = "handover" => c.first = "null" /\ c.second = "null" /\ c.third = "handover"
            /\ c.shape # "array" => c.name \in {Redirect, Api} /\ c.hash = Base.hash
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ Sensible /\ pc' = "shape" /\ dv' = Fresh /\ UNCHANGED <<c, res>>
Step(l, bad, next) == pc = l /\ UNCHANGED <<c, dv>> /\
                      IF bad THEN res' = "err" /\ pc' = "done"
                      ELSE pc' = next /\ res' = IF next = "done" THEN "ok" ELSE res
Check == \/ Step("shape", c.shape # "array", IF c.outer = "transcript" THEN "nulls" ELSE "name")
         \/ Step("nulls", c.first # "null" \/ c.second # "null" \/ c.third # "handover", "name")
         \/ Step("name", c.name # (IF c.kind = "redirect" THEN Redirect ELSE Api), "hash")
         \/ Step("hash", c.hash \notin {"zero", "ff", "count"}, "done")
Next == Environment \/ Ask \/ Check
Spec == Init /\ [][Next]_vars
RightKind == res = "ok" => c.name = (IF c.kind = "redirect" THEN Redirect ELSE Api)
Whole == res = "ok" => c.shape = "array" /\ c.third = "handover" /\ c.hash # "!missing"
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok"])>>)
================================================================================
