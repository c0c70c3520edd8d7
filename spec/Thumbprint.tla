------------------------------ MODULE Thumbprint ------------------------------
(***************************************************************************)
(* JWK thumbprints (RFC 7638; compute_jwk_thumbprint in                    *)
(* src/core/iso_18013_7): the text that is hashed, spelt out.              *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>
Val == {"a", "b", "AQAB", "f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU", "P-256", "P-384", "EC", "RSA", "", "-", "#", "null", "@long", "@unicode", "AA==", "a+b/c", " a ", "a b", "a.b", "A"}
Dom == [kty |-> {"EC", "RSA", "ec", "rsa", "", "-", "#", "null"}, crv |-> Val, x |-> Val, y |-> Val, e |-> Val, n |-> Val,
        extra |-> {"none", "common", "private", "odd"}, order |-> {"sorted", "reverse"}]
Fields == <<"kty", "crv", "x", "y", "e", "n", "extra", "order">>
Base == [kty |-> "EC", crv |-> "P-256", x |-> "a", y |-> "b", e |-> "-", n |-> "-", extra |-> "none", order |-> "sorted"]
Bases == {Base, [Base EXCEPT !.kty = "RSA", !.crv = "-", !.x = "-", !.y = "-", !.e = "AQAB", !.n = "b", !.extra = "common"],
          [Base EXCEPT !.e = "AQAB", !.n = "b", !.x = "b", !.y = "a"]}
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ pc' = "hash" /\ dv' = Fresh /\ UNCHANGED <<c, res>>
Is(v) == v \notin {"-", "#", "null"}
Q(k, v) == "\"" \o k \o "\":\"" \o v \o "\""
Hash == pc = "hash" /\ pc' = "done" /\ UNCHANGED <<c, dv>> /\ res' =
  CASE c.kty = "EC" /\ Is(c.crv) /\ Is(c.x) /\ Is(c.y) ->
         "{" \o Q("crv", c.crv) \o "," \o Q("kty", "EC") \o "," \o Q("x", c.x) \o "," \o Q("y", c.y) \o "}"
    [] c.kty = "RSA" /\ Is(c.e) /\ Is(c.n) -> "{" \o Q("e", c.e) \o "," \o Q("kty", "RSA") \o "," \o Q("n", c.n) \o "}"
    [] OTHER -> "ERR"
Next == Environment \/ Ask \/ Hash
Spec == Init /\ [][Next]_vars
\* Only what makes up the public key counts.
Whole == (pc = "done" /\ res # "ERR") => c.kty \in {"EC", "RSA"}
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, res |-> res])>>)
================================================================================
