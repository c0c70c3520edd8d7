-------------------------------- MODULE Client --------------------------------
(***************************************************************************)
(* The verifier's own identity: DIDClient, X509SanDnsClient,               *)
(* X509HashClient (src/verifier/client.rs) and the request objects they    *)
(* sign.  A client, once made, is asked twice for a signed request object; *)
(* each must be accepted by the wallet's own validator for that kind of    *)
(* client.  The environment chooses the key material and when signing      *)
(* fails.                                                                  *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, id, jwts
vars == <<c, dv, pc, id, jwts>>

Vms == [a |-> [did |-> "did:example:v", frag |-> "k1"],
        b |-> [did |-> "did:web:v.example%3A8443:u:x", frag |-> "key-1"],
        c |-> [did |-> "did:key:zDnaerx9CtbPJ1q36T5Ln5wYt3MQYeGRG5ehnPAmxcf5mDZpv", frag |-> "zDnaerx9CtbPJ1q36T5Ln5wYt3MQYeGRG5ehnPAmxcf5mDZpv"],
        nofrag |-> [did |-> "did:example:v", frag |-> "-"],
        empty |-> [did |-> "", frag |-> "-"],
        \* A name may itself hold characters that mean something elsewhere, and be long.
        d |-> [did |-> "did:web:v.example:%20a+b?versionId=1&x=y", frag |-> "k/1?q=2"],
        e |-> [did |-> "@long", frag |-> "k1"]]
Leaves == [good |-> <<"v.example">>, multi |-> <<"other.example", "v.example">>, mixed |-> <<"v.example">>,
           uri |-> <<>>, email |-> <<>>, urioth |-> <<"other.example">>, cn |-> <<>>, wild |-> <<"*.example">>,
           sub |-> <<"a.v.example">>, upper |-> <<"V.EXAMPLE">>, deep |-> <<"v.example">>, long |-> <<"@name">>,
           idn |-> <<"xn--bcher-kva.example">>, ip |-> <<>>, last |-> <<"h1.example", "v.example">>]
Dom == [
  kind |-> {"decentralized_identifier", "x509_san_dns", "x509_hash"},
  vm   |-> DOMAIN Vms,
  knows|-> {"right", "other", "otherkid", "private", "otherkind", "fail"},   \* what the DID resolves to
  leaf |-> DOMAIN Leaves \cup {"-"},     \* "-": an empty chain
  rest |-> {"-", "ca", "evil+ca", "good+good+ca", "multi+uri+email+cn+wild+sub+evil+ca"},
  signer |-> {"own", "lib"},             \* the caller's own signer, or the library's
  jwk  |-> {"ok", "fail"},               \* whether the signer gives its public key,
  alg  |-> {"ok", "fail", "ES384", "none", "x y"}, \* its algorithm,
  sign1|-> {"ok", "fail", "odd", "empty", "der", "zeros", "one"},   \* and a signature (or some other bytes), the first
  sign2|-> {"ok", "fail", "odd", "empty", "der", "zeros", "one"},   \* and the second time
  body |-> {"plain", "rich", "other", "noid", "big", "nulls"}
]
Fields == <<"kind", "vm", "knows", "leaf", "rest", "signer", "jwk", "alg", "sign1", "sign2", "body">>
Base == [kind |-> "decentralized_identifier", vm |-> "a", knows |-> "right", leaf |-> "good", rest |-> "-", signer |-> "own", jwk |-> "ok",
         alg |-> "ok", sign1 |-> "ok", sign2 |-> "ok", body |-> "plain"]
Bases == {[Base EXCEPT !.kind = k] : k \in Dom.kind}

Did == c.kind = "decentralized_identifier"
Sensible == /\ Did => c.leaf = Base.leaf /\ c.rest = Base.rest
            /\ c.signer = "lib" => c.jwk = "ok" /\ c.alg = "ok" /\ c.sign1 = "ok" /\ c.sign2 = "ok"
            /\ ~Did => c.vm = Base.vm /\ c.knows = Base.knows /\ c.jwk = Base.jwk

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ id = "-" /\ jwts = <<>>
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, id, jwts>>
Ask == pc = "vary" /\ Sensible /\ pc' = "make" /\ dv' = Fresh /\ UNCHANGED <<c, id, jwts>>
Made(b, i) == id' = (IF b THEN i ELSE "ERR") /\ pc' = (IF b THEN "sign" ELSE "done") /\ UNCHANGED <<c, dv, jwts>>
Make == pc = "make" /\
  CASE Did -> Made(Vms[c.vm].frag # "-" /\ c.knows = "right" /\ c.jwk = "ok", c.kind \o ":" \o Vms[c.vm].did)
    [] c.kind = "x509_san_dns" -> LET ns == IF c.leaf = "-" THEN <<>> ELSE Leaves[c.leaf]
                                  IN IF ns = <<>> THEN Made(FALSE, "") ELSE Made(TRUE, c.kind \o ":" \o ns[1])
    [] OTHER -> Made(c.leaf # "-", c.kind \o ":HASH")
Sign == /\ pc = "sign"
        \* Whatever the signer gives goes into the request, and is its signature; a failure is never papered over.
        /\ jwts' = Append(jwts, IF c.alg = "fail" THEN "fail" ELSE IF Len(jwts) = 0 THEN c.sign1 ELSE c.sign2)
        /\ pc' = IF Len(jwts) = 1 THEN "done" ELSE "sign"
        /\ UNCHANGED <<c, dv, id>>
Next == Environment \/ Ask \/ Make \/ Sign
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
HasId == id \notin {"-", "ERR"}
\* An identity is only assumed with the key that belongs to it.
OwnKey == (HasId /\ Did) => c.knows = "right"
NamedByLeaf == (HasId /\ c.kind = "x509_san_dns") => c.leaf # "-" /\ Leaves[c.leaf] # <<>>
NoIdNoRequest == id = "ERR" => jwts = <<>>
SignsOrFails == \A i \in DOMAIN jwts : jwts[i] # "fail" => c.alg # "fail" /\ (IF i = 1 THEN c.sign1 ELSE c.sign2) = jwts[i]
FailureIsFailure == \A i \in DOMAIN jwts : (c.alg = "fail" \/ (IF i = 1 THEN c.sign1 ELSE c.sign2) = "fail") => jwts[i] = "fail"

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, id |-> id, jwts |-> jwts,
          vm |-> Vms[c.vm].did \o (IF Vms[c.vm].frag = "-" THEN "" ELSE "#" \o Vms[c.vm].frag)])>>)
================================================================================
