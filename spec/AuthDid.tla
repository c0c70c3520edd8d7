-------------------------------- MODULE AuthDid --------------------------------
(***************************************************************************)
(* Authentication of a client by its DID: verify_with_resolver             *)
(* (src/core/authorization_request/verification/did.rs).  The environment  *)
(* (an adversary) chooses the JWT, the identifier it claims, the wallet's  *)
(* configuration, and what the resolver knows.                             *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, asked, res
vars == <<c, dv, pc, asked, res>>

D == "did:example:verifier"
E == "did:example:evil"
Near == {"did:example:verifie", "did:example:verifierx", "DID:EXAMPLE:VERIFIER", "did:example:verifier?versionId=1",
         " did:example:verifier", "did:example:verifier/path", "x:did:example:verifier", "did:example:verifier ",
         "did:example:verifier:sub", "did:example:verifi%65r", "did:example:evil,did:example:verifier"}
H == "did:example:verifier#k1"   \* no DID, but the name of one of its keys
Dids == {D, E, "", H} \cup Near

Lists == {[s |-> "-", l |-> <<>>], [s |-> "bad", l |-> <<>>]}
         \cup {[s |-> "ok", l |-> x] : x \in {<<>>, <<"ES256">>, <<"EdDSA">>, <<"EdDSA", "ES256">>, <<"none">>, <<"ES256", "none">>,
                                              <<"es256">>, <<"ES256none", "ES256">>, <<"ES384", "ES512">>, <<"None", "HS256">>, <<"ES256 ">>, <<"ES256K", "ES256">>}}
Trust == {[s |-> "all", l |-> <<>>]}
         \cup {[s |-> "ok", l |-> x] : x \in {<<>>, <<D>>, <<E>>, <<E, D>>, <<"did:example:verifierx", "did:example:verifie">>,
                                              <<"did:example:verifier#k1">>, <<"decentralized_identifier:did:example:verifier">>,
                                              <<"">>, <<"did:example:">>, <<"DID:EXAMPLE:VERIFIER">>,
                                              <<"*">>, <<"did:example:*">>, <<"did:example:verifier*">>, <<"did:">>}}
Dom == [
  jwt   |-> {"ok", "twoparts", "fourparts", "headerb64", "headerjson", "headerlist", "empty"},
  alg   |-> {"ES256", "EdDSA", "ES384", "HS256", "none", "None", "es256", "ES256K", "ES256none", "", "-", "#"},
  walgs |-> Lists,                       \* request_object_signing_alg_values_supported
  kdid  |-> Dids,                        \* the DID in the kid header ...
  kform |-> {"frag", "nofrag", "emptyfrag", "-", "#", "word", "list", "null"},
  cdid  |-> Dids,                        \* ... and in the client identifier
  cform |-> {"prefixed", "raw", "-", "double", "case", "other"},
  trust |-> Trust,
  knows |-> {"right", "other", "otherkind", "fail"},  \* what the resolver returns for exactly that kid
  key   |-> {"P-256", "Ed25519"},        \* the kind of key that signed
  \* headers that say nothing about who signed: the signer's own key, another's, where to find keys, names and trust
  hdr   |-> {"-", "jwk", "jwkother", "jku", "x5c", "kids", "claims"},
  sig   |-> {"valid", "body", "header", "flip", "garbage", "empty", "truncated", "extended", "notb64"},
  size  |-> {"usual"}                    \* of what is signed
]
\* Values that count as two changes: long lists.
Many(x) == [i \in 1..40 |-> IF i = 40 THEN x ELSE IF i % 2 = 0 THEN "did:example:verifier:" \o ToString(i) ELSE "did:example:" \o ToString(i)]
ManyAlgs(x) == [i \in 1..20 |-> IF i = 20 THEN x ELSE "X" \o ToString(i)]
Odd == [f \in {"jwt", "alg", "walgs", "kdid", "kform", "cdid", "cform", "trust", "knows", "key", "hdr", "sig", "size"} |->
          CASE f = "size" -> {"big"}
            [] f = "trust" -> {[s |-> "ok", l |-> Many(D)], [s |-> "ok", l |-> Many(E)]}
            [] f = "walgs" -> {[s |-> "ok", l |-> ManyAlgs("ES256")], [s |-> "ok", l |-> ManyAlgs("EdDSA")]}
            [] OTHER -> {}]
Fields == <<"jwt", "alg", "walgs", "kdid", "kform", "cdid", "cform", "trust", "knows", "key", "hdr", "sig", "size">>
Is(l) == [s |-> "ok", l |-> l]
Base == [jwt |-> "ok", alg |-> "ES256", walgs |-> Is(<<"ES256">>), kdid |-> D, kform |-> "frag", cdid |-> D,
         cform |-> "prefixed", trust |-> [s |-> "all", l |-> <<>>], knows |-> "right", key |-> "P-256", hdr |-> "-", sig |-> "valid", size |-> "usual"]
Bases == {Base,
          [Base EXCEPT !.trust = Is(<<E, D>>), !.walgs = Is(<<"EdDSA", "ES256">>), !.cform = "raw"],
          [Base EXCEPT !.alg = "EdDSA", !.key = "Ed25519", !.walgs = Is(<<"EdDSA", "ES256">>)],
          [Base EXCEPT !.alg = "none", !.walgs = Is(<<"ES256", "none">>), !.sig = "empty"],
          [Base EXCEPT !.kdid = E, !.cdid = E, !.trust = Is(<<D>>)]}

\* DIDs of other methods, also those that contain their key, are treated alike.
Methods == {"did:key:zDnaerDaTF5BXEavCrfRZEk316dpbLsfPDZ3WJ5hRTPFU2169", "did:jwk:eyJrdHkiOiJFQyJ9", "did:web:verifier.example", "did:web:verifier.example%3A8443:a:b",
            "did:peer:0z6Mk", "did:ion:x:y", "did:x:"}
OfMethods == {[Base EXCEPT !.kdid = m, !.cdid = m, !.trust = t, !.knows = k, !.sig = g, !.cform = f, !.hdr = h] :
                m \in Methods, t \in {[s |-> "all", l |-> <<>>], Is(<<>>), Is(<<D>>), Is(<<E, "did:web:verifier.example">>), Is(<<"did:key:*", "did:web:*">>)},
                k \in {"right", "other", "fail"}, g \in {"valid", "flip", "empty"}, f \in {"prefixed", "raw"}, h \in {"-", "jwk"}}
\* Every near miss of a DID in place of it, wherever it stands: none of them is it.
Nearer == Near \cup {"did:example:verifier:", "did:example:verifier::", "did:example:verifier;", "did:example:verifier;x=1", "did:example:verifier.", "did:example:verifier/",
                    "did:example:verifier?", "did:example:verifier&x=1", "did:example:verifier=", "did:example::verifier", "did:example:%76erifier", "did:exampl:verifier",
                    "example:verifier", "verifier", "did:verifier", "did:example:verifier,did:example:evil", "did:example:Verifier", "did:example:v", "did:example:", "did:example",
                    "did:example:verifier\t", "did:example:verifier@evil", "did:example:verifier*", "did:example:verifier-evil", "did:example:verifier%00", "DID:example:verifier",
                    "did:EXAMPLE:verifier", "did::example:verifier", ":did:example:verifier", "did:example:verifier%20", "did:example:verifier:k1", "decentralized_identifier:did:example:verifier"}
All == [s |-> "all", l |-> <<>>]
OfNear == {[Base EXCEPT !.kdid = n, !.cdid = n, !.trust = t] : n \in Nearer \ {"decentralized_identifier:did:example:verifier"}, t \in {Is(<<D>>), Is(<<E, D>>)}}
          \cup {[Base EXCEPT !.trust = Is(t), !.cform = f] : t \in {<<n>> : n \in Nearer} \cup {<<n, E>> : n \in Nearer}, f \in {"prefixed", "raw"}}
          \cup UNION {{[Base EXCEPT !.kdid = n, !.trust = t] : t \in {Is(<<D>>), Is(<<n, D>>), All}} : n \in Nearer}
          \cup UNION {{[Base EXCEPT !.cdid = n, !.trust = t, !.cform = f] : t \in {Is(<<D>>), Is(<<n, D>>), All}, f \in {"prefixed", "raw"}} : n \in Nearer}
\* A claim that is the prefixed form of the right one is the right one, once.
Rightly == {x \in OfNear : ~(x.cform = "raw" /\ x.cdid = "decentralized_identifier:did:example:verifier")}
Init == c \in Bases \cup OfMethods \cup Rightly /\ dv = Fresh /\ pc = "vary" /\ asked = 0 /\ res = "-"
Environment == pc = "vary" /\ c \notin OfMethods \cup Rightly /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, asked, res>>
\* A claim with no DID at all is only explored on one side.
\* What algorithm names besides its own an Ed25519 key goes with is the business of the JWS library.
\* Whether a key may be named with two fragments is left open where nothing else is wrong.
Sensible == /\ ~(c.kdid = "" /\ c.cdid = "")
            /\ c.kdid = H => c.cdid # D /\ c.kform # "nofrag"
            /\ c.key = "Ed25519" => c.alg \in {"EdDSA", "none", "-", "#"}
Ask == pc = "vary" /\ Sensible /\ pc' = "parse" /\ dv' = Fresh /\ UNCHANGED <<c, asked, res>>

Step(l, bad, next) == pc = l /\ UNCHANGED <<c, dv, asked>> /\
                      IF bad THEN res' = "err" /\ pc' = "done" ELSE pc' = next /\ UNCHANGED res
\* The DID a client identifier stands for: the prefix, spelt exactly, is removed once.
Claimed == CASE c.cform \in {"prefixed", "raw"} -> c.cdid
             [] c.cform = "double" -> "decentralized_identifier:" \o c.cdid
             [] c.cform = "case" -> "Decentralized_Identifier:" \o c.cdid
             [] c.cform = "other" -> "x509_san_dns:" \o c.cdid
             [] OTHER -> "NONE"
\* The DID a key's name begins with ends at the first "#".
KeyOf == IF c.kdid = H THEN D ELSE c.kdid
Fits == (c.alg = "ES256" /\ c.key = "P-256") \/ (c.alg = "EdDSA" /\ c.key = "Ed25519")

Unsigned == pc = "none" /\ UNCHANGED <<c, dv, asked>> /\
            IF c.alg = "none" THEN res' = "ok" /\ pc' = "done" ELSE pc' = "kid" /\ UNCHANGED res
Resolve == pc = "resolve" /\ asked' = asked + 1 /\ UNCHANGED <<c, dv>> /\
           IF c.knows = "fail" THEN res' = "err" /\ pc' = "done" ELSE pc' = "sig" /\ UNCHANGED res
Verify == pc = "sig" /\ UNCHANGED <<c, dv, asked>> /\ pc' = "done" /\
          res' = IF c.knows = "right" /\ c.sig = "valid" /\ Fits /\ c.jwt = "ok" THEN "ok" ELSE "err"
Check == \/ Step("parse", c.jwt \in {"twoparts", "headerb64", "headerjson", "headerlist", "empty"}, "alg")
         \/ Step("alg", c.walgs.s # "ok" \/ c.alg \notin Range(c.walgs.l), "none")
         \/ Step("kid", c.kform \in {"-", "#", "nofrag", "word", "list", "null"}, "cid")
         \/ Step("cid", Claimed # KeyOf, "trust")
         \/ Step("trust", c.trust.s = "ok" /\ KeyOf \notin Range(c.trust.l), "resolve")
Next == Environment \/ Ask \/ Check \/ Unsigned \/ Resolve \/ Verify
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Signed == res = "ok" /\ c.alg # "none"
\* Accepted means: signed with the key the DID resolver gives for that very key of the claimed DID.
Authentic == Signed => /\ c.sig = "valid" /\ c.knows = "right" /\ asked = 1
                       /\ c.kform \in {"frag", "emptyfrag"} /\ c.kdid = c.cdid /\ c.cform \in {"prefixed", "raw"}
Trusted == (Signed /\ c.trust.s = "ok") => c.cdid \in Range(c.trust.l)
AlgDeclared == res = "ok" => c.walgs.s = "ok" /\ c.alg \in Range(c.walgs.l)
UntrustedNeverResolved == asked > 0 => (c.trust.s = "ok" => KeyOf \in Range(c.trust.l)) /\ KeyOf = Claimed
ProperAccepted == (pc = "done" /\ res = "err") =>
  ~ /\ c.jwt = "ok" /\ Fits /\ c.walgs.s = "ok" /\ c.alg \in Range(c.walgs.l) /\ c.kform = "frag" /\ c.kdid = c.cdid /\ c.kdid # H
    /\ c.cform \in {"prefixed", "raw"} /\ (c.trust.s = "all" \/ c.cdid \in Range(c.trust.l))
    /\ c.knows = "right" /\ c.sig = "valid"

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok", asked |-> asked])>>)
================================================================================
