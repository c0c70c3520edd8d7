-------------------------------- MODULE Encrypt --------------------------------
(***************************************************************************)
(* Whether a wallet can answer the way a request wants it answered: the    *)
(* negotiation of encrypted responses in validate_request_against_metadata *)
(* (src/core/authorization_request/verification/mod.rs).                   *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, algs, res
vars == <<c, dv, pc, algs, res>>

\* A key of the verifier, as its 'use' and 'alg' members; "-" for absent, "#" for a non-string.
Key(u, a) == [use |-> u, alg |-> a]
Kinds == {Key("enc", "ECDH-ES"), Key("enc", "RSA-OAEP-256"), Key("enc", "-"), Key("enc", "#"), Key("sig", "ECDH-ES"),
          Key("-", "ECDH-ES"), Key("ENC", "ECDH-ES"), Key("#", "ECDH-ES"), Key("enc", "ecdh-es")}
KeySets == {<<>>} \cup {<<k>> : k \in Kinds} \cup {<<k, l>> : k, l \in Kinds}

Good == Key("enc", "ECDH-ES")
Odder == {Key("enc ", "ECDH-ES"), Key("Enc", "ECDH-ES"), Key("encryption", "ECDH-ES"), Key("", "ECDH-ES"), Key("enc", ""), Key("enc", "ECDH-ES "),
          Key("enc", "ECDH-ES+A256KW"), Key("enc", "ECDH"), Key("sig", "ES256"), Key("-", "-"), Key("enc", "dir")}
OddKeySets == {<<k>> : k \in Odder} \cup {<<k, Good>> : k \in Odder} \cup {<<Good, k>> : k \in Odder}
              \cup {<<k, l, Good>> : k, l \in {Key("sig", "ES256"), Key("enc", "-"), Key("enc", "RSA-OAEP-256")}}
              \cup {[i \in 1..40 |-> IF i = 40 THEN Good ELSE Key("sig", "ES256")],
                    [i \in 1..40 |-> Key("enc", "RSA-OAEP-256")], [i \in 1..40 |-> IF i = 40 THEN Good ELSE Key("enc", "RSA-OAEP-256")]}

Lists(A) == {[s |-> "-", l |-> <<>>], [s |-> "bad", l |-> <<>>], [s |-> "ok", l |-> <<>>]}
            \cup {[s |-> "ok", l |-> x] : x \in A}
EncLists == Lists({<<"A128GCM">>, <<"A256GCM">>, <<"A256GCM", "A128GCM">>, <<"a128gcm">>})
AlgLists == Lists({<<"ECDH-ES">>, <<"RSA-OAEP-256">>, <<"RSA-OAEP-256", "ECDH-ES">>, <<"ECDH-ES+A128KW">>})

Dom == [
  \* how the request comes and from whom: neither matters
  how  |-> {"direct", "value", "reference"},
  who  |-> {"client-1", "redirect_uri:https://v.example/r", "x509_san_dns:v.example", "x509_hash:abc", "decentralized_identifier:did:example:1",
            "verifier_attestation:v", "openid_federation:https://f.example", "custom:v"},
  mode |-> {"direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"},
  meta |-> {"ok", "-", "bad"},                       \* client_metadata
  jwks |-> {"ok", "-", "bad", "nokeys"},
  keys |-> KeySets,
  kty  |-> {"EC", "OKP", "RSA"},                     \* of what type the keys are, and what more is said of them
  enc  |-> EncLists,                                 \* encrypted_response_enc_values_supported
  walg |-> AlgLists,                                 \* the wallet's authorization_encryption_*
  wenc |-> EncLists
]
Odd == [
  how |-> {}, who |-> {}, mode |-> {}, meta |-> {"-null", "list"}, jwks |-> {"-null", "badkey", "string"}, keys |-> OddKeySets, kty |-> {"ops", "named", "oct", "bare"},
  enc  |-> {[s |-> "ok", l |-> x] : x \in {<<"A128GCM ">>, <<"A128CBC-HS256">>, <<"A192GCM", "A256GCM", "A128GCM">>, <<"">>, <<"A128">>}}
           \cup {[s |-> "items", l |-> <<>>]},
  walg |-> {[s |-> "ok", l |-> x] : x \in {<<"ECDH-ES ">>, <<"ecdh-es">>, <<"ECDH">>, <<"dir", "RSA-OAEP-256", "ECDH-ES">>, <<"">>,
                                           <<"ECDH-ES+A256KW">>}} \cup {[s |-> "items", l |-> <<>>]},
  wenc |-> {[s |-> "ok", l |-> x] : x \in {<<"A128GCM ">>, <<"A128CBC-HS256">>, <<"A192GCM", "A256GCM", "A128GCM">>, <<"">>, <<"A128">>}}
           \cup {[s |-> "items", l |-> <<>>]}
]
Fields == <<"how", "who", "mode", "meta", "jwks", "keys", "kty", "enc", "walg", "wenc">>
No == [s |-> "-", l |-> <<>>]
Is(l) == [s |-> "ok", l |-> l]
Base == [how |-> "direct", who |-> "client-1", mode |-> "direct_post.jwt", meta |-> "ok", jwks |-> "ok", keys |-> <<Key("enc", "ECDH-ES")>>, kty |-> "EC",
         enc |-> No, walg |-> No, wenc |-> No]
Bases == {Base, [Base EXCEPT !.how = "value", !.who = "x509_san_dns:v.example", !.mode = "dc_api.jwt", !.walg = Is(<<"RSA-OAEP-256", "ECDH-ES">>), !.wenc = Is(<<"A256GCM">>),
                             !.enc = Is(<<"A256GCM", "A128GCM">>)],
          [Base EXCEPT !.mode = "direct_post"]}

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ algs = {} /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, algs, res>>
Bad == {"bad", "items"}                    \* "items": a list, of things that are not texts
\* Offering no content encryption at all, to a wallet that declares none, is left open.
Sensible == ~(c.enc = Is(<<>>) /\ c.wenc = No)
Ask == pc = "vary" /\ Sensible /\ pc' = "meta" /\ dv' = Fresh /\ UNCHANGED <<c, algs, res>>

Done(r) == res' = r /\ pc' = "done" /\ UNCHANGED <<c, dv, algs>>
Goto(l) == pc' = l /\ UNCHANGED <<c, dv, algs, res>>
Meta == pc = "meta" /\ IF c.meta \in {"bad", "-null", "list"} THEN Done("err") ELSE Goto("mode")
Mode == pc = "mode" /\ CASE c.mode \in {"direct_post", "dc_api"} -> Done("ok")
                         [] OTHER -> Goto("keys")
Keys == pc = "keys" /\
  IF c.meta = "-" \/ c.jwks # "ok" THEN Done("err")
  ELSE /\ algs' = {c.keys[i].alg : i \in {j \in DOMAIN c.keys : c.keys[j].use = "enc"}} \ {"-", "#"}
       /\ pc' = "alg" /\ UNCHANGED <<c, dv, res>>
Alg == pc = "alg" /\
  IF algs = {} \/ c.walg.s \in Bad \/ (c.walg.s = "ok" /\ algs \cap Range(c.walg.l) = {}) THEN Done("err") ELSE Goto("enc")
Encs == IF c.enc.s = "-" THEN {"A128GCM"} ELSE Range(c.enc.l)
Enc == pc = "enc" /\
  Done(IF c.enc.s \in Bad \/ c.wenc.s \in Bad \/ (c.wenc.s = "ok" /\ Encs \cap Range(c.wenc.l) = {}) THEN "err" ELSE "ok")

Next == Environment \/ Ask \/ Meta \/ Mode \/ Keys \/ Alg \/ Enc
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Encrypted == c.mode \in {"direct_post.jwt", "dc_api.jwt"}
\* An encrypted answer is only promised when there is a key for it and both sides know how.
CanEncrypt == (res = "ok" /\ Encrypted) =>
  \E i \in DOMAIN c.keys : /\ c.keys[i].use = "enc" /\ c.keys[i].alg \notin {"-", "#"}
                           /\ c.walg.s = "ok" => c.keys[i].alg \in Range(c.walg.l)
CommonEnc == (res = "ok" /\ Encrypted /\ c.wenc.s = "ok") => Encs \cap Range(c.wenc.l) # {}
PlainNeedsNothing == (pc = "done" /\ c.mode \in {"direct_post", "dc_api"}) => (res = "ok" <=> c.meta \in {"ok", "-"})
MalformedRefused == (res = "ok" /\ Encrypted) => {"bad", "items", "-null", "list", "badkey", "string"} \cap {c.meta, c.jwks, c.enc.s, c.walg.s, c.wenc.s} = {}

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok"])>>)
================================================================================
