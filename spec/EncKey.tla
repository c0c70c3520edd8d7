-------------------------------- MODULE EncKey --------------------------------
(***************************************************************************)
(* Whom a response is encrypted to: find_encryption_jwk and                *)
(* build_encrypted_response (src/core/jwe.rs), and the key that the        *)
(* session transcript names, get_encryption_jwk_thumbprint                 *)
(* (src/core/iso_18013_7).  The environment writes the client metadata.    *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K, MaxKeys
VARIABLES c, dv, pc, keys, sel, res
vars == <<c, dv, pc, keys, sel, res>>

Key(kty, crv, use, alg, kid) == [kty |-> kty, crv |-> crv, use |-> use, alg |-> alg, kid |-> kid]
Kinds == [
  good   |-> Key("EC", "P-256", "enc", "ECDH-ES", "k-good"),
  other  |-> Key("EC", "P-256", "enc", "ECDH-ES", "k-other"),
  nouse  |-> Key("EC", "P-256", "-", "ECDH-ES", "k-nouse"),
  nokid  |-> Key("EC", "P-256", "enc", "ECDH-ES", "-"),
  sig    |-> Key("EC", "P-256", "sig", "ES256", "k-sig"),
  sigecdh|-> Key("EC", "P-256", "sig", "ECDH-ES", "k-sigecdh"),
  plain  |-> Key("EC", "P-256", "-", "ES256", "k-plain"),        \* a signing key that does not say so
  bare   |-> Key("EC", "P-256", "-", "-", "k-bare"),
  noalg  |-> Key("EC", "P-256", "enc", "-", "k-noalg"),
  kw     |-> Key("EC", "P-256", "enc", "ECDH-ES+A256KW", "k-kw"),
  rsa    |-> Key("RSA", "-", "enc", "RSA-OAEP-256", "k-rsa"),
  p384   |-> Key("EC", "P-384", "enc", "ECDH-ES", "k-p384"),
  \* Nearly usable keys (each counts as two).
  useempty |-> Key("EC", "P-256", "", "ECDH-ES", "k-useempty"),
  useupper |-> Key("EC", "P-256", "ENC", "ECDH-ES", "k-useupper"),
  uselong  |-> Key("EC", "P-256", "encrypt", "ECDH-ES", "k-uselong"),
  useboth  |-> Key("EC", "P-256", "sig enc", "ECDH-ES", "k-useboth"),
  alglower |-> Key("EC", "P-256", "enc", "ecdh-es", "k-alglower"),
  algspace |-> Key("EC", "P-256", "enc", "ECDH-ES ", "k-algspace"),
  algempty |-> Key("EC", "P-256", "enc", "", "k-algempty"),
  ecdh1pu  |-> Key("EC", "P-256", "enc", "ECDH-1PU", "k-ecdh1pu"),
  nocrv    |-> Key("EC", "-", "enc", "ECDH-ES", "k-nocrv"),
  crvblank |-> Key("EC", "P-256 ", "enc", "ECDH-ES", "k-crvblank"),
  crvempty |-> Key("EC", "", "enc", "ECDH-ES", "k-crvempty"),
  dir      |-> Key("EC", "P-256", "enc", "dir", "k-dir"),
  crvlower |-> Key("EC", "p-256", "enc", "ECDH-ES", "k-crvlower"),
  crv256k  |-> Key("EC", "secp256k1", "enc", "ECDH-ES", "k-crv256k"),
  p521     |-> Key("EC", "P-521", "-", "ECDH-ES", "k-p521"),
  okp      |-> Key("OKP", "X25519", "enc", "ECDH-ES", "k-okp"),
  oddkid   |-> Key("EC", "P-256", "enc", "ECDH-ES", " k/+=&%41"),
  emptykid |-> Key("EC", "P-256", "enc", "ECDH-ES", "")
]
OddKinds == {"nocrv", "crvblank", "crvempty", "dir", "useempty", "useupper", "uselong", "useboth", "alglower", "algspace", "algempty", "ecdh1pu", "crvlower", "crv256k", "p521", "okp",
             "oddkid", "emptykid"}
\* Thirty keys none of which is usable, which may come first.
Crowd == [i \in 1..30 |-> CASE i % 3 = 0 -> "sig" [] i % 3 = 1 -> "rsa" [] OTHER -> "kw"]
Dom == [
  meta  |-> {"ok", "-", "nojwks", "string", "jwksstring", "jwkslist", "keysobject"},
  enc   |-> {"-", "none", "A256GCM", "A128GCM,A256GCM", "A256GCM,A128GCM", "A128CBC-HS256", "string", "number"},
  state |-> {"-", "", "x y&z"},
  token |-> {"one", "many", "empty", "objects"},
  mode  |-> {"direct_post.jwt", "dc_api.jwt"}
]
Fields == <<"meta", "enc", "state", "token", "mode">>
Base == [meta |-> "ok", enc |-> "-", state |-> "-", token |-> "one", mode |-> "direct_post.jwt"]
Init == c = Base /\ dv = Fresh /\ pc = "keys" /\ keys \in {<<>>, Crowd} /\ sel = "-" /\ res = "-"
Weight(s) == Len(s) + Cardinality({i \in DOMAIN s : s[i] \in OddKinds}) - (IF Len(s) >= 30 THEN 29 ELSE 0)
AddKey == pc = "keys" /\ \E k \in DOMAIN Kinds : keys' = Append(keys, k) /\ Weight(keys') <= MaxKeys
          /\ UNCHANGED <<c, dv, pc, sel, res>>
Environment == pc \in {"keys", "vary"} /\ Change(c, c', dv, dv', Dom, Fields, K) /\ pc' = "vary" /\ UNCHANGED <<keys, sel, res>>
Ask == pc \in {"keys", "vary"} /\ pc' = "meta" /\ dv' = Fresh /\ UNCHANGED <<c, keys, sel, res>>

Usable(k) == Kinds[k].alg = "ECDH-ES" /\ Kinds[k].crv = "P-256" /\ Kinds[k].use \in {"enc", "-"}
RECURSIVE FirstUsable(_)
FirstUsable(s) == IF s = <<>> THEN "none" ELSE IF Usable(Head(s)) THEN Head(s) ELSE FirstUsable(Tail(s))
Fail == res' = "err" /\ pc' = "done" /\ UNCHANGED <<c, dv, keys>>
Meta == pc = "meta" /\ IF c.meta # "ok" THEN Fail /\ UNCHANGED sel ELSE pc' = "select" /\ UNCHANGED <<c, dv, keys, sel, res>>
Select == pc = "select" /\ sel' = FirstUsable(keys) /\
          IF sel' = "none" THEN Fail ELSE pc' = "encrypt" /\ UNCHANGED <<c, dv, keys, res>>
Enc == CASE c.enc \in {"-", "none", "A128GCM,A256GCM"} -> "A128GCM" [] c.enc = "A256GCM,A128GCM" -> "A256GCM" [] OTHER -> c.enc
Encrypt == pc = "encrypt" /\ IF c.enc \in {"string", "number"} THEN Fail /\ UNCHANGED sel
           ELSE res' = "ok" /\ pc' = "done" /\ UNCHANGED <<c, dv, keys, sel>>
Next == AddKey \/ Environment \/ Ask \/ Meta \/ Select \/ Encrypt
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
ForEncryption == res = "ok" => Usable(sel) /\ \E i \in DOMAIN keys : keys[i] = sel
NeverSigning == sel \notin {"sig", "sigecdh", "plain"}
EncryptsIfPossible == (pc = "done" /\ c.meta = "ok" /\ res = "err") => (c.enc \in {"string", "number"} \/ \A i \in DOMAIN keys : ~Usable(keys[i]))
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, keys |-> [i \in DOMAIN keys |-> [name |-> keys[i], key |-> Kinds[keys[i]]]],
                                              sel |-> sel, ok |-> res = "ok", enc |-> Enc])>>)
================================================================================
