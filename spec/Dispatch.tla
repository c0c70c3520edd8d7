------------------------------- MODULE Dispatch -------------------------------
(***************************************************************************)
(* Which authentication a wallet demands of a request: the dispatch on the *)
(* client identifier's prefix in verify_request                            *)
(* (src/core/authorization_request/verification/mod.rs) and                *)
(* ClientId::resolve_prefix.                                               *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, called, res
vars == <<c, dv, pc, called, res>>

\* Client identifiers with their prefix: what precedes the first colon, if there is one.
Ids == <<
  <<"x509_san_dns:v.example", "x509_san_dns">>,
  <<"x509_san_dns:v.example:8443", "x509_san_dns">>,
  <<"x509_hash:Uvo3HtuIxuhC92rShpgqcT3YXwrqRxWEviRiA0OZszk", "x509_hash">>,
  <<"decentralized_identifier:did:example:1", "decentralized_identifier">>,
  <<"openid_federation:https://f.example", "openid_federation">>,
  <<"redirect_uri:https://v.example/cb", "redirect_uri">>,
  <<"verifier_attestation:v.example", "verifier_attestation">>,
  <<"origin:https://v.example", "origin">>,
  <<"origin:", "origin">>,
  <<"pre-registered:v", "pre-registered">>,
  <<"custom:v", "custom">>,
  <<"X509_SAN_DNS:v.example", "X509_SAN_DNS">>,
  <<"Origin:https://v.example", "Origin">>,
  <<" x509_hash:abc", " x509_hash">>,
  <<"x509_hash :abc", "x509_hash ">>,
  <<"x509:abc", "x509">>,
  <<"x509_hash%3Aabc:d", "x509_hash%3Aabc">>,
  <<"x509_hash%3Aabc", "NONE">>,
  <<"x509_san_dns/v:x", "x509_san_dns/v">>,
  <<"redirect_uri?x:y", "redirect_uri?x">>,
  <<"x509_hash#a:b", "x509_hash#a">>,
  <<"x509_hash,x509_san_dns:b", "x509_hash,x509_san_dns">>,
  <<"x509-hash:b", "x509-hash">>,
  <<"did:example:1", "did">>,
  <<"https://v.example", "https">>,
  <<":x509_san_dns:v.example", "">>,
  <<"v:x509_san_dns:v.example", "v">>,
  <<"client-1", "NONE">>,
  <<"x509_san_dns", "NONE">>,
  <<"x509_san_dns.v.example", "NONE">>,
  <<"origin", "NONE">>,
  <<"", "NONE">>,
  <<"ABSENT", "NONE">>          \* no client_id at all
>>
PrefixOf(id) == (CHOOSE i \in Range(Ids) : i[1] = id)[2]

Known == {"decentralized_identifier", "openid_federation", "redirect_uri", "verifier_attestation",
          "x509_san_dns", "x509_hash"}

Dom == [
  cid   |-> {i[1] : i \in Range(Ids)},
  \* the prefixes the wallet declares, relative to the request's
  takes |-> {"undeclared", "all", "allbut", "only", "empty", "malformed", "near"},
  \* what the wallet's hooks do: all accept, the one called first refuses, or is the only one not implemented, or none is implemented
  hooks |-> {"accept", "refuse", "unimplemented", "default"},
  ind   |-> {"value", "reference", "direct"},
  \* an outer client_id, where the request object is a JWT
  outer |-> {"same", "none"},
  mode  |-> {"direct_post", "dc_api", "direct_post.jwt", "dc_api.jwt"},
  \* a client_id_scheme as in old drafts, which says nothing
  old   |-> {"-", "x509_san_dns", "redirect_uri", "pre-registered", "decentralized_identifier"}
]
Fields == <<"cid", "takes", "hooks", "ind", "outer", "mode", "old">>
Base == [cid |-> "client-1", takes |-> "all", hooks |-> "accept", ind |-> "value", outer |-> "same", mode |-> "direct_post", old |-> "-"]

P == PrefixOf(c.cid)
Takes == CASE c.takes = "undeclared" -> P = "pre-registered"
           [] c.takes \in {"all", "only"} -> TRUE
           [] OTHER -> FALSE

Init == c = Base /\ dv = Fresh /\ pc = "vary" /\ called = <<>> /\ res = "-"
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, called, res>>
Ask == pc = "vary" /\ pc' = "prefix" /\ dv' = Fresh /\ UNCHANGED <<c, called, res>>

Done(r) == res' = r /\ pc' = "done" /\ UNCHANGED <<c, dv, called>>
Supported == pc = "prefix" /\
  IF P # "NONE" /\ ~Takes THEN Done("err") ELSE pc' = "dispatch" /\ UNCHANGED <<c, dv, called, res>>
Hook == CASE P \in Known -> P
          [] P = "NONE"  -> "preregistered"
          [] OTHER       -> "other"
Call == pc = "dispatch" /\
  IF P = "origin" THEN Done("err")
  ELSE /\ called' = IF c.hooks = "default" THEN <<>> ELSE Append(called, Hook)
       /\ pc' = "hook" /\ UNCHANGED <<c, dv, res>>
Verdict == pc = "hook" /\ Done(IF c.hooks = "accept" THEN "ok" ELSE "err")

Next == Environment \/ Ask \/ Supported \/ Call \/ Verdict
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* Nothing is accepted that no hook accepted, and only the hook of its prefix counts.
DenyByDefault   == res = "ok" => c.hooks = "accept" /\ called = <<Hook>>
OriginNever     == P = "origin" => called = <<>> /\ res # "ok"
OnlyDeclared    == (called # <<>> /\ P # "NONE") => Takes
OneHook         == Len(called) <= 1
PreRegisteredHasNoPrefix == called = <<"preregistered">> => P = "NONE"
HookDecides     == (pc = "done" /\ called # <<>>) => (res = "ok" <=> c.hooks = "accept")
Reaches         == (pc = "done" /\ c.hooks # "default" /\ P # "origin" /\ (P = "NONE" \/ Takes)) => called = <<Hook>>

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, prefix |-> P, called |-> called, ok |-> res = "ok"])>>)
================================================================================
