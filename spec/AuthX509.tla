------------------------------- MODULE AuthX509 -------------------------------
(***************************************************************************)
(* Authentication of a client by its X.509 certificate: by a DNS name in   *)
(* it (verification/x509_san.rs) or by its hash (verification/x509_hash.rs)*)
(* with the P-256 verifier, or a verifier the wallet brings itself.  The   *)
(* environment (an adversary) chooses the chain, the claimed identifier,   *)
(* the algorithm and who signs.                                            *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K, Kind
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>

San == Kind = "x509_san_dns"
\* Certificates: their DNS names, who issued them, their key.
Certs == [
  good   |-> [dns |-> <<"v.example">>, by |-> "ca", key |-> "A"],
  multi  |-> [dns |-> <<"other.example", "v.example">>, by |-> "ca", key |-> "A"],
  mixed  |-> [dns |-> <<"v.example">>, by |-> "ca", key |-> "A"],            \* e-mail and URI names before it
  uri    |-> [dns |-> <<>>, by |-> "ca", key |-> "A"],                       \* URI v.example
  email  |-> [dns |-> <<>>, by |-> "ca", key |-> "A"],                       \* e-mail v.example
  urioth |-> [dns |-> <<"other.example">>, by |-> "ca", key |-> "A"],        \* URI v.example, DNS other.example
  cn     |-> [dns |-> <<>>, by |-> "ca", key |-> "A"],                       \* only the common name v.example
  wild   |-> [dns |-> <<"*.example">>, by |-> "ca", key |-> "A"],
  sub    |-> [dns |-> <<"a.v.example">>, by |-> "ca", key |-> "A"],
  longer |-> [dns |-> <<"v.example.evil">>, by |-> "ca", key |-> "A"],
  shorter|-> [dns |-> <<"v.exampl", "example">>, by |-> "ca", key |-> "A"],
  upper  |-> [dns |-> <<"V.EXAMPLE">>, by |-> "ca", key |-> "A"],
  p384   |-> [dns |-> <<"v.example">>, by |-> "ca", key |-> "P-384"],
  twin   |-> [dns |-> <<"v.example">>, by |-> "evilca", key |-> "E"],        \* the attacker's own certificate for v.example
  evil   |-> [dns |-> <<"evil.example">>, by |-> "evilca", key |-> "E"],
  ca     |-> [dns |-> <<>>, by |-> "ca", key |-> "CA"],
  \* The name after thirty-nine others; a name with a NUL in it; an internationalised name; an address; a name with a dot at its end.
  last   |-> [dns |-> [i \in 1..40 |-> IF i = 40 THEN "v.example" ELSE "h" \o ToString(i) \o ".example"], by |-> "ca", key |-> "A"],
  nul    |-> [dns |-> <<"v.example@nul.evil">>, by |-> "ca", key |-> "A"],
  idn    |-> [dns |-> <<"xn--bcher-kva.example">>, by |-> "ca", key |-> "A"],
  ip     |-> [dns |-> <<>>, by |-> "ca", key |-> "A"],
  dot    |-> [dns |-> <<"v.example.">>, by |-> "ca", key |-> "A"],
  list   |-> [dns |-> <<"evil.example,v.example", "x v.example">>, by |-> "ca", key |-> "A"]
]
OddCerts == {"last", "nul", "idn", "ip", "dot", "list"}
Leaves == DOMAIN Certs \ OddCerts

Lists == {[s |-> "-", l |-> <<>>], [s |-> "bad", l |-> <<>>]}
         \cup {[s |-> "ok", l |-> x] : x \in {<<>>, <<"ES256">>, <<"ES384", "ES256">>, <<"none", "EdDSA">>, <<"es256">>,
                                              <<"ES384">>, <<"ES2567">>, <<"ES256K", "ES256">>}}
\* The identifier claimed: what follows the prefix, and the prefix.
Values == IF San THEN {"v.example", "other.example", "evil.example", "V.example", "*.example", "example", "a.v.example",
                       "v.example.", "v.example.evil", "", "https://v.example", " v.example", "v.example:443", "v.example/x", "v.example?x", "v.example#x",
                       "x@v.example", "v.example ", "v.example,evil.example", "v%2Eexample", "www.v.example"}
          ELSE {"hash:good", "hash:multi", "hash:evil", "hash:ca", "hash:twin", "hash:p384", "padded:good", "std:good",
                "hex:good", "trunc:good", "longer:good", "spki:good", "tbs:good", "upper:good", ""}
Dom == [
  first |-> Leaves,
  rest  |-> {"-", "ca", "good", "evil"},
  x5c   |-> {"ok", "nopad", "-", "string", "empty", "number", "null", "nested", "badb64", "badder", "emptystring", "spaced", "pem"},
  cid   |-> Values,
  cform |-> {"prefixed", "raw", "-", "double", "case", "other"},
  alg   |-> {"ES256", "ES384", "es256", "none", "HS256", "ES256K", "", "-", "#"},
  walgs |-> Lists,
  signer|-> {"A", "E", "CA"},
  sig   |-> {"valid", "body", "header", "flip", "garbage", "empty", "truncated", "der", "notb64"},
  jwt   |-> {"ok", "twoparts", "fourparts", "headerb64", "headerjson", "headerlist", "empty"},
  roots |-> {"all", "ca", "evilca", "ca+evilca"},
  \* Who verifies: the library's verifier; the wallet's own, which takes every signature, none, or no key.
  ver   |-> {"p256", "yes", "no", "nokey"},
  hdr   |-> {"-"},                          \* further headers: they say nothing about who signed
  size  |-> {"usual"}                       \* of what is signed
]
\* Values that count as two changes.
Odd == [f \in DOMAIN Dom |->
          CASE f = "first" -> OddCerts
            [] f = "rest" -> {"many"}
            [] f = "cid" -> IF San THEN {"xn--bcher-kva.example", "10.0.0.1", "v.example@nul.evil", "evil.example,v.example", "h1.example", "h39.example"}
                            ELSE {"hash:last", "hash:nul", "md5:good", "pem:good", "sha512:good"}
            [] f = "walgs" -> {[s |-> "ok", l |-> [i \in 1..20 |-> IF i = 20 THEN "ES256" ELSE "X" \o ToString(i)]]}
            [] f = "size" -> {"big"}
            [] f = "hdr" -> {"kid", "jwk", "jku", "x5t", "claims"}
            [] f = "sig" -> {"twice", "zero", "padded"}
            [] OTHER -> {}]
Fields == <<"first", "rest", "x5c", "cid", "cform", "alg", "walgs", "signer", "sig", "jwt", "roots", "ver", "hdr", "size">>
Is(l) == [s |-> "ok", l |-> l]
Good == IF San THEN "v.example" ELSE "hash:good"
Base == [first |-> "good", rest |-> "-", x5c |-> "ok", cid |-> Good, cform |-> "prefixed", alg |-> "ES256",
         walgs |-> Is(<<"ES256">>), signer |-> "A", sig |-> "valid", jwt |-> "ok", roots |-> "all", ver |-> "p256", hdr |-> "-", size |-> "usual"]
Bases == {Base,
          [Base EXCEPT !.rest = "ca", !.walgs = Is(<<"ES384", "ES256">>), !.cform = "raw", !.roots = "ca"],
          [Base EXCEPT !.first = "evil", !.rest = "good", !.signer = "E"],
          [Base EXCEPT !.rest = "evil", !.signer = "E"],
          IF San THEN [Base EXCEPT !.first = "multi", !.rest = "ca", !.cid = "other.example"]
          ELSE [Base EXCEPT !.first = "multi", !.rest = "ca", !.cid = "hash:multi"],
          IF San THEN [Base EXCEPT !.first = "evil", !.cid = "evil.example", !.signer = "E"]
          ELSE [Base EXCEPT !.first = "evil", !.cid = "hash:evil", !.signer = "E"]}

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ pc' = "parse" /\ dv' = Fresh /\ UNCHANGED <<c, res>>

Step(l, bad, next) == pc = l /\ UNCHANGED <<c, dv>> /\
                      IF bad THEN res' = "err" /\ pc' = "done"
                      ELSE pc' = next /\ res' = IF next = "done" THEN "ok" ELSE res
Leaf == Certs[c.first]
\* What the claimed identifier says once the prefix, spelt exactly, is removed once.
Matches == /\ c.cform \in {"prefixed", "raw"}
           /\ IF San THEN c.cid \in Range(Leaf.dns) ELSE c.cid = "hash:" \o c.first
Rooted == CASE c.roots = "all" -> TRUE
            [] c.roots = "ca" -> Leaf.by = "ca"
            [] c.roots = "evilca" -> Leaf.by = "evilca"
            [] OTHER -> TRUE
\* The wallet's own verifier sees every signature that can be decoded.
Verified == CASE c.ver = "p256" -> c.signer = Leaf.key /\ c.sig = "valid" [] OTHER -> c.ver = "yes" /\ c.sig \notin {"notb64", "padded"}
Check == \/ Step("parse", c.jwt \in {"twoparts", "headerb64", "headerjson", "headerlist", "empty"}, "alg")
         \/ Step("alg", c.walgs.s # "ok" \/ c.alg \notin Range(c.walgs.l), "x5c")
         \/ Step("x5c", c.x5c \notin {"ok", "nopad"}, "cid")
         \/ Step("cid", ~Matches, "key")
         \/ Step("key", CASE c.ver = "p256" -> c.alg # "ES256" \/ Leaf.key = "P-384" [] OTHER -> c.ver = "nokey", "sig")
         \/ Step("sig", c.jwt # "ok" \/ ~Verified, "roots")
         \/ Step("roots", ~Rooted, "done")
Next == Environment \/ Ask \/ Check
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Authentic == (res = "ok" /\ c.ver = "p256") => c.sig = "valid" /\ c.signer = Leaf.key /\ c.jwt = "ok" /\ c.alg = "ES256"
Obeyed == res = "ok" => c.ver \in {"p256", "yes"}
Identified == res = "ok" => IF San THEN c.cid \in Range(Leaf.dns) ELSE c.cid = "hash:" \o c.first
LeafOnly == (res = "ok" /\ c.first = "evil") => c.cid \in {"evil.example", "hash:evil"}
AlgDeclared == res = "ok" => c.walgs.s = "ok" /\ c.alg \in Range(c.walgs.l)
HasChain == res = "ok" => c.x5c \in {"ok", "nopad"}
TrustedRoot == res = "ok" => Rooted
Valid == /\ c.jwt = "ok" /\ c.walgs.s = "ok" /\ c.alg \in Range(c.walgs.l) /\ c.x5c \in {"ok", "nopad"}
         /\ Matches /\ Verified /\ (c.ver = "p256" => c.alg = "ES256")
ProperAccepted == (pc = "done" /\ Valid /\ Rooted) => res = "ok"

\* onlyroot: nothing but the trusted roots stands in the way (see KNOWN_FINDINGS.txt).
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok", kind |-> Kind, onlyroot |-> Valid /\ ~Rooted, dns |-> Leaf.dns])>>)
================================================================================
