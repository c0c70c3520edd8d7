------------------------------- MODULE Metadata -------------------------------
(***************************************************************************)
(* A wallet's metadata over its life (src/core/metadata): made by new,     *)
(* read from JSON or the static openid4vp: one, then extended with         *)
(* algorithms, prefixes and formats, and written and read back at any      *)
(* point.  The state is what a reader of the metadata sees.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxOps
VARIABLES how, algs0, prefixes0, formats0, m, hist, pc
vars == <<how, algs0, prefixes0, formats0, m, hist, pc>>

NA == <<"-absent">>
Bad == <<"-bad">>     \* a value of the wrong type
\* A payload of a format: the kind and the methods listed ("other": an object of another shape).
Pay(kind, l) == [kind |-> kind, l |-> l]
Formats == {"jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "x_custom", "jwt_vp_json", "MSO_MDOC"}
None == Pay("-", <<>>)
NoFormats == [f \in Formats |-> None]
FormatSets == {
  NoFormats,
  [NoFormats EXCEPT !["jwt_vc_json"] = Pay("alg", <<"ES256">>)],
  [NoFormats EXCEPT !["jwt_vc_json"] = Pay("alg", <<>>), !["ldp_vc"] = Pay("proof", <<"ecdsa-rdfc-2019", "ES256">>)],
  [NoFormats EXCEPT !["mso_mdoc"] = Pay("other", <<>>), !["dc+sd-jwt"] = Pay("other", <<"ES256">>), !["x_custom"] = Pay("alg", <<"ES384">>)],
  [NoFormats EXCEPT !["jwt_vp_json"] = Pay("alg", <<"ES256", "es256", "ES256 ">>), !["MSO_MDOC"] = Pay("proof", <<"ES384">>)] }
Obj(a, pr, f, extra) == [algs |-> a, prefixes |-> pr, formats |-> f, extra |-> extra]

Init == /\ how \in {"new", "parse"}
        /\ algs0 \in {NA, Bad, <<>>, <<"EdDSA">>, <<"es256", "none", "ES256", "ES256">>}
        /\ prefixes0 \in {NA, Bad, <<>>, <<"x509_san_dns">>, <<"x_other", "x509_hash", "x_other">>}
        /\ formats0 \in FormatSets
        /\ m = Obj(algs0, prefixes0, formats0, TRUE)
        /\ hist = <<>> /\ pc = "ops"
\* Lists that only need to be met among few other things.
OddLists == {<<"">>, <<" ES256 ">>, <<"ES256,EdDSA">>, <<"*">>, <<"none">>, <<"ES256", "EdDSA", "ES256K", "RS256", "ES256">>, <<"x509_hash", "ES256">>, <<"null">>,
             [i \in 1..60 |-> IF i % 2 = 0 THEN "ES256" ELSE "pre-registered"], <<"pre-registered">>, <<"X509_HASH", "x509_hash:">>, <<"https">>, <<"0">>}
InitOdd == /\ how \in {"new", "parse"}
           /\ \/ algs0 \in OddLists /\ prefixes0 \in {NA, <<>>}
              \/ algs0 \in {NA, <<>>} /\ prefixes0 \in OddLists
           /\ formats0 = NoFormats
           /\ m = Obj(algs0, prefixes0, formats0, TRUE)
           /\ hist = <<>> /\ pc = "ops"
InitStatic == /\ how = "static" /\ algs0 = <<"ES256">> /\ prefixes0 = NA
              /\ formats0 = [NoFormats EXCEPT !["jwt_vc_json"] = Pay("alg", <<"ES256">>)]
              /\ m = Obj(algs0, prefixes0, formats0, FALSE) /\ hist = <<>> /\ pc = "ops"

\* What the lists are taken to be when they are absent.
AlgsOr(a) == IF a = NA THEN <<>> ELSE a
PrefixesOr(a) == IF a = NA THEN <<"pre-registered">> ELSE a
\* What a reader sees.
View(x) == [algs |-> IF x.algs = Bad THEN Bad ELSE AlgsOr(x.algs),
            prefixes |-> IF x.prefixes = Bad THEN Bad ELSE PrefixesOr(x.prefixes),
            formats |-> x.formats,
            rawalgs |-> IF x.algs = Bad THEN "bad" ELSE IF x.algs = NA THEN "none" ELSE "list",
            rawprefixes |-> IF x.prefixes = Bad THEN "bad" ELSE IF x.prefixes = NA THEN "none" ELSE "list"]
Do(op, arg, ok, next) ==
  /\ pc = "ops" /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, [op |-> op, arg |-> arg, ok |-> ok, view |-> View(next)])
  /\ m' = next /\ UNCHANGED <<how, algs0, prefixes0, formats0, pc>>
AddAlg == \E a \in {"ES256", "EdDSA", "ES256K", "RS256"} :
  IF m.algs = Bad THEN Do("add_alg", <<a>>, FALSE, m)
  ELSE Do("add_alg", <<a>>, TRUE, [m EXCEPT !.algs = Append(AlgsOr(m.algs), a)])
AddPrefixes == \E l \in {<<>>, <<"x509_hash">>, <<"redirect_uri", "decentralized_identifier">>, <<"pre-registered">>, <<"x_other", "x_other", "X509_HASH">>} :
  IF m.prefixes = Bad THEN Do("add_prefixes", l, FALSE, m)
  ELSE Do("add_prefixes", l, TRUE, [m EXCEPT !.prefixes = PrefixesOr(m.prefixes) \o l])
SetFormat == \E f \in {"jwt_vc_json", "mso_mdoc", "x_custom"} : \E k \in {"alg", "proof", "other"} :
  Do("set_format", <<f, k>>, TRUE, [m EXCEPT !.formats[f] = Pay(k, <<>>)])
DropFormat == \E f \in {"jwt_vc_json", "ldp_vc"} : Do("drop_format", <<f>>, TRUE, [m EXCEPT !.formats[f] = None])
\* add_alg and add_proof_type apply to payloads of their kind, and to nothing else.
Extend(op, kind) == \E f \in {"jwt_vc_json", "ldp_vc", "mso_mdoc"} :
  /\ m.formats[f] # None
  /\ Do(op, <<f, "Ed25519">>, TRUE,
        IF m.formats[f].kind = kind THEN [m EXCEPT !.formats[f].l = Append(m.formats[f].l, "Ed25519")] ELSE m)
Wire == Do("wire", <<>>, TRUE, m)
Stop == pc = "ops" /\ Len(hist) = MaxOps /\ pc' = "done" /\ UNCHANGED <<how, algs0, prefixes0, formats0, m, hist>>
Next == AddAlg \/ AddPrefixes \/ SetFormat \/ DropFormat \/ Extend("fmt_add_alg", "alg") \/ Extend("fmt_add_proof", "proof") \/ Wire \/ Stop
Spec == (Init \/ InitStatic \/ InitOdd) /\ [][Next]_vars
--------------------------------------------------------------------------------
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* Nothing a wallet declared is forgotten, except a format that is dropped or replaced.
KeepsAlgs == algs0 \notin {NA, Bad} => IsPrefix(algs0, m.algs)
KeepsPrefixes == prefixes0 \notin {NA, Bad} => IsPrefix(prefixes0, m.prefixes)
\* Only what was added is declared.
NothingInvented == m.algs \notin {NA, Bad} =>
  \A i \in DOMAIN m.algs : \/ algs0 \notin {NA, Bad} /\ \E j \in DOMAIN algs0 : algs0[j] = m.algs[i]
                           \/ \E h \in DOMAIN hist : hist[h].op = "add_alg" /\ hist[h].arg[1] = m.algs[i]
\* A wallet that does not say accepts pre-registered clients; adding a prefix does not take that away.
DefaultKept == (prefixes0 = NA /\ m.prefixes # NA) => m.prefixes[1] = "pre-registered"
BadStays == (algs0 = Bad => m.algs = Bad) /\ (prefixes0 = Bad => m.prefixes = Bad)
\* What a format supports.
Supports(f, x) == m.formats[f] # None /\ m.formats[f].kind \in {"alg", "proof"} /\ \E i \in DOMAIN m.formats[f].l : m.formats[f].l[i] = x
Support == [f \in Formats |-> {x \in {"ES256", "es256", "ES256 ", "ES384", "Ed25519", "ecdsa-rdfc-2019"} : Supports(f, x)}]
Emit == pc = "done" => PrintT(<<"VEC", ToJson([how |-> how, algs |-> algs0, prefixes |-> prefixes0, formats |-> formats0,
                                              hist |-> hist, support |-> Support])>>)
================================================================================
