-------------------------------- MODULE Garble --------------------------------
(***************************************************************************)
(* Whatever arrives gets an answer.  Every text or byte string the library *)
(* takes from the other side (or from its user) is a sequence of pieces;   *)
(* the environment takes a proper message, spoils it with a few edits and  *)
(* delivers it, and then delivers the proper one.  The library answers     *)
(* each time - it takes the message or refuses it - and what was spoilt    *)
(* before does not matter to the proper one.  What is signed and spoilt is *)
(* refused.  Pieces starting with "@" are spelt out by the harness.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT K, Wide
VARIABLES kind, msg, was, edits, pc, first, again
vars == <<kind, msg, was, edits, pc, first, again>>

Jwt == <<"@header", ".", "@payload", ".", "@signature">>
Q(x) == "\"" \o x \o "\""
Messages == [
  form |-> {<<"vp_token", "=", "{", "%22a%22", ":", "[", "%22b%22", "]", "}", "&", "state", "=", "s">>, <<"response", "=", "a", ".", "b", ".", "c">>},
  url  |-> {<<"openid4vp", ":", "?", "client_id", "=", "client-1", "&", "request", "=">> \o Jwt,
            <<"openid4vp", ":", "?", "client_id", "=", "client-1", "&", "request_uri", "=", "https%3A%2F%2Fv.example", "%2Freq">>,
            <<"openid4vp", ":", "?", "client_id", "=", "client-1", "&", "nonce", "=", "n", "&", "response_mode", "=", "direct_post", "&", "response_type", "=", "vp_token", "&", "response_uri", "=", "https://v.example/r">>},
  jwt  |-> {Jwt},
  fetched |-> {Jwt},
  did  |-> {Jwt},
  x509 |-> {Jwt},
  hdr  |-> {<<"{", Q("alg"), ":", Q("ES256"), ",", Q("typ"), ":", Q("oauth-authz-req+jwt"), ",", Q("kid"), ":", "\"", "did:example:v", "#", "k1", "\"", ",", Q("x5c"), ":", "[", "\"", "@cert", "\"", "]", "}">>},
  body |-> {<<"{", Q("client_id"), ":", Q("client-1"), ",", Q("response_type"), ":", Q("vp_token"), ",", Q("response_mode"), ":", Q("direct_post"), ",",
              Q("response_uri"), ":", "\"", "https", "://", "v.example", "/r", "\"", ",", Q("nonce"), ":", Q("n"), "}">>},
  cid  |-> {<<"client-1">>, <<"x509_san_dns", ":", "v.", "example">>, <<"decentralized_identifier", ":", "did:", "example", ":v">>, <<"redirect_uri", ":", "https://", "v.example/", "cb">>},
  cert |-> {<<"@der1", "@der2", "@der3", "@der4", "@der5", "@der6", "@der7", "@der8">>},
  dcql |-> {<<"{", Q("credentials"), ":", "[", "{", Q("id"), ":", Q("a"), ",", Q("format"), ":", Q("mso_mdoc"), ",", Q("meta"), ":", "{", "}", ",",
              Q("claims"), ":", "[", "{", Q("path"), ":", "[", Q("x"), ",", "0", ",", "null", "]", ",", Q("values"), ":", "[", Q("v"), "]", "}", "]", "}", "]", "}">>},
  wallet |-> {<<"{", Q("authorization_endpoint"), ":", Q("openid4vp:"), ",", Q("client_id_prefixes_supported"), ":", "[", Q("pre-registered"), ",", Q("x509_san_dns"), "]", ",",
                Q("request_object_signing_alg_values_supported"), ":", "[", Q("ES256"), "]", ",", Q("vp_formats_supported"), ":", "{", Q("mso_mdoc"), ":", "{", "}", "}", "}">>},
  keys |-> {<<"{", Q("jwks"), ":", "{", Q("keys"), ":", "[", "{", Q("kty"), ":", Q("EC"), ",", Q("crv"), ":", Q("P-256"), ",", Q("use"), ":", Q("enc"), ",", Q("alg"), ":", Q("ECDH-ES"), ",",
              Q("x"), ":", Q("@x"), ",", Q("y"), ":", Q("@y"), "}", "]", "}", ",", Q("encrypted_response_enc_values_supported"), ":", "[", Q("A128GCM"), "]", "}">>},
  status |-> {<<"{", Q("Complete"), ":", "{", Q("Failure"), ":", "{", Q("reason"), ":", Q("x"), "}", "}", "}">>, <<Q("SentRequest")>>},
  reply |-> {<<"{", Q("redirect_uri"), ":", "\"", "https", "://", "v.example", "/d", "\"", "}">>},
  token |-> {<<"{", Q("a"), ":", "[", Q("b"), ",", "{", Q("c"), ":", "1", "}", "]", "}">>},
  cbor |-> {<<"@83", "@f6", "@f6", "@82", "@redirectname", "@5820", "@hash">>, <<"@83", "@f6", "@f6", "@82", "@dcapiname", "@5820", "@hash">>}
]
Kinds == DOMAIN Messages
Signed == {"did", "x509"}                         \* what is spoilt no longer is what was signed

\* What pieces are replaced by, or what is put between them.
Few == {"@e-acute", "@quote", "0"}
Atoms == IF Wide THEN Few \cup {"@nul", "@big", "[", "@ff", "%", "%e", "%ff", "@backslash", "{", "}", "]", ":", ",", ".", "#", "-1", "1e999", "null", "true", "@emoji", "@deep", "@deepobject", "@bom", "@surrogate", "@escape",
                                "=", "&", "+", " ", "/", "?", "@newline", "@combining", "18446744073709551616", "@nines", "{}", "[]", "@emptytext", "@long", "@evencut", "@oddcut", "~", "@7f", "@80"}
         ELSE Few
Ed(op, i, a) == [op |-> op, i |-> i, a |-> a, to |-> 0]
Drop(i, j) == [op |-> "drop", i |-> i, a |-> "-", to |-> j]
Cut(s, n) == SubSeq(s, 1, n)
From(s, n) == SubSeq(s, n, Len(s))
Inner == {"@evencut", "@oddcut", "@emoji", "@e-acute", "@nul", "@escape", "@long", "@combining", "@backslash", "@ff", "@surrogate"}
\* "half", "firstchar", "within" and their like change a piece from within; the harness does that.
Apply(s, e) == CASE e.op = "delete" -> Cut(s, e.i - 1) \o From(s, e.i + 1)
                 [] e.op = "drop" -> Cut(s, e.i - 1) \o From(s, e.to + 1)
                 [] e.op = "double" -> Cut(s, e.i) \o From(s, e.i)
                 [] e.op = "cut" -> Cut(s, e.i - 1)
                 [] e.op = "swap" -> Cut(s, e.i - 1) \o <<s[e.i + 1], s[e.i]>> \o From(s, e.i + 2)
                 [] e.op = "replace" -> Cut(s, e.i - 1) \o <<e.a>> \o From(s, e.i + 1)
                 [] e.op = "insert" -> Cut(s, e.i - 1) \o <<e.a>> \o From(s, e.i)
                 [] e.op \in {"within", "instead"} -> [s EXCEPT ![e.i] = "@" \o e.op \o " " \o e.a \o " " \o @]
                 [] OTHER -> [s EXCEPT ![e.i] = "@" \o e.op \o " " \o @]
Edits(s) == {Ed(op, i, "-") : op \in IF Wide THEN {"delete", "double", "cut", "half", "firstchar", "lastchar", "upper"} ELSE {"delete", "cut", "half"}, i \in DOMAIN s}
            \cup {Ed(op, i, a) : op \in IF Wide THEN {"within", "instead"} ELSE {}, i \in DOMAIN s, a \in Inner}
            \cup {Drop(r[1], r[2]) : r \in {p \in (DOMAIN s) \X (DOMAIN s) : Wide /\ p[1] < p[2]}}
            \cup {Ed("swap", i, "-") : i \in IF Wide THEN 1..(Len(s) - 1) ELSE {}}
            \cup {Ed("replace", i, a) : i \in DOMAIN s, a \in Atoms}
            \cup {Ed("insert", i, a) : i \in IF Wide THEN 1..(Len(s) + 1) ELSE {1, Len(s) + 1}, a \in Atoms}

Init == /\ kind \in Kinds /\ msg \in Messages[kind] /\ was = msg /\ edits = <<>> /\ pc = "spoil" /\ first = "-" /\ again = "-"
\* Later edits apply to the same place or behind it.
Spoil == /\ pc = "spoil" /\ Len(edits) < K
         /\ \E e \in Edits(msg) : /\ (edits # <<>> => e.i >= edits[Len(edits)].i)
                                  /\ edits' = Append(edits, e) /\ msg' = Apply(msg, e)
         /\ UNCHANGED <<kind, was, pc, first, again>>
Proper == msg = was
Answers == IF Proper THEN {"taken"} ELSE IF kind \in Signed THEN {"refused"} ELSE {"taken", "refused"}
Deliver == pc = "spoil" /\ \E a \in Answers : first' = a /\ pc' = "after" /\ UNCHANGED <<kind, was, msg, edits, again>>
After == pc = "after" /\ again' = "taken" /\ pc' = "done" /\ UNCHANGED <<kind, was, msg, edits, first>>
Next == Spoil \/ Deliver \/ After
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver) /\ WF_vars(After)
--------------------------------------------------------------------------------
Answered == pc = "done" => first \in {"taken", "refused"}
NotSpoiltForOthers == pc = "done" => again = "taken"
SignedIsWhole == (pc = "done" /\ kind \in Signed /\ first = "taken") => Proper
AlwaysAnswers == <>(pc = "done")
\* One line per message: what may be answered.
Emit == (pc = "after" /\ first = CHOOSE a \in Answers : TRUE) => PrintT(<<"VEC", ToJson([kind |-> kind, msg |-> msg, proper |-> was, edits |-> edits, answers |-> Answers])>>)
================================================================================
