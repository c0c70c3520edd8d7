------------------------------- MODULE UrlCodec -------------------------------
(***************************************************************************)
(* Authorization requests through their URL and back:                      *)
(* AuthorizationRequest::to_url, from_url, from_query_params               *)
(* (src/core/authorization_request/mod.rs).                                *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>

Sym == {"a", "Z", "0", "sp", "plus", "pct", "amp", "eq", "semi", "quot", "apos", "bsl", "slash", "nl", "cr", "nul", "tab", "hash",
        "quest", "tilde", "star", "dot", "minus", "under", "lbrace", "lbrack", "comma", "colon", "e2", "e3", "e4", "comb", "bom", "del"}
Text == {<<x>> : x \in Sym} \cup {<<x, y>> : x, y \in {"a", "sp", "plus", "pct", "amp", "eq", "hash", "e2", "e4", "0"}}
        \cup {<<"pct", "0", "0">>, <<"amp", "a", "eq", "a">>, <<"plus", "sp", "plus">>, <<"big">>, <<"sp", "a", "sp">>}
Dom == [
  end  |-> {"openid4vp:", "openid4vp://", "https://w.example", "https://w.example/authorize", "https://w.example:8443/a/b%20c",
            "haip://wallet/x", "mdoc-openid4vp://", "wallet://w.example", "wallet://w.example:99", "wallet:///a", "wallet:/a", "wallet:a/b"},
  cid  |-> {<<"-">>, <<>>} \cup Text,
  ind  |-> {"value", "reference", "direct"},
  jwt  |-> Text \cup {<<>>},
  uri  |-> {"https://v.example/req/1", "https://v.example/req/1?x=a%20b&y=%26%3D#f", "http://localhost:8080/", "urn:ietf:x",
            "https://V.example:443/%7euser/../r?", "https://v.example/req/1/", "https://u:p@v.example/?a=+&b=%2B", "https://[::1]/r?response_type=x"},
  pname|-> Text,
  pval |-> Text \cup {<<>>},
  more |-> {"none", "standard", "list", "object"}
]
Words == {<<w>> : w \in {"null", "undefined", "true", "false", "-1", "1.5", "00", "1e9", "{}", "[]", "[1]", "''", "a.b.c", "eyJ.e30.", "a.b.c.d.e",
                         "https://v.example/?a=b#c", "did:example:v#0", "redirect_uri:https://v.example/cb?x=1", "x509_san_dns:v.example", "../a", "<a>", "a|b", "a`b",
                         "a^b", "$a", "(a)", "a@b", "a!"}}
Names == {<<w>> : w \in {"state", "scope", "request_uri_method", "response_uri", "redirect_uri", "claims", "a[]", "a.b", "Request", "Client_Id", "request-uri",
                         "request_urI", "null", "0", "-1"}}
Odd == [f \in DOMAIN Dom |-> CASE f \in {"cid", "jwt", "pval"} -> Words [] f = "pname" -> Words \cup Names [] OTHER -> {}]
Fields == <<"end", "cid", "ind", "jwt", "uri", "pname", "pval", "more">>
Base == [end |-> "openid4vp://", cid |-> <<"a">>, ind |-> "value", jwt |-> <<"a">>, uri |-> "https://v.example/req/1",
         pname |-> <<"a">>, pval |-> <<"Z">>, more |-> "standard"]
Bases == {[Base EXCEPT !.ind = i, !.end = e] : i \in {"value", "reference", "direct"}, e \in {"openid4vp:", "https://w.example/authorize"}}
Sensible == /\ c.ind # "value" => c.jwt = Base.jwt
            /\ c.ind # "reference" => c.uri = Base.uri
            /\ c.ind # "direct" => c.pname = Base.pname /\ c.pval = Base.pval /\ c.more = Base.more
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ Sensible /\ pc' = "to" /\ dv' = Fresh /\ UNCHANGED <<c, res>>
\* Only texts fit in a query; anything else is refused rather than mangled.
To == pc = "to" /\ UNCHANGED <<c, dv>> /\
      IF c.ind = "direct" /\ c.more \in {"list", "object"} THEN res' = "err" /\ pc' = "done" ELSE pc' = "from" /\ UNCHANGED res
From == pc = "from" /\ UNCHANGED <<c, dv>> /\ pc' = "done" /\ res' = "same"
Next == Environment \/ Ask \/ To \/ From
Spec == Init /\ [][Next]_vars
NeverMangled == res = "err" => c.ind = "direct" /\ c.more \in {"list", "object"}
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, res |-> res])>>)
================================================================================
