-------------------------------- MODULE Resolve --------------------------------
(***************************************************************************)
(* How a wallet gets from the URL it was opened with to the request object *)
(* it verifies: AuthorizationRequest::from_url, resolve_request, validate  *)
(* (src/core/authorization_request/mod.rs) and Wallet::validate_request.   *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, fetched, shown, res
vars == <<c, dv, pc, fetched, shown, res>>

\* Identifiers that only continue the object's one.
Ends == {"+/", "+.", "+:443", "+#0", "+?x=1"}
Dom == [
  end  |-> {"openid4vp:", "https://w.example/authorize", "https://w.example:8443/a/b", "wallet://w.example/a"},
  \* how the URL relates to the wallet's endpoint
  at   |-> {"same", "noquery", "infragment", "otherhost", "hostsuffix", "hostprefix", "otherport", "userinfo",
            "otherpath", "pathprefix", "pathslash", "pathcase", "scheme", "fragment"},
  \* how the request is passed
  ind  |-> {"value", "reference", "direct", "both", "nothing"},
  \* what its request_uri looks like
  ref  |-> {"query", "plain", "port", "user", "escapes", "ampersand", "emptyquery"},
  \* what else is in the URL; of no importance where there is a request object
  more |-> {"-", "request_uri_method=post", "request_uri_method=get", "nonce=other", "response_uri=https://evil.example/r", "client_id_scheme=redirect_uri",
            "response_mode=dc_api", "state=x", "x_unknown=1", "state=", "x_unknown="},
  \* how its query is escaped: as a form, or only where it has to be
  esc  |-> {"form", "sparse"},
  outer|-> {"none", "same", "other", "prefix", "longer", "case", "space", "redirect", "bare", "prefixed", "empty", "escaped"} \cup Ends,
  \* two of them only look like redirect_uri clients
  inner|-> {"x509_san_dns:v.example", "redirect_uri:https://v.example/cb", "client-1", "none", "", "redirect_uri-client", "x509_hash:redirect_uri:x"},
  typ  |-> {"oauth-authz-req+jwt", "JWT", "jwt", "OAUTH-AUTHZ-REQ+JWT", "oauth-authz-req+jwt ",
            "application/oauth-authz-req+jwt", "oauth-authz-req", "", "NONE", "NUMBER", "LIST"},
  jwt  |-> {"ok", "twoparts", "fourparts", "headerb64", "headerjson", "headerlist", "bodyb64", "bodyjson",
            "bodylist", "empty", "newline", "space", "bom", "quoted", "nul", "nosig"},
  body |-> {"ok", "nononce"},
  http |-> {"100", "199", "200", "201", "202", "203", "204", "299", "300", "302", "304", "400", "401", "404", "500", "503", "neterror", "notutf8"},
  \* what the reply says it is; it is judged by what it is
  ctype|-> {"-", "application/oauth-authz-req+jwt", "application/jwt", "application/json", "text/html; charset=utf-8", "other headers"},
  hook |-> {"accept", "refuse"}
]
Fields == <<"end", "at", "ind", "ref", "more", "esc", "outer", "inner", "typ", "jwt", "body", "http", "ctype", "hook">>
Base == [end |-> "openid4vp:", at |-> "same", ind |-> "value", ref |-> "query", more |-> "-", esc |-> "form", outer |-> "same", inner |-> "x509_san_dns:v.example",
         typ |-> "oauth-authz-req+jwt", jwt |-> "ok", body |-> "ok", http |-> "200", ctype |-> "-", hook |-> "accept"]
Bases == {[Base EXCEPT !.ind = i, !.end = e] : i \in {"value", "reference", "direct"}, e \in Dom.end}
         \cup {[Base EXCEPT !.inner = "redirect_uri:https://v.example/cb", !.typ = "NONE"],
               [Base EXCEPT !.inner = "redirect_uri:https://v.example/cb", !.typ = "JWT", !.ind = "reference"]}

Jwt == c.ind \in {"value", "reference", "both"}
\* An opaque endpoint has no host, so only these relations exist for it.
Sensible == /\ c.end = "openid4vp:" => c.at \in {"same", "noquery", "infragment", "otherhost", "otherpath", "scheme", "fragment"}
            /\ c.outer # "same" /\ c.outer # "none" => c.inner # "none"
            /\ c.outer = "same" => c.inner # "none"
            /\ c.inner = "" => c.outer \in {"none", "same", "other", "redirect", "longer", "prefixed"}
            /\ c.outer = "redirect" => c.inner # "redirect_uri:https://v.example/cb"
            /\ c.ind = "direct" => c.outer \in {"same", "none"}
            /\ c.ind # "reference" => c.http = "200" /\ c.ctype = "-"
            /\ c.outer = "bare" => c.inner \notin {"client-1", "redirect_uri-client", "x509_hash:redirect_uri:x"}
            /\ c.ref # "query" => c.ind \in {"reference", "both"}
            /\ c.ind = "direct" => c.more \in {"-", "state=x", "x_unknown=1", "state=", "x_unknown="}     \* of the request, here
            /\ ~Jwt => c.typ = Base.typ /\ c.jwt = "ok"
            /\ (c.ind = "direct" /\ c.outer = "none") => c.inner = "none"

\* An identifier that is literally a redirect_uri one frees a request object of its type.
OuterIsRedirect == \/ /\ c.inner = "redirect_uri:https://v.example/cb"
                      /\ c.outer \in {"same", "longer", "other", "prefix", "space"} \cup Ends
                   \/ c.outer = "redirect"

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ fetched = 0 /\ shown = "-" /\ res = "-"
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, fetched, shown, res>>
Ask == pc = "vary" /\ Sensible /\ pc' = "url" /\ dv' = Fresh /\ UNCHANGED <<c, fetched, shown, res>>

Done(r) == res' = r /\ pc' = "done" /\ UNCHANGED <<c, dv, fetched, shown>>
Goto(l) == pc' = l /\ UNCHANGED <<c, dv, fetched, shown, res>>

Url == pc = "url" /\ IF c.at \in {"same", "scheme", "fragment"} THEN Goto("get") ELSE Done("err")
Get == pc = "get" /\
  CASE c.ind = "nothing"            -> Done("err")
    [] c.ind = "direct"             -> Goto("object")
    [] c.ind \in {"value", "both"}  -> Goto("typ")
    [] c.ind = "reference"          -> fetched' = fetched + 1 /\ pc' = "reply" /\ UNCHANGED <<c, dv, shown, res>>
Reply == pc = "reply" /\ IF c.http \in {"200", "201", "202", "203", "299"} THEN Goto("typ") ELSE Done("err")
Typ == pc = "typ" /\
  IF \/ c.jwt \in {"twoparts", "fourparts", "headerb64", "headerjson", "headerlist", "empty", "newline", "space", "bom", "quoted", "nul"}
     \/ c.typ \in {"NUMBER", "LIST"}
     \/ c.typ # "oauth-authz-req+jwt" /\ ~OuterIsRedirect
  THEN Done("err") ELSE Goto("object")
Object == pc = "object" /\
  IF (Jwt /\ c.jwt \notin {"ok", "nosig"}) \/ c.body # "ok" THEN Done("err") ELSE Goto("verify")
Verify == pc = "verify" /\
  /\ shown' = IF Jwt THEN "jwt" ELSE "none"
  /\ pc' = "ids" /\ UNCHANGED <<c, dv, fetched, res>>
Ids == pc = "ids" /\
  Done(IF c.hook = "refuse" \/ (Jwt /\ c.inner # "none" /\ c.outer \notin {"none", "same"}) THEN "err" ELSE "ok")

Next == Environment \/ Ask \/ Url \/ Get \/ Reply \/ Typ \/ Object \/ Verify \/ Ids
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
OnlyOurEndpoint == (res = "ok" \/ fetched > 0 \/ shown # "-") => c.at \in {"same", "scheme", "fragment"}
TypedRequestObjects == (res = "ok" /\ Jwt /\ c.inner # "redirect_uri:https://v.example/cb") => c.typ = "oauth-authz-req+jwt"
FetchOnce == fetched <= 1 /\ (fetched = 1 => c.ind = "reference")
OnlySuccessfulFetch == (shown # "-" /\ c.ind = "reference") => fetched = 1 /\ c.http \in {"200", "201", "202", "203", "299"}
SameClient == (res = "ok" /\ Jwt /\ c.inner # "none") => c.outer \in {"none", "same"}
Malformed == (c.jwt \notin {"ok", "nosig"} /\ Jwt) => shown = "-"
AlwaysVerified == res = "ok" => shown # "-" /\ c.hook = "accept"

\* Whether a JWT without a signature is malformed is left open; if it is not, the routine gets to see it.
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, open |-> Jwt /\ c.jwt = "nosig", ok |-> res = "ok", fetched |-> fetched, shown |-> shown])>>)
================================================================================
