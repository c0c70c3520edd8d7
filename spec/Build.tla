-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* How a verifier turns a caller's wishes into a presentation request:     *)
(* RequestBuilder::build_with_session_id and build_dc_api                  *)
(* (src/verifier/request_builder.rs).  The environment chooses the         *)
(* parameters, the wallet's metadata, and whether the signer and the       *)
(* session store fail; the builder then goes through its steps.  What the  *)
(* steps must amount to is stated below, independently of their order.     *)
(***************************************************************************)
EXTENDS Vary, TLC, Json

CONSTANT K      \* how many fields may differ from a base configuration

VARIABLES c, dv,   \* the configuration, and how the environment arrived at it
          pc,      \* the step the builder is at
          params,  \* parameters of the request under construction
          signed,  \* how many request objects were signed
          stored,  \* sessions put into the store
          res      \* "-", "ok" or "err"
vars == <<c, dv, pc, params, signed, stored, res>>

Dom == [
  api     |-> {"build", "build_id", "dc_api"},
  \* the session's identifier, where the caller chooses it
  id      |-> {"v4", "nil", "max", "v1"},
  query   |-> {"yes", "no"},
  \* what the query is like
  qshape  |-> {"one", "rich", "many"},
  \* a dcql_query smuggled in as an ordinary parameter
  qparam  |-> {"-", "other"},
  rtype   |-> {"-", "vp_token", "vp_token id_token", "code", "#number"},
  rmode   |-> {"-", "direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt",
               "fragment", "Direct_Post", "#number"},
  nonce   |-> {"-", "n-1", "special", "#number"},
  \* where type, mode and nonce come from: defaults of the verifier, the caller, or the
  \* caller overriding (different, valid) defaults
  origin  |-> {"caller", "default", "override"},
  state   |-> {"-", "st-1", "", "special"},
  \* a further parameter
  extra   |-> {"-", "aud", "transaction_data", "expected_origins", "verifier_info", "x_custom", "client_id_scheme"},
  meta    |-> {"-", "m1"},
  \* a client_id the caller tries to impose, and one in the defaults
  cid     |-> {"-", "caller", "default"},
  ruri    |-> {"-", "https://evil.example/r", "https://v.example/submit", "https://v.example/other"},
  redir   |-> {"-", "https://evil.example/d"},
  byref   |-> {"value", "https://v.example/req", "https://v.example/a/b?x=1", "mailto:v@example"},
  submit  |-> {"https://v.example/submit", "https://v.example:8443/s/t", "https://v.example", "https://v.example/s?x=1&y=%20", "https://v.example/a%20b/%C3%A9", "data:x"},
  client  |-> {"pre-registered", "x509_san_dns", "decentralized_identifier", "odd", "colon", "slash"},
  prefixes|-> {"-", "none", "same", "same+others", "others", "case", "#number"},
  wallet  |-> {"openid4vp:", "openid4vp://", "https://w.example/authorize", "https://w.example:444/a/b"},
  \* what else the wallet declares; none of it matters to whether a request can be built
  wmore   |-> {"-", "declares"},
  \* what was left out when the verifier itself was configured
  missing |-> {"-", "client", "store", "endpoint"},
  signer  |-> {"ok", "fail"},
  store   |-> {"ok", "fail"}
]
\* Values that only need to be met among few other changes.
OddTexts == {" n ", "0", "null", "N", "n:1", "n/1?2#3", "n;1,2*", "-._~", "{}", "[1]", "\\u0041", "%41+", "@long", "@unicode"}
Odd == [f \in DOMAIN Dom |->
  CASE f = "id" -> {"v7", "v5", "v4again"}
    [] f = "rtype" -> {"VP_TOKEN", "id_token", "vp_token  id_token", "vp_token code", "@long"}
    [] f = "rmode" -> {"", "query", "form_post", "direct_post ", " dc_api", "dc_api.JWT", "w3c_dc_api", "direct_post.jwt.jwt", "direct_post_jwt",
                       "DC_API", "dcapi", "direct_post,dc_api", "@unicode", "#list", "#null"}
    [] f = "nonce" -> OddTexts \cup {"#list", "#null", "#bool", "#object"}
    [] f = "state" -> OddTexts
    [] f = "extra" -> {"scope", "iss", "exp", "iat", "jti", "request_uri_method", "purpose", "presentation_definition", "wallet_nonce",
                       "client_Id", "Nonce", "response-mode", "request", "request_uri", "id_token_hint"}
    [] f = "meta" -> {"empty", "keys"}
    [] f = "submit" -> {"http://localhost:3000/s", "https://[::1]:8443/s", "https://u:p@v.example/s", "https://v.example/a//b", "https://v.example/S.T/~u?q",
                        "https://v.example/s?", "app://v.example/s", "about:blank"}
    [] f = "byref" -> {"http://localhost:3000/q", "https://[::1]:8443/q", "https://v.example/q?request_uri=x&client_id=y", "https://v.example/a%2Fb", "urn:x:y"}
    [] f = "client" -> {"upper", "blank", "x509_hash", "longid", "encoded"}
    [] f = "prefixes" -> {"twice", "crowd", "crowdwithout", "star", "empties", "quoted", "#text", "#texts"}
    [] f = "wallet" -> {"haip://", "mdoc-openid4vp://", "openid4vp://authorize", "https://[::1]:8443/a", "http://localhost:3000/authorize", "https://w.example/A%20b/~c"}
    [] OTHER -> {}]
Fields == <<"api", "id", "query", "qshape", "qparam", "rtype", "rmode", "nonce", "origin", "state", "extra", "meta", "cid", "ruri",
            "redir", "byref", "submit", "client", "prefixes", "wallet", "wmore", "missing", "signer", "store">>

Base == [api |-> "build", id |-> "v4", query |-> "yes", qshape |-> "one", qparam |-> "-", rtype |-> "vp_token", rmode |-> "direct_post",
         nonce |-> "n-1", origin |-> "caller", state |-> "-", extra |-> "-", meta |-> "-", cid |-> "-", ruri |-> "-",
         redir |-> "-", byref |-> "value", submit |-> "https://v.example/submit", client |-> "pre-registered",
         prefixes |-> "-", wallet |-> "openid4vp:", wmore |-> "-", missing |-> "-", signer |-> "ok", store |-> "ok"]
Bases == {Base,
          [Base EXCEPT !.byref = "https://v.example/req", !.client = "x509_san_dns", !.prefixes = "same",
                       !.rmode = "direct_post.jwt"],
          [Base EXCEPT !.api = "dc_api", !.rmode = "dc_api", !.state = "st-1"],
          [Base EXCEPT !.api = "dc_api", !.rmode = "direct_post", !.cid = "default"]}
\* An identifier can only be chosen where there is a way to.
Sensible == c.id # "v4" => c.api = "build_id"

Absent == "-"
Bad(v) == v \in {"#number", "#list", "#null", "#bool", "#object"}          \* present, but not of the right type

ModesPost == {"direct_post", "direct_post.jwt"}
ModesApi  == {"dc_api", "dc_api.jwt"}
\* The base URL with the session's identifier as a further path segment.
With(u) == CASE u = "https://v.example/submit"   -> "https://v.example/submit/{id}"
             [] u = "https://v.example:8443/s/t" -> "https://v.example:8443/s/t/{id}"
             [] u = "https://v.example"          -> "https://v.example/{id}"
             [] u = "https://v.example/req"      -> "https://v.example/req/{id}"
             [] u = "https://v.example/a/b?x=1"  -> "https://v.example/a/b/{id}?x=1"
             [] u = "https://v.example/s?x=1&y=%20"  -> "https://v.example/s/{id}?x=1&y=%20"
             [] u = "https://v.example/a%20b/%C3%A9" -> "https://v.example/a%20b/%C3%A9/{id}"
             [] u \in {"http://localhost:3000/s", "https://[::1]:8443/s", "https://u:p@v.example/s", "https://v.example/a//b", "app://v.example/s",
                       "http://localhost:3000/q", "https://[::1]:8443/q", "https://v.example/a%2Fb"} -> u \o "/{id}"
             [] u = "https://v.example/S.T/~u?q" -> "https://v.example/S.T/~u/{id}?q"
             [] u = "https://v.example/s?"       -> "https://v.example/s/{id}?"
             [] u = "https://v.example/q?request_uri=x&client_id=y" -> "https://v.example/q/{id}?request_uri=x&client_id=y"
             [] OTHER                            -> "-"
CannotBeBase == {"data:x", "mailto:v@example", "about:blank", "urn:x:y"}

\* The prefixes the wallet declares; pre-registered clients are the default.
WalletTakes(cl) == CASE c.prefixes = "-"            -> cl \notin {"x509_san_dns", "decentralized_identifier", "x509_hash"}
                     [] c.prefixes \in {"same", "same+others", "twice", "crowd"} -> TRUE
                     [] OTHER                       -> FALSE

NoParams == [client_id |-> "-"]
Init == /\ c \in Bases /\ dv = Fresh
        /\ pc = "vary" /\ res = "-" /\ signed = 0 /\ stored = {} /\ params = NoParams
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, params, signed, stored, res>>
Ask == /\ pc = "vary" /\ Sensible /\ pc' = "params" /\ dv' = Fresh
       /\ params' = [client_id |-> IF c.cid = "-" THEN "-" ELSE "evil", dcql_query |-> c.qparam,
                     response_type |-> c.rtype, response_mode |-> c.rmode, nonce |-> c.nonce,
                     state |-> c.state, extra |-> c.extra, client_metadata |-> c.meta,
                     response_uri |-> c.ruri, redirect_uri |-> c.redir]
       /\ UNCHANGED <<c, signed, stored, res>>

Fail == res' = "err" /\ pc' = "done" /\ UNCHANGED <<c, dv, params, signed, stored>>
Goto(l) == pc' = l /\ UNCHANGED <<c, dv, signed, stored, res>>

Params == pc = "params" /\
  IF c.missing # "-" \/ c.query = "no" THEN Fail
  ELSE params' = [params EXCEPT !.client_id = "own", !.dcql_query = "query"] /\ Goto("type")
Type == pc = "type" /\
  IF params.response_type = Absent \/ Bad(params.response_type) THEN Fail
  ELSE UNCHANGED params /\ Goto("mode")
Mode == pc = "mode" /\
  CASE params.response_mode \in ModesPost ->
         IF c.submit \in CannotBeBase THEN Fail
         ELSE params' = [params EXCEPT !.response_uri = With(c.submit)] /\ Goto("wallet")
    [] params.response_mode \in ModesApi -> UNCHANGED params /\ Goto("wallet")
    [] OTHER -> Fail
WalletStep == pc = "wallet" /\
  IF c.api # "dc_api" /\ ~WalletTakes(c.client) THEN Fail ELSE UNCHANGED params /\ Goto("object")
Object == pc = "object" /\
  IF \/ params.redirect_uri # Absent      \* exclusive with response_uri, and never with dc_api
     \/ params.response_mode \in ModesApi /\ params.response_uri # Absent
     \/ params.nonce = Absent \/ Bad(params.nonce)
  THEN Fail ELSE UNCHANGED params /\ Goto("sign")
Sign == pc = "sign" /\
  IF c.signer = "fail" THEN Fail
  ELSE signed' = signed + 1 /\ pc' = "url" /\ UNCHANGED <<c, dv, params, stored, res>>
UrlStep == pc = "url" /\
  IF c.api # "dc_api" /\ c.byref \in CannotBeBase THEN Fail ELSE UNCHANGED params /\ Goto("store")
StoreStep == pc = "store" /\
  IF c.store = "fail" THEN Fail
  ELSE /\ stored' = {[status |-> IF c.api # "dc_api" /\ c.byref # "value" THEN "byref" ELSE "sent",
                      object |-> params]}
       /\ res' = "ok" /\ pc' = "done" /\ UNCHANGED <<c, dv, params, signed>>

Next == Environment \/ Ask \/ Params \/ Type \/ Mode \/ WalletStep \/ Object \/ Sign \/ UrlStep \/ StoreStep
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
(* What building must amount to (P04) *)

Acceptable ==
  /\ c.missing = "-"
  /\ c.query = "yes"
  /\ c.rtype # Absent /\ ~Bad(c.rtype) /\ c.nonce # Absent /\ ~Bad(c.nonce)
  /\ c.rmode \in ModesPost \cup ModesApi
  /\ c.rmode \in ModesPost => c.submit \notin CannotBeBase
  /\ c.rmode \in ModesApi => c.ruri = Absent
  /\ c.redir = Absent
  /\ c.api # "dc_api" => WalletTakes(c.client) /\ c.byref \notin CannotBeBase
  /\ c.signer = "ok" /\ c.store = "ok"

AllOrNothing == pc = "done" => /\ res = "ok"  => Cardinality(stored) = 1
                               /\ res = "err" => stored = {}
SucceedsExactlyWhen == pc = "done" => (res = "ok" <=> Acceptable)

(* What is in the request (P05) *)
OwnIdentity    == \A s \in stored : s.object.client_id = "own" /\ s.object.dcql_query = "query"
RespondsToUs   == \A s \in stored : c.rmode \in ModesPost => s.object.response_uri = With(c.submit)
KeepsTheRest   == \A s \in stored : \A k \in {"response_type", "response_mode", "nonce", "state", "client_metadata", "extra"} :
                    s.object[k] = [response_type |-> c.rtype, response_mode |-> c.rmode, nonce |-> c.nonce,
                                   state |-> c.state, client_metadata |-> c.meta, extra |-> c.extra][k]
StatusByDelivery == \A s \in stored : s.status = "byref" <=> (c.api # "dc_api" /\ c.byref # "value")

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok",
          object |-> params, uri |-> With(c.byref), status |-> IF stored = {} THEN "-" ELSE (CHOOSE s \in stored : TRUE).status])>>)
==============================================================================
