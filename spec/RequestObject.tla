----------------------------- MODULE RequestObject -----------------------------
(***************************************************************************)
(* What is a well-formed request object, and what its members mean:        *)
(* TryFrom<UntypedObject> for AuthorizationRequestObject                   *)
(* (src/core/authorization_request/mod.rs) and the parameters'  parsers.   *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>

\* "-": absent; "#...": present with a value of another JSON type.
Wrong == {"#number", "#null", "#list", "#object", "#bool"}
Dom == [
  cid   |-> {"-", "client-1", "x509_san_dns:v.example", ":x", "a:b:c", ""} \cup Wrong,
  mode  |-> {"-", "direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "fragment", "query", "form_post",
             "DIRECT_POST", "direct_post.JWT", " direct_post", "direct_post ", "dc_api.", "direct_postjwt", ""} \cup Wrong,
  ruri  |-> {"-", "https://v.example/r", "https://v.example:8443/r?x=1&y=%20#f", "custom:r", "v.example/r", ""} \cup Wrong,
  redir |-> {"-", "https://v.example/d", "https://v.example/r", "v.example/d", ""} \cup Wrong,
  type  |-> {"-", "vp_token", "vp_token id_token", "id_token vp_token", "code", "VP_TOKEN", ""} \cup Wrong,
  nonce |-> {"-", "n-0S6_WzA2Mj", "", "n w"} \cup Wrong,
  state |-> {"-", "st", ""} \cup Wrong,
  meta  |-> {"-", "ok", "#number"},           \* client_metadata
  query |-> {"-", "ok", "bad"},               \* dcql_query
  extra |-> {"-", "member"}
]
\* Values that only need to be met among few other changes. "@...": long, or not ASCII.
Odd == [
  cid   |-> {" client-1 ", "Client-1", "a:", "https://v.example/c", "@long", "@unicode"},
  mode  |-> {"direct_post.jwt.jwt", "Dc_api", "fragment.jwt", "query.jwt", "form_post.jwt", "jwt", "direct_post,dc_api", "w3c_dc_api",
             "dc_api ", "direct_post.", "dc_api_jwt", "direct_post_jwt", "dc-api.jwt", "dcapi", "dc_apijwt", "@unicode", "@long"},
  ruri  |-> {"http://v.example/", "https://u:p@v.example/r/", "https://v.example/r?", "//v.example/r", "/r", "@longuri",
             "https://v.example/r/?a=b%26c", "https://v.example"},
  redir |-> {"custom:d"},
  type  |-> {"vp_token ", " vp_token", "vp_token  id_token", "vp_token,id_token", "vp_token code", "id_token", "vp_token Id_token",
             "@long"},
  nonce |-> {" n ", "n=/+%41", "0", "@long", "@unicode"},
  state |-> {" s+t%20 ", "@long", "@unicode"},
  meta  |-> {"noformats", "badformats", "empty", "#null", "#list", "#bool"},
  query |-> Wrong,
  extra |-> {}
]
Fields == <<"cid", "mode", "ruri", "redir", "type", "nonce", "state", "meta", "query", "extra">>
Base == [cid |-> "client-1", mode |-> "direct_post", ruri |-> "https://v.example/r", redir |-> "-", type |-> "vp_token",
         nonce |-> "n-0S6_WzA2Mj", state |-> "-", meta |-> "-", query |-> "-", extra |-> "-"]
Bases == {Base, [Base EXCEPT !.mode = "dc_api", !.ruri = "-"],
          [Base EXCEPT !.mode = "direct_post.jwt", !.ruri = "custom:r", !.extra = "member"],
          [Base EXCEPT !.mode = "dc_api.jwt", !.ruri = "-", !.cid = "a:b:c"]}

Post == {"direct_post", "direct_post.jwt"}
Api  == {"dc_api", "dc_api.jwt"}
Mode == IF c.mode = "-" THEN "direct_post" ELSE c.mode

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ pc' = "cid" /\ dv' = Fresh /\ UNCHANGED <<c, res>>
Step(l, bad, next) == pc = l /\ UNCHANGED <<c, dv>> /\
                      IF bad THEN res' = "err" /\ pc' = "done"
                      ELSE pc' = next /\ res' = IF next = "done" THEN "ok" ELSE "-"
Parse == \/ Step("cid", c.cid \in Wrong, "mode")
         \/ Step("mode", Mode \notin Post \cup Api, "uris")
         \/ Step("uris", \/ c.redir # "-"
                         \/ Mode \in Post /\ c.ruri \in {"-", "v.example/r", "", "//v.example/r", "/r"} \cup Wrong
                         \/ Mode \in Api /\ c.ruri # "-", "type")
         \/ Step("type", c.type \in {"-"} \cup Wrong, "nonce")
         \/ Step("nonce", c.nonce \in {"-"} \cup Wrong, "done")
Next == Environment \/ Ask \/ Parse
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* Where a response goes is never ambiguous.
ReturnUri == res = "ok" => /\ Mode \in Post => c.ruri \notin {"-"} /\ c.redir = "-"
                           /\ Mode \in Api  => c.ruri = "-" /\ c.redir = "-"
SupportedOnly == res = "ok" => Mode \in Post \cup Api
HasNonce == res = "ok" => c.nonce \notin {"-"} \cup Wrong
Prefix == CASE c.cid = "x509_san_dns:v.example" -> "x509_san_dns"
            [] c.cid = ":x" -> ""
            [] c.cid \in {"a:b:c", "a:"} -> "a"
            [] c.cid = "https://v.example/c" -> "https"
            [] OTHER -> "NONE"
IdToken == CASE c.type = "vp_token" -> "no" [] c.type = "vp_token id_token" -> "yes" [] OTHER -> "unknown"

\* What is read of the members that are looked at later: "none", "err" (present and not to be understood) or "ok".
MetaRead  == CASE c.meta = "-" -> "none" [] c.meta \in Wrong -> "err" [] OTHER -> "ok"
FormRead  == CASE MetaRead # "ok" \/ c.meta \in {"noformats", "empty"} -> "err"      \* no formats: an error, too
               [] c.meta = "badformats" -> "err" [] OTHER -> "ok"
QueryRead == CASE c.query = "-" -> "none" [] c.query \in Wrong \cup {"bad"} -> "err" [] OTHER -> "ok"

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok", mode |-> Mode, prefix |-> Prefix,
                                               idtoken |-> IdToken, meta |-> MetaRead, formats |-> FormRead, query |-> QueryRead])>>)
================================================================================
