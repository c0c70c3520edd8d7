-------------------------------- MODULE Submit --------------------------------
(***************************************************************************)
(* Delivery of a presentation: Wallet::submit_response (src/wallet.rs).    *)
(* The environment chooses the validated request, the response prepared by *)
(* the wallet, and the network's and verifier's behaviour.                 *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, sent, res
vars == <<c, dv, pc, sent, res>>

Dom == [
  mode  |-> {"direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "-"},   \* "-": absent, so direct_post
  uri   |-> {"https://v.example/r", "https://v.example:8443/r/a%20b?x=1&y=%26", "http://localhost:3000/", "https://v.example"},
  kind  |-> {"plain", "jwt"},
  token |-> {"one", "many", "empty", "noitems", "objects", "special"},
  state |-> {"-", "s-1", "", "a b+c&d=e%26"},
  rstate|-> {"-", "request-state"},                     \* the request's own state; the response's is what is sent
  jwt   |-> {"a.b.c", "a+b/c=.&x=y", ""},
  http  |-> {"200", "201", "204", "299", "302", "400", "404", "500", "neterror"},
  reply |-> {"none", "blank", "redirect", "redirectcustom", "redirectextra", "empty", "other", "number", "null", "relative",
             "emptyuri", "list", "string", "badjson", "truncated", "trailing", "html", "notutf8", "nested", "redirectother"},
  \* what else the reply's headers say; it changes nothing
  ctype |-> {"-", "application/json", "text/html"}
]
Odd == [
  mode |-> {}, kind |-> {},
  uri  |-> {"https://v.example/r/", "https://v.example/R?", "http://v.example:80/r?response=1&vp_token=x&state=y", "https://V.example/%2e/a//b",
            "https://xn--bcher-kva.example/r", "https://[::1]:8443/r", "https://u@v.example/r"},
  token |-> {"huge", "sixty", "nested"},
  state |-> {" s ", "@long", "@unicode", "s;t", "s/t?#"},
  rstate |-> {""},
  jwt   |-> {"@long", " a.b.c ", "a.b.c.d.e", "{}"},
  http  |-> {"100", "101", "199", "202", "203", "205", "207", "226", "300", "301", "303", "307", "308", "401", "403", "410", "418", "429", "502", "503", "599"},
  reply |-> {"redirectlong", "redirectunicode", "bool", "padded", "listofone", "listoftwo", "quoted", "utf16", "deep", "redirectapp", "redirecthttp"},
  ctype |-> {"application/json; charset=utf-8", "application/octet-stream", "text/plain", "application/jwt", "other headers"}
]
Fields == <<"mode", "uri", "kind", "token", "state", "rstate", "jwt", "http", "reply", "ctype">>
Base == [mode |-> "direct_post", uri |-> "https://v.example/r", kind |-> "plain", token |-> "one", state |-> "-", rstate |-> "-",
         jwt |-> "a.b.c", http |-> "200", reply |-> "redirect", ctype |-> "application/json"]
Bases == {Base, [Base EXCEPT !.mode = "direct_post.jwt", !.kind = "jwt", !.reply = "none"],
          [Base EXCEPT !.mode = "dc_api"], [Base EXCEPT !.mode = "dc_api.jwt", !.kind = "jwt"],
          [Base EXCEPT !.token = "special", !.state = "a b+c&d=e%26", !.rstate = "request-state"]}
Sensible == c.kind = "jwt" => c.token = Base.token /\ c.state \in {"-", "a b+c&d=e%26"} /\ c.rstate # ""

Post == c.mode \in {"direct_post", "direct_post.jwt", "-"}
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ sent = 0 /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, sent, res>>
Ask == pc = "vary" /\ Sensible /\ pc' = "form" /\ dv' = Fresh /\ UNCHANGED <<c, sent, res>>
Done(r) == res' = r /\ pc' = "done" /\ UNCHANGED <<c, dv, sent>>
Goto(l) == pc' = l /\ UNCHANGED <<c, dv, sent, res>>

Form == pc = "form" /\ CASE ~Post -> Done("none")
                         [] (c.mode = "direct_post.jwt") # (c.kind = "jwt") -> Done("err")
                         [] OTHER -> Goto("send")
Send == pc = "send" /\ sent' = sent + 1 /\ pc' = "status" /\ UNCHANGED <<c, dv, res>>
Success == c.http \in {"200", "201", "204", "299", "202", "203", "205", "207", "226"}
Status == pc = "status" /\ IF ~Success THEN Done("err") ELSE Goto("reply")
Redirects == {"redirect", "redirectcustom", "redirectextra", "redirectlong", "redirectunicode", "padded", "redirectother", "redirectapp", "redirecthttp"}
Reply == pc = "reply" /\
  CASE c.reply \in {"none", "blank", "empty", "other", "number", "null", "list", "string", "nested", "listofone", "listoftwo", "quoted", "bool", "deep"} -> Done("none")
    [] c.reply \in Redirects -> Done("redirect")
    [] OTHER -> Done("err")
Next == Environment \/ Ask \/ Form \/ Send \/ Status \/ Reply
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
SentAtMostOnce == sent <= 1
\* Plain presentations never leave the wallet when an encrypted response was asked for, nor the other way round.
RightForm == sent > 0 => Post /\ ((c.mode = "direct_post.jwt") <=> (c.kind = "jwt"))
ApiSendsNothing == ~Post => sent = 0
SuccessMeansReceived == (res \in {"none", "redirect"} /\ Post) => sent = 1 /\ Success
Follows == res = "redirect" => c.reply \in Redirects

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, sent |-> sent, res |-> res])>>)
================================================================================
