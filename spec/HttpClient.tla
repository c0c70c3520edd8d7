------------------------------ MODULE HttpClient ------------------------------
(***************************************************************************)
(* The library's own HTTP client (ReqwestClient, src/core/util): one       *)
(* exchange over a connection to a server that may answer, answer badly,   *)
(* or go away.  What is asked reaches the server as it is; what the server *)
(* answers reaches the caller as it is; anything less is an error.         *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, sent, res
vars == <<c, dv, pc, sent, res>>
Dom == [
  method  |-> {"GET", "POST", "PUT", "DELETE"},
  path    |-> {"/", "/a/b", "/a%20b/%C3%A9", "/a?x=1&y=%20+", "/a?q=https%3A%2F%2Fh%2F%3Fa%3Db"},
  body    |-> {"empty", "text", "form", "binary", "large"},
  header  |-> {"-", "prefer", "form", "custom", "twice"},
  status  |-> {"200", "201", "204", "400", "404", "500", "503"},
  rheader |-> {"-", "json", "custom", "twice"},
  rbody   |-> {"empty", "json", "binary", "large", "latin1"},
  framing |-> {"length", "chunked", "close", "split"},
  fault   |-> {"-", "refused", "silent", "garbage", "cut", "cutchunk"}
]
\* Values that count as two changes.
Odd == [f \in DOMAIN Dom |->
  CASE f = "method" -> {"PATCH", "OPTIONS", "X-OWN"}
    [] f = "path" -> {"/a//b/", "/?", "@long"}
    [] f = "header" -> {"long", "many", "accept"}
    [] f = "status" -> {"202", "299", "401", "410", "418", "429", "499", "599"}
    [] f = "rheader" -> {"long", "many", "cookie", "empty", "latin1"}
    [] f = "rbody" -> {"bom", "zeros", "byte", "huge"}
    [] f = "body" -> {"huge"}
    [] f = "framing" -> {"slow"}
    [] OTHER -> {}]
Fields == <<"method", "path", "body", "header", "status", "rheader", "rbody", "framing", "fault">>
Base == [method |-> "GET", path |-> "/a/b", body |-> "empty", header |-> "prefer", status |-> "200", rheader |-> "json",
         rbody |-> "json", framing |-> "length", fault |-> "-"]
Post == [Base EXCEPT !.method = "POST", !.body = "form", !.header = "form"]
Sensible == /\ c.method \in {"GET", "DELETE", "OPTIONS"} => c.body = "empty"
            /\ c.status = "204" => c.rbody = "empty" /\ c.framing = "length"
            /\ c.fault \in {"cut", "cutchunk"} => c.rbody \notin {"empty"} /\ c.status # "204"
            /\ c.fault = "cutchunk" => c.framing = "chunked"
            /\ c.fault = "cut" => c.framing \in {"length", "split"}
Init == c \in {Base, Post} /\ dv = Fresh /\ pc = "vary" /\ sent = FALSE /\ res = "-"
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, sent, res>>
Ask == pc = "vary" /\ Sensible /\ pc' = "connect" /\ dv' = Fresh /\ UNCHANGED <<c, sent, res>>
Fail == res' = "err" /\ pc' = "done"
Connect == pc = "connect" /\ IF c.fault = "refused" THEN Fail /\ UNCHANGED <<c, dv, sent>>
           ELSE sent' = TRUE /\ pc' = "answer" /\ UNCHANGED <<c, dv, res>>
Answer == pc = "answer" /\ UNCHANGED <<c, dv, sent>> /\
          IF c.fault \in {"silent", "garbage", "cut", "cutchunk"} THEN Fail ELSE res' = "ok" /\ pc' = "done"
Next == Environment \/ Ask \/ Connect \/ Answer
Spec == Init /\ [][Next]_vars
\* Nothing is made up of an answer that did not come whole, and an answer that did is not lost, whatever its status.
WholeOrError == pc = "done" => (res = "ok") <=> (c.fault = "-")
AskedFirst == res = "ok" => sent
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok", sent |-> sent])>>)
================================================================================
