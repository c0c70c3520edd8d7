--------------------------------- MODULE Life ---------------------------------
(***************************************************************************)
(* Whole lives of sessions, one operation after another, with everything   *)
(* that can be in them: identifiers that are nearly alike, stores of every *)
(* kind, crowds of other sessions, requests fetched again and again,       *)
(* responses and outcomes of every shape, verification repeated, sessions  *)
(* removed and rebuilt.  (The interleavings are SessionImpl's business.)   *)
(* Session a lives through it; session b is a bystander, u never existed.  *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, a, b, valid, log
vars == <<c, dv, pc, a, b, valid, log>>

Errors    == {"error:", "error:short", "error:long", "error:special"}
Failures  == {"failure:", "failure:short", "failure:long", "failure:special"}
Successes == {"success:null", "success:text", "success:empty", "success:number", "success:big", "success:false", "success:list",
              "success:object", "success:nested", "success:long"}
Outs == Errors \cup Failures \cup Successes
Dom == [
  ids   |-> {"apart", "last", "first", "version", "nil", "max", "swapped", "upper"},   \* how the identifiers of a, b and u are alike
  store |-> {"memory", "clone", "plain"},
  deliv |-> {"byref", "value", "dc"},
  mode  |-> {"direct_post", "direct_post.jwt"},
  ask   |-> {"-", "state", "otherstate", "emptystate", "rich", "idtoken", "code"},   \* what else the request says
  crowd |-> {0, 70, 1100},                   \* other sessions in the store ...
  when  |-> {"before", "between", "after"},  \* ... that came before a, between a and b, or after both
  fetch |-> {0, 1, 2, 40},                   \* how often the request is fetched before a response comes
  resp  |-> {"plain", "state", "emptystate", "special", "jwt", "emptyjwt", "none", "many", "huge"},
  mark  |-> {"-", "received", "sent", "byref"},     \* the application writes this status into the store itself
  first |-> Outs \cup {"-"},
  then  |-> Outs \cup {"-"},
  last  |-> {"-", "error:short", "failure:short", "success:text", "success:null"},
  back  |-> {0, 1, 3},                       \* fetched again when all is over
  rm    |-> {"-", "b", "a", "rebuild", "twice", "u", "replace"},
  btoo  |-> {"-", "fetch", "verify", "verifyfirst"}
]
Fields == <<"ids", "store", "deliv", "mode", "ask", "crowd", "when", "fetch", "resp", "mark", "first", "then", "last", "back", "rm", "btoo">>
Base == [ids |-> "apart", store |-> "memory", deliv |-> "byref", mode |-> "direct_post", ask |-> "-", crowd |-> 0, when |-> "before", fetch |-> 1,
         resp |-> "plain", mark |-> "-", first |-> "success:text", then |-> "-", last |-> "-", back |-> 1, rm |-> "-", btoo |-> "-"]
Bases == {Base,
          [Base EXCEPT !.deliv = "value", !.first = "failure:short", !.then = "success:object", !.resp = "state"],
          [Base EXCEPT !.first = "success:object", !.then = "error:short", !.store = "plain", !.fetch = 0],
          [Base EXCEPT !.ids = "last", !.crowd = 70, !.btoo = "verify", !.rm = "rebuild"],
          [Base EXCEPT !.deliv = "dc", !.resp = "jwt", !.first = "error:short"],
          [Base EXCEPT !.mode = "direct_post.jwt", !.ask = "state", !.resp = "state", !.rm = "replace"],
          [Base EXCEPT !.mark = "received", !.first = "-", !.fetch = 0]}
\* One very large crowd is enough.
Huge == {[Base EXCEPT !.crowd = 70000, !.store = s] : s \in {"memory", "clone"}}

Init == /\ c \in Bases \cup Huge /\ dv = Fresh /\ pc = "vary" /\ a = "absent" /\ b = "absent" /\ valid = 0 /\ log = <<>>
Environment == pc = "vary" /\ c \notin Huge /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, a, b, valid, log>>
\* b's identifier cannot be chosen to be like a's where a's is made by the library, and without a crowd it does not matter when it came.
Sensible == /\ c.deliv = "dc" => c.ids = "apart"
            /\ c.crowd = 0 => c.when = "before"
            /\ c.then # "-" => c.first # "-"
            /\ c.last # "-" => c.then # "-"
            /\ c.rm = "replace" => c.deliv # "dc"
Ask == pc = "vary" /\ Sensible /\ pc' = "crowd1" /\ dv' = Fresh /\ UNCHANGED <<c, a, b, valid, log>>

Order == <<"crowd1", "build a", "crowd2", "build b", "crowd3", "b first", "fetch", "mark", "first", "then", "last", "b then", "rm", "rebuilt", "back", "done">>
After(l) == Order[(CHOOSE i \in DOMAIN Order : Order[i] = l) + 1]
At(l) == pc = l /\ pc' = After(l) /\ UNCHANGED <<c, dv>>
\* op on a session, n times, with a result; what everyone sees afterwards.
Log(op, s, x, n, ok) == log' = Append(log, [op |-> op, s |-> s, x |-> x, n |-> n, ok |-> ok, a |-> a', b |-> b', valid |-> valid'])
Skip == UNCHANGED <<a, b, valid, log>>
New == IF c.deliv = "byref" THEN "byref" ELSE "sent"
Rank(st) == CASE st = "absent" -> 0 [] st = "byref" -> 1 [] st = "sent" -> 2 [] st = "received" -> 3 [] OTHER -> 4
Fetched(st) == IF st = "byref" THEN "sent" ELSE st

Crowd(l, w) == At(l) /\ IF c.when = w /\ c.crowd > 0 THEN UNCHANGED <<a, b, valid>> /\ Log("crowd", "-", "-", c.crowd, TRUE) ELSE Skip
BuildA == At("build a") /\ a' = New /\ UNCHANGED <<b, valid>> /\ Log("build", "a", c.deliv, 1, TRUE)
BuildB == At("build b") /\ b' = "byref" /\ UNCHANGED <<a, valid>> /\ Log("build", "b", "byref", 1, TRUE)
BFirst == At("b first") /\ IF c.btoo = "verifyfirst" THEN b' = "failure:short" /\ valid' = valid + 1 /\ UNCHANGED a /\ Log("verify", "b", "failure:short", 1, TRUE) ELSE Skip
Fetch == At("fetch") /\ IF c.fetch > 0 THEN a' = Fetched(a) /\ UNCHANGED <<b, valid>> /\ Log("fetch", "a", "-", c.fetch, TRUE) ELSE Skip
\* A store takes what moves the session on; only one that does as it is told takes a session back.
Mark == At("mark") /\ IF c.mark # "-" /\ (c.store = "plain" => Rank(c.mark) >= Rank(a))
                      THEN a' = (IF Rank(c.mark) > Rank(a) THEN c.mark ELSE a) /\ UNCHANGED <<b, valid>> /\ Log("mark", "a", c.mark, 1, TRUE) ELSE Skip
Verify(l, o) == At(l) /\ IF o # "-" THEN a' = o /\ valid' = valid + 1 /\ UNCHANGED b /\ Log("verify", "a", o, 1, TRUE) ELSE Skip
BThen == At("b then") /\
  CASE c.btoo = "fetch"  -> b' = Fetched(b) /\ UNCHANGED <<a, valid>> /\ Log("fetch", "b", "-", 1, TRUE)
    [] c.btoo = "verify" -> b' = "success:text" /\ valid' = valid + 1 /\ UNCHANGED a /\ Log("verify", "b", "success:text", 1, TRUE)
    [] OTHER -> Skip
\* What is removed is gone for every operation; what was never there cannot be used either.
Remove == At("rm") /\
  CASE c.rm = "b" -> b' = "absent" /\ UNCHANGED <<a, valid>> /\ Log("remove", "b", "-", 1, TRUE)
    [] c.rm \in {"a", "rebuild", "twice"} -> a' = "absent" /\ UNCHANGED <<b, valid>> /\ Log("remove", "a", "-", 1, TRUE)
    [] c.rm = "u" -> UNCHANGED <<a, b, valid>> /\ Log("remove", "u", "-", 1, FALSE)
    \* A request built under an identifier that is in use: it is the session from now on, or it is refused.
    [] c.rm = "replace" -> a' = New /\ UNCHANGED <<b, valid>> /\ Log("replace", "a", c.deliv, 1, TRUE)
    [] OTHER -> Skip
Rebuilt == At("rebuilt") /\
  CASE c.rm = "rebuild" -> a' = New /\ UNCHANGED <<b, valid>> /\ Log("build", "a", c.deliv, 1, TRUE)
    [] c.rm = "twice" -> UNCHANGED <<a, b, valid>> /\ Log("remove", "a", "-", 1, FALSE)
    [] c.rm = "a" -> UNCHANGED <<a, b, valid>> /\ Log("verify", "a", "success:text", 1, FALSE)
    [] c.rm = "b" -> UNCHANGED <<a, b, valid>> /\ Log("fetch", "b", "-", 1, FALSE)
    [] c.rm = "u" -> UNCHANGED <<a, b, valid>> /\ Log("verify", "u", "success:text", 1, FALSE)
    [] OTHER -> Skip
Back == At("back") /\
  IF c.back > 0 THEN a' = Fetched(a) /\ UNCHANGED <<b, valid>> /\ Log("fetch", "a", "-", c.back, a # "absent") ELSE Skip
Next == \/ Environment \/ Ask \/ Crowd("crowd1", "before") \/ BuildA \/ Crowd("crowd2", "between") \/ BuildB \/ Crowd("crowd3", "after")
        \/ BFirst \/ Fetch \/ Mark \/ Verify("first", c.first) \/ Verify("then", c.then) \/ Verify("last", c.last) \/ BThen \/ Remove \/ Rebuilt \/ Back
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
NeverBackwards == [][a' = "absent" \/ a = "absent" \/ (pc = "rm" /\ c.rm = "replace") \/ Rank(a') >= Rank(a)]_vars
BystanderStays == [][b' # b => log'[Len(log')].s = "b"]_vars
LastVerdict == (pc = "done" /\ Rank(a) = 4) => a = (IF c.last # "-" THEN c.last ELSE IF c.then # "-" THEN c.then ELSE c.first)
OneValidationEach == valid = Cardinality({i \in DOMAIN log : log[i].op = "verify" /\ log[i].ok})
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, log |-> log])>>)
================================================================================
