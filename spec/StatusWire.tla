------------------------------ MODULE StatusWire ------------------------------
(***************************************************************************)
(* A session's status as the front end gets it (openid4vp-frontend): every *)
(* status reads back from JSON as itself with all it carries, and statuses *)
(* are ordered as a presentation advances, whatever the outcomes carry.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES x, y, z, spoilt
vars == <<x, y, z, spoilt>>
Texts == {"", "plain", "quote", "unicode", "long", "padded", "SentRequest", " ", "0", "null", "true", "1.5", "Error", "Success", "reason",
          "{}", "[]", "a=b&c", "<b>", "a/b", "ERROR", "x: y", "timeout", "expired"}
Infos == {"zerolist", "emptytext", "emptyobject", "emptylist", "true", "unicode", "reason", "escapes", "null", "false", "zero", "float", "text", "list", "object", "deep", "large", "status", "numbers"}
St(k, o, c) == [kind |-> k, outcome |-> o, content |-> c]
All == {St("SentRequestByReference", "-", "-"), St("SentRequest", "-", "-"), St("ReceivedResponse", "-", "-")}
       \cup {St("Complete", o, c) : o \in {"Error", "Failure"}, c \in Texts}
       \cup {St("Complete", "Success", c) : c \in Infos}
Rank(s) == CASE s.kind = "SentRequestByReference" -> 1 [] s.kind = "SentRequest" -> 2 [] s.kind = "ReceivedResponse" -> 3
             [] s.outcome = "Error" -> 4 [] s.outcome = "Failure" -> 5 [] OTHER -> 6
\* What an outcome carries does not count.
Same(a, b) == a.kind = b.kind /\ a.outcome = b.outcome
Less(a, b) == Rank(a) < Rank(b)
Few == {s \in All : s.content \in {"-", "", "plain", "null", "object"}}
Member(o) == CASE o = "Error" -> "cause" [] o = "Failure" -> "reason" [] OTHER -> "info"
\* What is not a status is not read as one.
Spoils(s) == {"lower", "upper", "snake", "kebab", "camel", "screaming", "index", "list", "text", "number", "another", "twice", "member"}
             \cup (IF s.kind = "Complete" THEN {} ELSE {"spaced"})
             \cup (IF s.kind = "Complete" THEN {"as" \o m : m \in {"reason", "cause", "info", "message"} \ {Member(s.outcome)}} ELSE {})
             \cup (IF s.kind = "Complete" THEN {"nocontent", "lowoutcome", "upoutcome", "otheroutcome", "outcomeindex", "nooutcome", "flat", "renamed"} ELSE {})
             \cup (IF s.outcome \in {"Error", "Failure"} THEN {"contentnumber", "contentnull"} ELSE {})
Init == \/ x \in All /\ y \in All /\ z \in Few /\ spoilt = "-"
        \/ x \in All /\ y = x /\ z = x /\ spoilt \in Spoils(x)
Spec == Init /\ [][FALSE]_vars
Transitive == Less(x, y) /\ Less(y, z) => Less(x, z)
Total == Less(x, y) \/ Less(y, x) \/ Same(x, y)
CompleteLast == x.kind = "Complete" => \A s \in All : Less(x, s) => s.kind = "Complete"
SuccessLast == x.outcome = "Success" => \A s \in All : ~Less(x, s)
Emit == PrintT(<<"VEC", ToJson([x |-> x, y |-> y, z |-> z, spoilt |-> spoilt, xy |-> IF Less(x, y) THEN "less" ELSE IF Less(y, x) THEN "greater" ELSE "equal"])>>)
================================================================================
