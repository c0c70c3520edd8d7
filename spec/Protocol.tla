------------------------------- MODULE Protocol -------------------------------
(***************************************************************************)
(* The whole presentation: a verifier V with two sessions, an honest       *)
(* wallet, and a network run by another, equally registered verifier E     *)
(* who reads everything, hands the wallet any link and any request object  *)
(* he can make, and delivers, loses or redirects responses.  He cannot     *)
(* sign for V.  Every action is one of the library: building, validating,  *)
(* retrieving, submitting, verifying, polling.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSteps, Configs
VARIABLES conf, status, held, presented, leaked, hist
vars == <<conf, status, held, presented, leaked, hist>>
Sess == {"s1", "s2"}
\* Request objects: V's two; E's own, and E's own with the nonce of s1; V's client_id under E's key with E's or V's
\* header; s1 with another response_uri, with the signature of s2, and with none.
Jwts == {"s1", "s2", "e", "e1", "asV", "asVheader", "altered", "swapped", "none"}
Claims(j) == IF j \in {"e", "e1"} THEN "E" ELSE "V"
Authentic(j) == j \in {"s1", "s2", "e", "e1"}
Nonce(j) == CASE j = "e1" -> "s1" [] OTHER -> j
Kinds == {"did", "x509_san_dns", "x509_hash"}
AllConfigs == [kind : Kinds, delivery : {"value", "reference"}, mode : {"direct_post", "direct_post.jwt"}]
FewConfigs == {[kind |-> "did", delivery |-> "reference", mode |-> "direct_post"],
               [kind |-> "x509_san_dns", delivery |-> "reference", mode |-> "direct_post.jwt"],
               [kind |-> "x509_hash", delivery |-> "value", mode |-> "direct_post"]}

Init == /\ conf \in Configs
        /\ status = [s \in Sess |-> IF conf.delivery = "reference" THEN "ByReference" ELSE "Sent"]
        /\ held = "-"            \* the request the wallet has accepted and not answered
        /\ presented = {} /\ leaked = {} /\ hist = <<>>
Step(e) == Len(hist) < MaxSteps /\ hist' = Append(hist, e) /\ UNCHANGED conf

\* The wallet opens a link: with a request object in it, or fetched from V's address of session at, where E may answer instead.
Answers == {"honest", "lost"} \cup Jwts
Retrieved(s) == [status EXCEPT ![s] = IF @ = "ByReference" THEN "Sent" ELSE @]
Accepts(outer, j) == Authentic(j) /\ (outer = "-" \/ outer = Claims(j))
Open(outer, at, j) ==   \* j: what the wallet gets to see ("-": nothing)
  LET ok == j # "-" /\ Accepts(outer, j) IN
  /\ held' = IF ok THEN j ELSE "-"
  /\ UNCHANGED <<presented, leaked>>
OpenValue == \E outer \in {"V", "E", "-"}, j \in Jwts :
  /\ Open(outer, "-", j) /\ UNCHANGED status
  /\ Step([op |-> "open", outer |-> outer, at |-> "-", answer |-> j, jwt |-> j, ok |-> Accepts(outer, j), status |-> status])
OpenReference == \E outer \in {"V", "E", "-"}, s \in Sess, a \in Answers :
  LET j == IF a = "honest" THEN s ELSE IF a = "lost" THEN "-" ELSE a IN
  /\ (a \in Sess => a # s)
  /\ Open(outer, s, j)
  /\ status' = IF a = "honest" THEN Retrieved(s) ELSE status
  /\ Step([op |-> "open", outer |-> outer, at |-> s, answer |-> a, jwt |-> j, ok |-> j # "-" /\ Accepts(outer, j), status |-> status'])
\* The link V made, untouched.
OpenLink == \E s \in Sess :
  /\ Open("V", s, s)
  /\ status' = IF conf.delivery = "reference" THEN Retrieved(s) ELSE status
  /\ Step([op |-> "open", outer |-> "link", at |-> s, answer |-> "honest", jwt |-> s, ok |-> TRUE, status |-> status'])

\* The wallet answers what it accepted, at the address that is in it; the response says whom and what it is for.
Verdict(j, s) == IF Claims(j) = "V" /\ Nonce(j) = s THEN "Success" ELSE "Failure"
Submit == held # "-" /\ held' = "-" /\
  \E net \in {"deliver", "lost", "unacknowledged", "s1", "s2"} :
    LET home == IF Claims(held) = "V" THEN held ELSE "E"
        to == IF net = "lost" THEN "-" ELSE IF net \in Sess THEN net ELSE home
    IN /\ net # home
       /\ (home = "E" => net # "unacknowledged")
       /\ status' = IF to \in Sess THEN [status EXCEPT ![to] = Verdict(held, to)] ELSE status
       /\ presented' = presented \cup {held}
       /\ leaked' = IF home = "E" THEN leaked \cup {held} ELSE leaked
       /\ Step([op |-> "submit", jwt |-> held, net |-> net, home |-> home, to |-> to,
                ok |-> net \in {"deliver", "s1", "s2"}, status |-> status'])
Next == OpenValue \/ OpenReference \/ OpenLink \/ Submit
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* The wallet takes nothing for V's that V did not make.
Agreement == held # "-" /\ Claims(held) = "V" => held \in Sess
\* A presentation for V is sent to V only.
ForVOnlyToV == \A j \in leaked : Claims(j) = "E"
\* A session succeeds only if the wallet presented for that session's request.
SuccessMeansPresented == \A s \in Sess : status[s] = "Success" => s \in presented
\* Completed sessions stay completed, and a session waiting to be retrieved was never opened honestly.
StaysComplete == [][\A s \in Sess : status[s] \in {"Success", "Failure"} => status'[s] \in {"Success", "Failure"}]_vars
\* Without interference the presentation succeeds.
HonestSucceeds == [][(\E i \in DOMAIN hist' : i = Len(hist') /\ hist'[i].op = "submit" /\ hist'[i].net = "deliver" /\ hist'[i].home \in Sess)
                     => status'[hist'[Len(hist')].home] = "Success"]_vars
\* Histories are told apart by where they lead: Whole for the formulas above, Reach for the behaviours to replay, one per transition.
Whole == <<conf, status, held, presented, leaked>>
Reach == <<conf, status, held>>
EmitStep == PrintT(<<"VEC", ToJson([conf |-> conf, hist |-> hist'])>>)
================================================================================
