------------------------------ MODULE FormDecode ------------------------------
(***************************************************************************)
(* What a verifier makes of any form sent to it: from_x_www_form_urlencoded*)
(* (src/core/response/mod.rs).  A form is a sequence of pairs of raw       *)
(* character sequences; decoding is spelt out character by character.      *)
(* Atoms ("T.", "F.") stand for properly escaped JSON texts.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxPairs, NameSet, ValueSet   \* how many pairs, of which names and values ("few", "some", "all")
VARIABLES form, pc, i, dec, res
vars == <<form, pc, i, dec, res>>

Hex == [h \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
         CASE h = "0" -> 0 [] h = "1" -> 1 [] h = "2" -> 2 [] h = "3" -> 3 [] h = "4" -> 4 [] h = "5" -> 5 [] h = "6" -> 6
           [] h = "7" -> 7 [] h = "8" -> 8 [] h = "9" -> 9 [] h \in {"a", "A"} -> 10 [] h \in {"b", "B"} -> 11
           [] h \in {"c", "C"} -> 12 [] h \in {"d", "D"} -> 13 [] h \in {"e", "E"} -> 14 [] OTHER -> 15]
\* Decoding: numbers are bytes that were escaped, everything else stands for itself.
RECURSIVE Unescape(_)
Unescape(r) ==
  IF r = <<>> THEN <<>>
  ELSE IF Head(r) = "+" THEN <<" ">> \o Unescape(Tail(r))
  ELSE IF Head(r) = "%" /\ Len(r) >= 3 /\ r[2] \in DOMAIN Hex /\ r[3] \in DOMAIN Hex
    THEN <<ToString(16 * Hex[r[2]] + Hex[r[3]])>> \o Unescape(SubSeq(r, 4, Len(r)))
  ELSE <<Head(r)>> \o Unescape(Tail(r))

\* Raw names, and what they decode to.
AllNames == {<<"response">>, <<"vp_token">>, <<"state">>, <<"other">>, <<"Response">>, <<"STATE">>, <<"State">>, <<"VP_TOKEN">>, <<"RESPONSE">>, <<"vpToken">>, <<"vp-token">>, <<"jwt">>, <<"+", "state">>, <<"vp_token", "+">>,
          <<"id_token">>, <<"error">>, <<"request">>, <<"vptoken">>, <<"presentation_submission">>, <<"state[]">>, <<"response[]">>, <<"vp_token[]">>,
          <<"respons", "%", "6", "5">>, <<"%", "7", "3", "tate">>, <<"vp_token", "%", "0", "0">>, <<>>}
Names == CASE NameSet = "all" -> AllNames
           [] NameSet = "some" -> {<<"response">>, <<"vp_token">>, <<"state">>, <<"other">>, <<"STATE">>, <<"respons", "%", "6", "5">>}
           [] OTHER -> {<<"response">>, <<"vp_token">>, <<"state">>, <<"other">>}
NameOf(d) == CASE d = <<"respons", "101">> -> "response" [] d = <<"115", "tate">> -> "state"
               [] Len(d) = 1 -> d[1] [] OTHER -> "other"
Good == {"T.one", "T.two", "T.empty", "T.noitems", "T.object", "T.unicode"}
Bad  == {"F.list", "F.string", "F.stringitem", "F.number", "F.null", "F.listitem", "F.truncated", "F.trailing", "F.notjson",
         "F.numbermap", "F.quoted", "F.quotes", "F.b64", "F.null2",
         "F.bom", "F.comma", "F.single", "F.comment", "F.nbsp", "F.twice"}
Texts == {<<"a">>, <<>>, <<"a", "+", "b">>, <<"%", "2", "0">>, <<"%", "2", "B">>, <<"%", "2", "b">>, <<"%", "2", "6", "=", "a">>,
          <<"%", "4">>, <<"%", "z", "z">>, <<"%">>, <<"%", "%", "4", "1">>, <<"%", "4", "+">>, <<"a", "%", "C", "3", "%", "A", "9">>,
          <<"null">>, <<"undefined">>, <<"true">>, <<"None">>, <<"'a'">>, <<"a;b">>, <<"a,b">>, <<"a.b.c.d.e">>, <<"eyJ.e30.">>, <<"-">>, <<"*">>, <<"a/b?c">>,
          <<"%", "2", "2", "a", "%", "2", "2">>, <<"+", "a", "+">>, <<"%", "0", "D", "a">>, <<"%", "E", "2", "%", "8", "0", "%", "A", "8">>,
          <<"=", "=">>, <<"a.b.c">>, <<"%", "0", "A">>, <<"%", "2", "5", "4", "1">>, <<"%", "+", "4">>, <<"%", "4", "g">>}
Values == CASE ValueSet = "all" -> {<<t>> : t \in Good \cup Bad} \cup Texts
            [] ValueSet = "some" -> {<<t>> : t \in {"T.one", "T.object", "F.stringitem", "F.truncated"}} \cup
                                    {<<"a">>, <<>>, <<"a", "+", "b">>, <<"%", "2", "6", "=", "a">>, <<"%", "4">>, <<"%", "%", "4", "1">>}
            [] OTHER -> {<<"T.one">>, <<"F.truncated">>, <<"a">>, <<"a", "+", "b">>}
Pair(n, v) == [name |-> n, val |-> v]
Joins == {"&", "&&"}

Init == /\ form = [pairs |-> <<>>, join |-> "&", lead |-> FALSE, trail |-> FALSE]
        /\ pc = "write" /\ i = 1 /\ dec = <<>> /\ res = [kind |-> "-"]
Write == /\ pc = "write" /\ Len(form.pairs) < MaxPairs
         /\ \E n \in Names, v \in Values : form' = [form EXCEPT !.pairs = Append(@, Pair(n, v))]
         /\ UNCHANGED <<pc, i, dec, res>>
Punctuate == /\ pc = "write" /\ \E j \in Joins, l, t \in BOOLEAN :
                  /\ <<j, l, t>> \in {<<"&", FALSE, FALSE>>, <<"&&", FALSE, TRUE>>, <<"&", TRUE, FALSE>>}
                  /\ form' = [form EXCEPT !.join = j, !.lead = l, !.trail = t]
             /\ pc' = "read" /\ UNCHANGED <<i, dec, res>>
Read == /\ pc = "read" /\ i <= Len(form.pairs)
        /\ dec' = Append(dec, [name |-> NameOf(Unescape(form.pairs[i].name)), val |-> Unescape(form.pairs[i].val)])
        /\ i' = i + 1 /\ UNCHANGED <<form, pc, res>>
Of(n) == SelectSeq(dec, LAMBDA p : p.name = n)
Err == [kind |-> "err"]
Decide == /\ pc = "read" /\ i > Len(form.pairs) /\ pc' = "done" /\ UNCHANGED <<form, i, dec>>
          /\ res' = CASE Len(Of("response")) = 1 -> [kind |-> "jwt", jwt |-> Of("response")[1].val]
                      [] Len(Of("response")) > 1 /\ Of("vp_token") # <<>> -> [kind |-> "open"]
                      [] Len(Of("vp_token")) # 1 \/ Len(Of("state")) > 1 -> Err
                      [] OTHER -> LET t == Of("vp_token")[1].val
                                  IN IF Len(t) = 1 /\ t[1] \in Good
                                     THEN [kind |-> "plain", token |-> t[1],
                                           state |-> IF Of("state") = <<>> THEN <<"-">> ELSE <<"+">> \o Of("state")[1].val]
                                     ELSE Err
Next == Write \/ Punctuate \/ Read \/ Decide
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* A response is never made up: a presentation comes from the one vp_token, a JWT from the one response member.
NeverInvented == /\ res.kind = "plain" => Len(Of("vp_token")) = 1 /\ Of("vp_token")[1].val = <<res.token>>
                 /\ res.kind = "jwt" => \E k \in 1..Len(dec) : dec[k].name = "response" /\ dec[k].val = res.jwt
StateKept == res.kind = "plain" => (res.state = <<"-">> <=> Of("state") = <<>>)
Ambiguous == (res.kind = "plain") => Len(Of("state")) <= 1
Emit == (pc = "done" /\ res.kind # "open") => PrintT(<<"VEC", ToJson([form |-> form, res |-> res])>>)
================================================================================
