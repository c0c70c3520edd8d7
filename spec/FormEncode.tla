------------------------------ MODULE FormEncode ------------------------------
(***************************************************************************)
(* Responses through their form encoding and back:                         *)
(* into_x_www_form_urlencoded and from_x_www_form_urlencoded               *)
(* (src/core/response/mod.rs).  Texts are sequences of symbols standing    *)
(* for characters that mean something to forms, JSON or UTF-8.             *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K, Big
VARIABLES c, dv, pc, res
vars == <<c, dv, pc, res>>

Sym == {"a", "Z", "0", "sp", "plus", "pct", "amp", "eq", "semi", "quot", "apos", "bsl", "slash", "nl", "cr", "nul", "tab", "hash",
        "quest", "tilde", "star", "dot", "minus", "under", "lbrace", "lbrack", "comma", "colon", "e2", "e3", "e4", "comb", "bom", "del"}
Short == {<<>>} \cup {<<x>> : x \in Sym}
Pairs == {<<x, y>> : x, y \in Sym}
Tricky == {<<"pct", "0", "0">>, <<"pct", "Z">>, <<"a", "pct">>, <<"plus", "sp", "plus">>, <<"amp", "a", "eq", "a">>, <<"sp", "sp">>,
           <<"bsl", "quot">>, <<"bsl", "nul">>, <<"e4", "comb", "e4">>, <<"a", "comb">>, <<"big">>, <<"sp", "a", "sp">>, <<"a", "sp", "plus", "sp", "a">>,
           <<"0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "Z">>}
\* Texts that could be taken for something else.
Words == {<<w>> : w \in {"null", "undefined", "none", "None", "true", "false", "-1", "1.5", "00", "1e9", "NaN", "state", "vp_token", "response", "error", "id_token",
                         "{}", "[]", "[1]", "''", "a.b.c", "eyJ.e30.", "a.b.c.d.e", "data:a,b", "https://v.example/?a=b#c", "../a", "<a>", "a|b", "a`b", "a^b", "$a", "(a)", "a@b", "a!"}}
Text == IF Big THEN Short \cup Tricky \cup Pairs \cup Words ELSE Short \cup Tricky
Dom == [
  kind  |-> {"plain", "jwt"},
  state |-> {<<"-">>} \cup Text,             \* <<"-">>: absent
  id    |-> Text,
  pres  |-> Text,                            \* a presentation
  member|-> Short \cup Tricky,               \* the name of a member of a JSON presentation
  shape |-> {"none", "noitems", "one", "two", "object", "mixed", "twoids", "deep", "many", "manyids"},
  jwt   |-> Text
]
Fields == <<"kind", "shape", "state", "id", "pres", "member", "jwt">>
Base == [kind |-> "plain", shape |-> "one", state |-> <<"a">>, id |-> <<"a">>, pres |-> <<"Z">>, member |-> <<"a">>, jwt |-> <<"a">>]
Bases == {Base, [Base EXCEPT !.state = <<"-">>, !.shape = "mixed"], [Base EXCEPT !.kind = "jwt"], [Base EXCEPT !.shape = "deep"]}
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-"
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, res>>
Ask == pc = "vary" /\ (c.kind = "jwt" => c.shape = "one") /\ pc' = "encode" /\ dv' = Fresh /\ UNCHANGED <<c, res>>
\* Every text can be encoded, and comes back: there is nothing a form cannot carry.
Encode == pc = "encode" /\ pc' = "decode" /\ UNCHANGED <<c, dv, res>>
Decode == pc = "decode" /\ pc' = "done" /\ res' = c.kind /\ UNCHANGED <<c, dv>>
Next == Environment \/ Ask \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars
SameKind == pc = "done" => res = c.kind
Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c])>>)
================================================================================
