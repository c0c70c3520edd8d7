------------------------------- MODULE VpToken -------------------------------
(***************************************************************************)
(* A vp_token being put together, written and read (VpToken, VpTokenItem,  *)
(* src/core/response/parameters.rs): under each credential query's id the  *)
(* list of presentations last put there, in order, of whatever kind.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxOps
VARIABLES start, tok, hist, pc
vars == <<start, tok, hist, pc>>

Core == {"a", "A", "", "unicode", "long", "dotted"}
\* Identifiers that only need to be met once.
OddIds == {"0", "-1", "null", "vp_token", "state", "a b", " ", "a/b", "a:b", "a&b=c", "%41", "$", "*", "a,b", "__proto__", "quote", "control", "combining"}
Ids == Core \cup OddIds
\* Presentations: texts, objects, and what is made of the presentation types of ssi.
Texts == {"t:jwt", "t:empty", "t:unicode", "t:object", "t:list", "t:null", "t:quoted", "t:long", "t:padded", "t:sdjwt", "t:number", "t:mdoc"}
Objects == {"o:empty", "o:simple", "o:nested", "o:numbers", "o:long", "o:deep", "o:order"}
Made == {"m:v1", "m:v2", "m:any1", "m:any2", "m:di", "m:v2s", "m:v1c", "m:v2c", "m:any2c"}
Items == Texts \cup Objects \cup Made
Lists == {<<>>} \cup {<<x>> : x \in Items} \cup {<<"t:jwt", "o:simple">>, <<"o:simple", "t:jwt">>, <<"t:jwt", "t:jwt">>, <<"t:empty", "m:v1", "t:object">>,
         [i \in 1..60 |-> IF i % 7 = 0 THEN "o:simple" ELSE IF i % 5 = 0 THEN "t:empty" ELSE "t:jwt"]}
Few == {<<>>, <<"t:jwt">>, <<"o:nested">>, <<"t:object", "o:simple">>, <<"m:any2", "t:jwt", "t:jwt">>}
NA == <<"-">>
None == [i \in Ids |-> NA]
Init == /\ start \in {[how |-> h, id |-> "a", l |-> NA] : h \in {"new", "default"}} \cup {[how |-> "with", id |-> i, l |-> l] : i \in {"a", ""}, l \in Lists}
                      \cup {[how |-> "with", id |-> i, l |-> l] : i \in OddIds, l \in {<<"t:jwt">>}}
        /\ tok = (IF start.how = "with" THEN [None EXCEPT ![start.id] = start.l] ELSE None)
        /\ hist = <<>> /\ pc = "ops"
Do(op, id, l, next) == /\ pc = "ops" /\ Len(hist) < MaxOps /\ tok' = next
                       /\ hist' = Append(hist, [op |-> op, id |-> id, l |-> l, view |-> next])
                       /\ UNCHANGED <<start, pc>>
Insert == \E i \in Core : \E l \in Few : Do("insert", i, l, [tok EXCEPT ![i] = l])
InsertOdd == hist = <<>> /\ start.how = "new" /\ \E i \in OddIds : \E l \in {<<"o:nested">>} : Do("insert", i, l, [tok EXCEPT ![i] = l])
\* Written and read as text, as a JSON value, as a parameter of an object: the same token.
Wire == \E w \in {"text", "value", "parameter"} : Do(w, "-", NA, tok)
Stop == pc = "ops" /\ Len(hist) = MaxOps /\ pc' = "done" /\ UNCHANGED <<start, tok, hist>>
Next == Insert \/ InsertOdd \/ Wire \/ Stop
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* Nothing is answered that was not put there, and nothing is forgotten.
Puts(i) == {h \in DOMAIN hist : hist[h].op = "insert" /\ hist[h].id = i}
LastPut(i) == IF Puts(i) = {} THEN (IF start.how = "with" /\ start.id = i THEN start.l ELSE NA)
              ELSE hist[CHOOSE h \in Puts(i) : \A g \in Puts(i) : g <= h].l
HoldsLastPut == \A i \in Ids : tok[i] = LastPut(i)
WiringChangesNothing == [][\/ tok' = tok \/ hist'[Len(hist')].op = "insert"]_vars
Emit == pc = "done" => PrintT(<<"VEC", ToJson([start |-> start, hist |-> hist])>>)
================================================================================
