------------------------------- MODULE NonEmpty -------------------------------
(***************************************************************************)
(* The lists of a DCQL query, which are never empty (src/utils.rs): every  *)
(* way to make one, and a history of additions.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen, MaxOps
VARIABLES how, from, list, hist, pc
vars == <<how, from, list, hist, pc>>
Elems == {"a", "b", ""}
Lists == UNION {[1..n -> Elems] : n \in 0..MaxLen} \cup {[i \in 1..n |-> IF i % 3 = 0 THEN "" ELSE "b"] : n \in {40, 129, 300, 2000}}
Init == /\ how \in {"new", "maybe_new", "try_from", "json", "default"}
        /\ from \in Lists
        /\ (how = "new" => Len(from) = 1) /\ (how = "default" => from = <<"">>)   \* one element, the default one
        /\ list = from /\ hist = <<>>
        /\ pc = IF from = <<>> THEN "refused" ELSE "live"
Push == pc = "live" /\ Len(hist) < (IF Len(from) > MaxLen THEN 1 ELSE MaxOps) /\ \E e \in Elems : list' = Append(list, e) /\ hist' = Append(hist, e) /\ UNCHANGED <<how, from, pc>>
Next == Push
Spec == Init /\ [][Next]_vars
NeverEmpty == pc = "live" => Len(list) >= 1
OnlyGrows == pc = "live" => Len(list) = Len(from) + Len(hist) /\ SubSeq(list, 1, Len(from)) = from
Emit == PrintT(<<"VEC", ToJson([how |-> how, from |-> from, push |-> hist, list |-> list, ok |-> pc = "live"])>>)
================================================================================
