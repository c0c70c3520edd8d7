-------------------------------- MODULE Vary --------------------------------
(* Input domains: the environment starts from a base configuration and      *)
(* changes at most K fields, each at most once and in order, so that every  *)
(* configuration within distance K of a base is reached exactly once.       *)
(* dom maps each field to the values it can take; v = [last, n] remembers   *)
(* the last field changed and how many were.                                *)
EXTENDS Naturals, Sequences, FiniteSets

Fresh == [last |-> 0, n |-> 0]

\* c -> cc: one further field changed.
Change(c, cc, v, vv, dom, fields, K) ==
  /\ v.n < K
  /\ \E i \in (v.last + 1)..Len(fields) :
       \E x \in dom[fields[i]] :
         /\ x # c[fields[i]]
         /\ cc = [c EXCEPT ![fields[i]] = x]
         /\ vv = [last |-> i, n |-> v.n + 1]

\* The same, where the values in odd[field] count as two changes.
ChangeOdd(c, cc, v, vv, dom, odd, fields, K) ==
  /\ v.n < K
  /\ \E i \in (v.last + 1)..Len(fields) :
       \/ \E x \in dom[fields[i]] :
            /\ x # c[fields[i]]
            /\ cc = [c EXCEPT ![fields[i]] = x]
            /\ vv = [last |-> i, n |-> v.n + 1]
       \/ /\ v.n + 1 < K
          /\ \E x \in odd[fields[i]] :
               /\ cc = [c EXCEPT ![fields[i]] = x]
               /\ vv = [last |-> i, n |-> v.n + 2]

\* All combinations of the given fields (the product), starting from b.
RECURSIVE Product(_, _, _)
Product(b, dom, fields) ==
  IF fields = <<>> THEN {b}
  ELSE LET f == Head(fields)
       IN UNION {Product([b EXCEPT ![f] = v], dom, Tail(fields)) : v \in dom[f]}

Range(s) == {s[i] : i \in DOMAIN s}
==============================================================================
