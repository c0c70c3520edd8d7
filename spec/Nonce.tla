-------------------------------- MODULE Nonce --------------------------------
(***************************************************************************)
(* Nonces drawn from generators the verifier holds.  A generator's state   *)
(* is its seed and what was drawn from it so far; a nonce is determined by *)
(* the state it was drawn in and the length asked for, and by nothing      *)
(* else.  The environment draws, copies generators and starts them again.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxOps
VARIABLES gen, drawn, ops
vars == <<gen, drawn, ops>>

G == {"a", "b"}
Seeds == {"one", "two"}
Lengths == {0, 1, 2, 15, 16, 17, 31, 32, 33, 43, 64, 65, 128, 1000}
Fresh(s) == [seed |-> s, past |-> <<>>]

Init == gen = [g \in G |-> Fresh(IF g = "a" THEN "one" ELSE "two")] /\ drawn = <<>> /\ ops = <<>>
Do(op) == ops' = Append(ops, op)
Draw(g, n) == /\ drawn' = Append(drawn, [state |-> gen[g], len |-> n])
              /\ gen' = [gen EXCEPT ![g].past = Append(@, n)]
              /\ Do([op |-> "draw", g |-> g, n |-> n, s |-> "-"])
Copy(g, h) == g # h /\ gen' = [gen EXCEPT ![h] = gen[g]] /\ UNCHANGED drawn /\ Do([op |-> "copy", g |-> g, n |-> 0, s |-> h])
Restart(g, s) == gen' = [gen EXCEPT ![g] = Fresh(s)] /\ UNCHANGED drawn /\ Do([op |-> "restart", g |-> g, n |-> 0, s |-> s])
Next == /\ Len(ops) < MaxOps
        /\ \/ \E g \in G, n \in Lengths : Draw(g, n)
           \/ \E g, h \in G : Copy(g, h)
           \/ \E g \in G, s \in Seeds : Restart(g, s)
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Long(d) == d.len >= 16                            \* too long to come out the same by chance
SameDraw(d, e) == d = e
\* Whether drawing nothing changes the generator is left open: such draws tell no two states apart.
Past(d) == SelectSeq(d.state.past, LAMBDA n : n > 0)
OtherDraw(d, e) == d.state.seed # e.state.seed \/ Past(d) # Past(e) \/ d.len # e.len
\* Drawing from the same generator again gives another nonce, unless it was started again or copied.
Advances == [][\A g \in G : (gen'[g].seed = gen[g].seed /\ Len(gen'[g].past) > Len(gen[g].past)) => gen'[g] # gen[g]]_vars
Repeats == \A i, j \in DOMAIN drawn : (i < j /\ SameDraw(drawn[i], drawn[j])) =>
             \E k \in DOMAIN ops : ops[k].op \in {"copy", "restart"} \/ drawn[i].state.seed # drawn[j].state.seed
\* Drawing leaves other generators alone.
Alone == [][\A g, h \in G : (g # h /\ ops' # ops /\ ops'[Len(ops')].op = "draw" /\ ops'[Len(ops')].g = g) => gen'[h] = gen[h]]_vars
\* For each nonce: its length, and which of the earlier ones it equals, or is known to differ from.
Said == [i \in DOMAIN drawn |-> [len |-> drawn[i].len,
          same |-> {j \in 1..(i - 1) : SameDraw(drawn[i], drawn[j])},
          other |-> {j \in 1..(i - 1) : OtherDraw(drawn[i], drawn[j]) /\ Long(drawn[i]) /\ Long(drawn[j])}]]
Emit == (Len(ops) = MaxOps \/ Len(ops) = 1) => PrintT(<<"VEC", ToJson([ops |-> ops, said |-> Said])>>)
================================================================================
