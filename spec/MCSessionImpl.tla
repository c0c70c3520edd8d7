---------------------------- MODULE MCSessionImpl ----------------------------
EXTENDS SessionImpl
Two == {"s1", "s2"}
S(a, b) == [s \in Two |-> IF s = "s1" THEN a ELSE b]
P2 == 1..2
P3 == 1..3
P4 == 1..4
StartAll == {S(A!ByRef, A!ByRef), S(A!ByRef, A!Absent), S(A!Sent, A!ByRef)}
StartOne == {S(A!ByRef, A!ByRef)}
MenuAll == ({"poll", "retrieve", "verify"} \X Two) \cup {<<"remove", "s1">>}
             \cup ({"buildref", "buildval", "builddc"} \X {"s2"})
MenuSeq == ({"poll", "retrieve", "verify"} \X Two) \cup {<<"remove", "s1">>, <<"buildref", "s2">>}
MenuOne == {<<"retrieve", "s1">>, <<"verify", "s1">>, <<"poll", "s1">>}
MenuPair == {<<"retrieve", "s1">>, <<"verify", "s1">>}
MenuTwo == ({"retrieve", "verify", "remove"} \X {"s1"}) \cup {<<"verify", "s2">>, <<"buildref", "s2">>}
================================================================================
