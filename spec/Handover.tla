------------------------------- MODULE Handover -------------------------------
(***************************************************************************)
(* The session transcript of a presentation (src/core/iso_18013_7): the    *)
(* handover for redirects and for the Digital Credentials API, byte by     *)
(* byte in CBOR.  Texts and byte strings are sequences of runs: a unit of  *)
(* bytes (the UTF-8 form of a character) and how often it is repeated.     *)
(***************************************************************************)
EXTENDS Vary, Integers, TLC, Json
CONSTANT K, Wide
VARIABLES c, dv, pc, info, hdr
vars == <<c, dv, pc, info, hdr>>

Run(u, n) == [u |-> u, n |-> n]
A(n) == <<Run(<<97>>, n)>>                                  \* "aaa..."
Z(n) == <<Run(<<122>>, n)>>
E(n) == <<Run(<<195, 169>>, n)>>                            \* "ééé...", two bytes each
Emoji(n) == <<Run(<<240, 159, 152, 128>>, n)>>
Nul == <<Run(<<0>>, 1)>>
Quote == <<Run(<<34>>, 1)>>
\* Texts with parts that something might take for irrelevant.
Url1 == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<47>>, 1), Run(<<114>>, 1)>>  \* 'https://v.example/r'
Url2 == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<47>>, 1), Run(<<114>>, 1), Run(<<47>>, 1)>>  \* 'https://v.example/r/'
Url3 == <<Run(<<72>>, 1), Run(<<84>>, 1), Run(<<84>>, 1), Run(<<80>>, 1), Run(<<83>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<86>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<58>>, 1), Run(<<52>>, 1), Run(<<52>>, 1), Run(<<51>>, 1), Run(<<47>>, 1), Run(<<114>>, 1), Run(<<47>>, 1), Run(<<63>>, 1), Run(<<97>>, 1), Run(<<61>>, 1), Run(<<98>>, 1), Run(<<37>>, 1), Run(<<50>>, 1), Run(<<48>>, 1), Run(<<99>>, 1), Run(<<38>>, 1), Run(<<100>>, 1), Run(<<35>>, 1), Run(<<102>>, 1)>>  \* 'HTTPS://V.example:443/r/?a=b%20c&d#f'
Url4 == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1)>>  \* 'https://v.example'
Who1 == <<Run(<<120>>, 1), Run(<<53>>, 1), Run(<<48>>, 1), Run(<<57>>, 1), Run(<<95>>, 1), Run(<<115>>, 1), Run(<<97>>, 1), Run(<<110>>, 1), Run(<<95>>, 1), Run(<<100>>, 1), Run(<<110>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1)>>  \* 'x509_san_dns:v.example'
Who2 == <<Run(<<111>>, 1), Run(<<114>>, 1), Run(<<105>>, 1), Run(<<103>>, 1), Run(<<105>>, 1), Run(<<110>>, 1), Run(<<58>>, 1), Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1)>>  \* 'origin:https://v.example'
Sp1 == <<Run(<<32>>, 1), Run(<<97>>, 1)>>  \* ' a'
Sp2 == <<Run(<<97>>, 1), Run(<<32>>, 1)>>  \* 'a '
Nl == <<Run(<<97>>, 1), Run(<<10>>, 1)>>  \* 'a\n'
Up == <<Run(<<65>>, 1)>>  \* 'A'
Num == <<Run(<<48>>, 1), Run(<<48>>, 1), Run(<<48>>, 1), Run(<<49>>, 1)>>  \* '0001'
B64 == <<Run(<<89>>, 1), Run(<<81>>, 1), Run(<<61>>, 1), Run(<<61>>, 1)>>  \* 'YQ=='
Null4 == <<Run(<<110>>, 1), Run(<<117>>, 1), Run(<<108>>, 1), Run(<<108>>, 1)>>  \* 'null'
Comb == <<Run(<<101>>, 1), Run(<<204>>, 1), Run(<<129>>, 1)>>  \* 'e\u0301'
Bare == <<Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1)>>  \* 'v.example'
Cased == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<86>>, 1), Run(<<46>>, 1), Run(<<69>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<47>>, 1), Run(<<82>>, 1)>>  \* 'https://V.Example/R'
Pct == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<47>>, 1), Run(<<97>>, 1), Run(<<37>>, 1), Run(<<50>>, 1), Run(<<70>>, 1), Run(<<98>>, 1), Run(<<43>>, 1), Run(<<99>>, 1)>>  \* 'https://v.example/a%2Fb+c'
Port == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<118>>, 1), Run(<<46>>, 1), Run(<<101>>, 1), Run(<<120>>, 1), Run(<<97>>, 1), Run(<<109>>, 1), Run(<<112>>, 1), Run(<<108>>, 1), Run(<<101>>, 1), Run(<<58>>, 1), Run(<<52>>, 1), Run(<<52>>, 1), Run(<<51>>, 1), Run(<<47>>, 1), Run(<<114>>, 1)>>  \* 'https://v.example:443/r'
Ip == <<Run(<<104>>, 1), Run(<<116>>, 1), Run(<<116>>, 1), Run(<<112>>, 1), Run(<<115>>, 1), Run(<<58>>, 1), Run(<<47>>, 1), Run(<<47>>, 1), Run(<<91>>, 1), Run(<<58>>, 1), Run(<<58>>, 1), Run(<<49>>, 1), Run(<<93>>, 1), Run(<<58>>, 1), Run(<<56>>, 1), Run(<<52>>, 1), Run(<<52>>, 1), Run(<<51>>, 1)>>  \* 'https://[::1]:8443'
File == <<Run(<<97>>, 1), Run(<<110>>, 1), Run(<<100>>, 1), Run(<<114>>, 1), Run(<<111>>, 1), Run(<<105>>, 1), Run(<<100>>, 1), Run(<<58>>, 1), Run(<<97>>, 1), Run(<<112>>, 1), Run(<<107>>, 1), Run(<<45>>, 1), Run(<<107>>, 1), Run(<<101>>, 1), Run(<<121>>, 1), Run(<<45>>, 1), Run(<<104>>, 1), Run(<<97>>, 1), Run(<<115>>, 1), Run(<<104>>, 1), Run(<<58>>, 1), Run(<<89>>, 1), Run(<<81>>, 1), Run(<<45>>, 1), Run(<<95>>, 1)>>  \* 'android:apk-key-hash:YQ-_'
Telling == {Null4, Comb, Bare, Cased, Pct, Port, Ip, File, Url1, Url2, Url3, Url4, Who1, Who2, Sp1, Sp2, Nl, Up, Num, B64}
Lengths == {<<>>, A(1), Z(1), A(2), A(22), A(23), A(24), A(25), A(254), A(255), A(256), A(257), A(70000), E(1), E(11), E(12), E(127), E(128),
          Emoji(1), Emoji(6), Emoji(64), Nul, Quote, A(1) \o Nul, A(1) \o Z(1), Z(1) \o A(1), A(23) \o E(1), E(1) \o A(1)}
Few == {<<>>, A(1), Z(1), A(24), A(256), E(12), A(1) \o Nul, Url2, Sp2, Url3}
Texts == IF Wide THEN Lengths \cup Telling ELSE Few
Bytes(b, n) == [some |-> TRUE, b |-> <<Run(<<b>>, n)>>]
None == [some |-> FALSE, b |-> <<>>]
Thumbs == {None, Bytes(0, 32), Bytes(255, 32), Bytes(97, 32), [some |-> TRUE, b |-> <<Run(<<1>>, 31), Run(<<2>>, 1)>>],
           [some |-> TRUE, b |-> <<Run(<<2>>, 1), Run(<<1>>, 31)>>], [some |-> TRUE, b |-> <<>>], Bytes(246, 1), Bytes(9, 24), Bytes(9, 23)}

Dom == [kind |-> {"redirect", "dcapi"}, who |-> Texts, nonce |-> Texts, thumb |-> Thumbs, uri |-> Texts]
Fields == <<"kind", "who", "nonce", "thumb", "uri">>
Base == [kind |-> "redirect", who |-> A(24), nonce |-> Z(1), thumb |-> Bytes(0, 32), uri |-> E(12)]
Bases == {Base, [Base EXCEPT !.who = Who1, !.uri = Url1], [Base EXCEPT !.kind = "dcapi", !.who = Url4], [Base EXCEPT !.thumb = None], [Base EXCEPT !.kind = "dcapi"]}
Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ info = <<>> /\ hdr = <<>>
Environment == pc = "vary" /\ Change(c, c', dv, dv', Dom, Fields, K) /\ UNCHANGED <<pc, info, hdr>>
Ask == pc = "vary" /\ (c.kind = "dcapi" => c.uri = Base.uri) /\ pc' = "info" /\ dv' = Fresh /\ UNCHANGED <<c, info, hdr>>

--------------------------------------------------------------------------------
\* CBOR (RFC 8949), deterministic: a head of major type and length, shortest form.
RECURSIVE Size(_)
Size(rs) == IF rs = <<>> THEN 0 ELSE Len(Head(rs).u) * Head(rs).n + Size(Tail(rs))
Byte(b) == <<Run(<<b>>, 1)>>
CHead(major, n) ==
  CASE n < 24 -> Byte(32 * major + n)
    [] n < 256 -> Byte(32 * major + 24) \o Byte(n)
    [] n < 65536 -> Byte(32 * major + 25) \o Byte(n \div 256) \o Byte(n % 256)
    [] OTHER -> Byte(32 * major + 26) \o Byte(n \div 16777216) \o Byte((n \div 65536) % 256) \o Byte((n \div 256) % 256) \o Byte(n % 256)
CText(rs) == CHead(3, Size(rs)) \o rs
CBytes(rs) == CHead(2, Size(rs)) \o rs
CNull == Byte(246)
CArray(n) == CHead(4, n)
Thumb(t) == IF t.some THEN CBytes(t.b) ELSE CNull
InfoOf(x) == IF x.kind = "redirect" THEN CArray(4) \o CText(x.who) \o CText(x.nonce) \o Thumb(x.thumb) \o CText(x.uri)
             ELSE CArray(3) \o CText(x.who) \o CText(x.nonce) \o Thumb(x.thumb)
\* "OpenID4VPHandover" and "OpenID4VPDCAPIHandover" in ASCII.
Name(kind) == LET O == <<79, 112, 101, 110, 73, 68, 52, 86, 80>>
                  H == <<72, 97, 110, 100, 111, 118, 101, 114>>
              IN IF kind = "redirect" THEN <<Run(O \o H, 1)>> ELSE <<Run(O \o <<68, 67, 65, 80, 73>> \o H, 1)>>
Info == pc = "info" /\ info' = InfoOf(c) /\ pc' = "head" /\ UNCHANGED <<c, dv, hdr>>
\* The handover: the array of its name and the hash (32 bytes, appended by the harness) of the info.
Header == pc = "head" /\ hdr' = CArray(2) \o CText(Name(c.kind)) \o CHead(2, 32) /\ pc' = "done" /\ UNCHANGED <<c, dv, info>>
Next == Environment \/ Ask \/ Info \/ Header
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
RECURSIVE Flat(_), Rep(_, _)
Rep(u, n) == IF n = 0 THEN <<>> ELSE u \o Rep(u, n - 1)
Flat(rs) == IF rs = <<>> THEN <<>> ELSE Rep(Head(rs).u, Head(rs).n) \o Flat(Tail(rs))
\* Two presentations are bound to the same bytes only if they are for the same parameters: the info determines them.
Small == {[kind |-> "redirect", who |-> w, nonce |-> n, thumb |-> t, uri |-> u] :
            w, n, u \in {<<>>, A(1), A(2), Z(1), A(23)}, t \in {None, Bytes(0, 32), Bytes(246, 1), [some |-> TRUE, b |-> <<>>]}}
         \cup {[kind |-> "dcapi", who |-> w, nonce |-> n, thumb |-> t, uri |-> <<>>] :
            w, n \in {<<>>, A(1), A(2), Z(1), A(23)}, t \in {None, Bytes(0, 32), Bytes(246, 1), [some |-> TRUE, b |-> <<>>]}}
ASSUME Cardinality({Flat(InfoOf(x)) : x \in Small}) = Cardinality(Small)
\* Lengths are told truly, so the info ends where it should.
WellFormed == pc = "done" => Size(info) =
   1 + Size(CText(c.who)) + Size(CText(c.nonce)) + Size(Thumb(c.thumb)) + (IF c.kind = "redirect" THEN Size(CText(c.uri)) ELSE 0)
NeverTheOther == pc = "done" => (Flat(hdr)[2] = 96 + (IF c.kind = "redirect" THEN 17 ELSE 22))

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, info |-> info, hdr |-> hdr])>>)
================================================================================
