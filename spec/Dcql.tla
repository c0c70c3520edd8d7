--------------------------------- MODULE Dcql ---------------------------------
(***************************************************************************)
(* DCQL queries (src/core/dcql_query.rs, src/utils.rs,                     *)
(* src/core/credential_format): what is read from a query's JSON, what is  *)
(* refused, and what the accessors answer.  The environment writes the     *)
(* JSON.  Values are tagged: [t |-> kind, v |-> text].                     *)
(***************************************************************************)
EXTENDS Vary, TLC, Json
CONSTANT K
VARIABLES c, dv, pc, res, said
vars == <<c, dv, pc, res, said>>

S(x) == [t |-> "s", v |-> x]
I(x) == [t |-> "i", v |-> x]
B(x) == [t |-> "b", v |-> x]
N == [t |-> "n", v |-> ""]
F == [t |-> "f", v |-> "1.5"]
L == [t |-> "l", v |-> ""]      \* []
O == [t |-> "o", v |-> ""]      \* {}
Absent == [t |-> "-", v |-> ""]
Big == "4294967296"             \* 2^32
List(l) == [k |-> "list", l |-> l]
NoList == [k |-> "-", l |-> <<>>]
NotList(k) == [k |-> k, l |-> <<>>]         \* k: what stands in the place of a list
Scalars(bad) == {NoList, NotList("string"), NotList("object"), NotList("number")} \cup bad

Paths == {List(<<>>), List(<<S("a")>>), List(<<S("org.iso.18013.5.1"), S("given_name")>>), List(<<S("a"), I("0"), S("b")>>),
          List(<<S("a"), N>>), List(<<N>>), List(<<I("7")>>), List(<<N, S("a")>>), List(<<I("1"), S("a"), N, I("2")>>),
          List(<<S("")>>), List(<<S(""), S("")>>), List(<<S("0"), I("0"), S("null"), N>>), List(<<S("a"), I(Big)>>),
          List(<<S("a"), S("b"), S("c"), S("d"), S("e")>>),
          List(<<S("a"), I("-1")>>), List(<<F>>), List(<<S("a"), B("true")>>), List(<<L>>), List(<<S("a"), O>>)}
         \cup Scalars({})
Values == {List(<<>>), List(<<S("x")>>), List(<<I("0")>>), List(<<I("-5"), B("false"), S("0")>>), List(<<B("true")>>),
           List(<<I(Big)>>), List(<<S(""), S("true"), S("1")>>), List(<<S("x"), S("x")>>),
           List(<<F>>), List(<<S("x"), N>>), List(<<L>>), List(<<O, S("x")>>)} \cup Scalars({})
Flag == {Absent, B("true"), B("false"), S("true"), I("1"), L}
Texts == {Absent, S("a"), S(""), S("x-y_9"), I("1"), L, B("true")}
\* Lists of lists of texts; "!" stands for an entry that is no text, "!!" for one that is no list.
Sets == {List(<<>>), List(<<<<"a">>>>), List(<<<<"a", "b">>, <<"c">>>>), List(<<<<>>>>), List(<<<<"a">>, <<>>, <<"a">>>>),
         List(<<<<"a">>, <<"b", "!">>>>), List(<<<<"!!">>, <<"a">>>>)} \cup Scalars({})
Auth(t, l) == [type |-> t, values |-> l]
Dom == [
  creds  |-> {"one", "twobefore", "twoafter", "-", "empty", "object", "string", "holdsnumber", "holdslist"},
  id     |-> Texts,
  format |-> {S("mso_mdoc"), S("jwt_vc_json"), S("ldp_vc"), S("dc+sd-jwt"), S("vc+sd-jwt"), S("MSO_MDOC"), S("jwt_vc"), S(""),
              S("other"), Absent, I("1"), L, O},
  meta   |-> {"-", "empty", "doctype", "deep", "list", "string"},
  claims |-> {"one", "twobefore", "twoafter", "-", "empty", "object", "string", "holdsnumber"},
  cid    |-> Texts,
  path   |-> Paths,
  values |-> Values,
  retain |-> Flag,
  csets  |-> Sets,
  auths  |-> {"-", "one", "two", "empty", "object", "holdsstring"},
  atype  |-> {S("aki"), S("etsi_tl"), S("openid_federation"), S("AKI"), S("other"), S(""), Absent, I("1"), L},
  avals  |-> {List(<<>>), List(<<"v">>), List(<<"v", "w", "v">>), List(<<"">>), List(<<"!">>)} \cup Scalars({}),
  bind   |-> Flag,
  multi  |-> Flag,
  sets   |-> {"-", "one", "two", "empty", "object", "holdsstring"},
  opts   |-> Sets,
  req    |-> Flag,
  extra  |-> {"-", "unknown", "like", "other"}   \* members a query does not have: unheard of, much like its own, another part's
]
\* Values that only need to be met among few other changes.
Ints == {"255", "256", "65535", "65536", "2147483648", "4294967295", "9007199254740993", "9223372036854775807"}
Odd == [f \in DOMAIN Dom |->
  CASE f \in {"creds", "claims", "auths", "sets"} -> {"many", "same"}
    [] f = "id" -> {S(" a "), S("A"), S("@long"), S("@unicode"), N, B("false"), O}
    [] f = "cid" -> {S(" a "), S("A"), S("@long"), S("@unicode"), B("false"), O}
    [] f = "format" -> {S("dc+sd-jwt "), S("mso_mdoc2"), S("@long"), S("jwt_vc_json-ld"), S("ldp_vp"), S("jwt_vp_json"), S("Ldp_vc"), S("@unicode"),
                        N, S("msomdoc"), S("mso-mdoc"), S("MsoMDoc"), S("dc_sd_jwt"), S("sd-jwt")}
    [] f = "meta" -> {"big"}
    [] f = "path" -> {List(<<S("a"), I(i)>>) : i \in Ints} \cup {List(<<S(" a ")>>), List(<<S("*"), S("a.b"), S("$")>>), List(<<S("@long"), S("@unicode")>>),
                      List([i \in 1..60 |-> IF i % 3 = 0 THEN N ELSE IF i % 3 = 1 THEN S("k") ELSE I("7")]), List(<<S("1"), S("-1"), S("null")>>),
                      List(<<N, N, S("a")>>), List(<<S("a"), S("")>>), List(<<I("0"), I("0")>>), List(<<S("a"), I("3"), N>>), List(<<S("a"), N, N, N, N>>),
                      List([i \in 1..40 |-> IF i < 3 THEN S("k") ELSE IF i % 2 = 0 THEN N ELSE I("1")])}
    [] f = "values" -> {List(<<I(i)>>) : i \in Ints \cup {"-1", "-2147483649", "-9223372036854775808", "1"}} \cup
                      {List(<<S(" x "), S("x")>>), List(<<S("@long"), S("@unicode")>>), List([i \in 1..60 |-> IF i % 2 = 0 THEN I("3") ELSE B("false")]),
                       List(<<B("true"), B("false"), B("true")>>), List(<<S("TRUE"), S("null")>>)}
    [] f \in {"retain", "bind", "multi", "req"} -> {I("0"), S("false"), O}
    [] f \in {"csets", "opts"} -> {List(<<<<"a", "a">>, <<"a", "a">>>>), List(<<<<" a ", "A", "@unicode">>, <<"@long">>>>), List([i \in 1..60 |-> <<"a", "b">>]),
                      List(<<[i \in 1..60 |-> "a"]>>), List(<<<<"">>>>), List(<<<<>>, <<>>>>)}
    [] f = "atype" -> {S("etsi"), S("federation"), S("Aki"), S("etsi_TL"), S("openid-federation"), S("aki "), S("etsiTl"), S("EtsiTl"), S("etsi-tl"), S("etsi_tls"), S("etsitl"), S("openid"), S("openIdFederation"), S("ETSI_TL"), S("akis"), S("Other"), S("@long"),
                       S("@unicode"), S("OpenidFederation"), S("openid_federation2"), N, O}
    [] f = "avals" -> {List(<<" v ", "V", "@unicode", "@long">>), List([i \in 1..60 |-> "v"]), List(<<"v", "!">>)}
    [] OTHER -> {}]
Fields == <<"creds", "id", "format", "meta", "claims", "cid", "path", "values", "retain", "csets", "auths", "atype", "avals",
            "bind", "multi", "sets", "opts", "req", "extra">>
Base == [creds |-> "one", id |-> S("a"), format |-> S("mso_mdoc"), meta |-> "doctype", claims |-> "one", cid |-> Absent,
         path |-> List(<<S("org.iso.18013.5.1"), S("given_name")>>), values |-> NoList, retain |-> Absent, csets |-> NoList,
         auths |-> "-", atype |-> S("aki"), avals |-> List(<<"v">>), bind |-> Absent, multi |-> Absent, sets |-> "-",
         opts |-> List(<<<<"a">>>>), req |-> Absent, extra |-> "-"]
Bases == {Base,
          [Base EXCEPT !.creds = "twoafter", !.format = S("dc+sd-jwt"), !.claims = "twobefore", !.cid = S("a"),
                       !.path = List(<<S("a"), I("0"), S("b")>>), !.values = List(<<I("-5"), B("false"), S("0")>>),
                       !.csets = List(<<<<"a", "b">>, <<"c">>>>), !.auths = "two", !.bind = B("false"), !.multi = B("true"),
                       !.sets = "two", !.opts = List(<<<<"a", "b">>, <<"c">>>>), !.req = B("false"), !.retain = B("true")]}
\* Fields of parts that are not there stay as they are.
Some3 == {"one", "twobefore", "twoafter", "many", "same"}
Sensible == /\ c.creds \in {"-", "empty", "object", "string"} =>
                 \A f \in {"id", "format", "meta", "claims", "csets", "auths", "bind", "multi"} : \E b \in Bases : c[f] = b[f]
            /\ c.claims \notin Some3 =>
                 \A f \in {"cid", "path", "values", "retain"} : \E b \in Bases : c[f] = b[f]
            /\ c.auths \notin {"one", "two", "many", "same"} => c.atype = Base.atype /\ c.avals = Base.avals
            /\ c.sets \notin {"one", "two", "many", "same"} => \A f \in {"opts", "req"} : \E b \in Bases : c[f] = b[f]

Init == c \in Bases /\ dv = Fresh /\ pc = "vary" /\ res = "-" /\ said = <<>>
Environment == pc = "vary" /\ ChangeOdd(c, c', dv, dv', Dom, Odd, Fields, K) /\ UNCHANGED <<pc, res, said>>
Ask == pc = "vary" /\ Sensible /\ pc' = "query" /\ dv' = Fresh /\ UNCHANGED <<c, res, said>>

----
\* What may stand where.
Text(x) == x.t = "s"
MayText(x) == x.t \in {"s", "-"}
MayFlag(x) == x.t \in {"b", "-"}
All(l, Ok(_)) == \A i \in DOMAIN l : Ok(l[i])
Full(x, Ok(_)) == x.k = "list" /\ x.l # <<>> /\ All(x.l, Ok)                \* a non-empty list of ...
PathOk(e) == e.t \in {"s", "n"} \/ (e.t = "i" /\ e.v # "-1")
ValueOk(e) == e.t \in {"s", "i", "b"}
NotBang(e) == e # "!"
SetOk(e) == e # <<"!!">> /\ All(e, NotBang)

Claim == MayText(c.cid) /\ Full(c.path, PathOk) /\ (c.values.k = "-" \/ Full(c.values, ValueOk)) /\ MayFlag(c.retain)
Claims == c.claims = "-" \/ (c.claims \in Some3 /\ Claim)
Auths == c.auths = "-" \/ (c.auths \in {"one", "two", "many", "same"} /\ Text(c.atype) /\ Full(c.avals, NotBang))
Cred == /\ Text(c.id) /\ Text(c.format) /\ c.meta \notin {"list", "string"} /\ Claims
        /\ (c.csets.k = "-" \/ Full(c.csets, SetOk)) /\ Auths /\ MayFlag(c.bind) /\ MayFlag(c.multi)
Set == c.sets = "-" \/ (c.sets \in {"one", "two", "many", "same"} /\ Full(c.opts, SetOk) /\ MayFlag(c.req))

Step(l, bad, next) == pc = l /\ UNCHANGED <<c, dv, said>> /\
                      IF bad THEN res' = "err" /\ pc' = "done" ELSE pc' = next /\ UNCHANGED res
Check == \/ Step("query", c.creds \notin Some3, "cred")
         \/ Step("cred", ~Cred, "sets")
         \/ Step("sets", ~Set, "said")

At(s, i) == IF i <= Len(s) /\ s[i].t = "s" THEN <<s[i].v>> ELSE <<>>
RECURSIVE LastText(_)
LastText(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)].t = "s" THEN <<s[Len(s)].v>> ELSE LastText(SubSeq(s, 1, Len(s) - 1))
Flagged(x, default) == IF x.t = "-" THEN default ELSE x.v = "true"
Answers == pc = "said" /\ pc' = "done" /\ res' = "ok" /\ UNCHANGED <<c, dv>>
  /\ said' = <<[ns |-> At(c.path.l, 1), el |-> At(c.path.l, 2), name |-> LastText(c.path.l),
                bind |-> Flagged(c.bind, TRUE), multi |-> Flagged(c.multi, FALSE), req |-> Flagged(c.req, TRUE)]>>
Next == Environment \/ Ask \/ Check \/ Answers
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
\* Nothing empty where the query language wants at least one.
NeverEmpty == res = "ok" =>
  /\ c.creds # "empty" /\ c.claims # "empty" /\ c.auths # "empty" /\ c.sets # "empty"
  /\ c.csets # List(<<>>) /\ (c.claims # "-" => c.path # List(<<>>) /\ c.values # List(<<>>))
  /\ (c.auths # "-" => c.avals # List(<<>>)) /\ (c.sets # "-" => c.opts # List(<<>>))
Defaults == res = "ok" => /\ (c.bind = Absent => said[1].bind) /\ (c.multi = Absent => ~said[1].multi)
                          /\ (c.req = Absent => said[1].req)
\* The element identifier is never taken from anywhere but the second place.
MdocReading == res = "ok" /\ c.claims # "-" => (said[1].el # <<>> => Len(c.path.l) >= 2 /\ c.path.l[2] = S(said[1].el[1]))

Emit == pc = "done" => PrintT(<<"VEC", ToJson([c |-> c, ok |-> res = "ok", said |-> said])>>)
================================================================================
