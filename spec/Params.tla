-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Typed parameters in an untyped object (src/core/object and the          *)
(* parameters modules).  An object holds at most one value per parameter;  *)
(* the environment writes any JSON under the parameter's name, and the     *)
(* library reads, inserts and removes it in any order.  Other members are  *)
(* never touched.  Param is the parameter looked at.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT MaxOps
VARIABLES p, start, val, hist, pc
vars == <<p, start, val, hist, pc>>

\* The parameters: what kind of value each takes, and what it means when absent.
P(type, default) == [type |-> type, default |-> default]
Params == [
  issuer |-> P("text", "-"), authorization_endpoint |-> P("url", "-"),
  response_types_supported |-> P("texts", "-"),
  client_id_prefixes_supported |-> P("texts", "l:prereg"),
  request_object_signing_alg_values_supported |-> P("texts", "l:empty"),
  vp_formats_supported |-> P("formats", "o:empty"),
  client_vp_formats_supported |-> P("formats", "-"),
  authorization_encryption_alg_values_supported |-> P("texts", "-"),
  authorization_encryption_enc_values_supported |-> P("texts", "-"),
  jwks |-> P("jwks", "-"),
  encrypted_response_enc_values_supported |-> P("texts", "l:a128gcm"),
  client_id |-> P("text", "-"), client_metadata |-> P("object", "-"), nonce |-> P("text", "-"), aud |-> P("text", "-"),
  redirect_uri |-> P("url", "-"), response_uri |-> P("url", "-"),
  response_mode |-> P("text", "t:direct_post"), response_type |-> P("text", "-"), state |-> P("text", "-"),
  expected_origins |-> P("texts1", "-"), transaction_data |-> P("texts1", "-"), verifier_info |-> P("list1", "-"),
  request_uri_method |-> P("method", "t:get"), id_token |-> P("text", "-"), vp_token |-> P("token", "o:empty"),
  dcql_query |-> P("dcql", "-"),
  own |-> P("own", "-")   \* a parameter the user of the library defines: any JSON but true; true cannot be written either
]
Texts == {"t:empty", "t:plain", "t:unicode", "t:escapes", "t:url", "t:urlquery", "t:scheme", "t:get", "t:post", "t:GET",
          "t:direct_post", "t:direct_post.jwt", "t:dc_api", "t:dc_api.jwt", "t:DIRECT_POST", "t:vp_token",
          "t:vp_token id_token", "t:id_token", "t:jwt", "t:json", "t:jsonlist",
          "t:padded", "t:long", "t:vp_token  id_token", "t:Direct_Post", "t:direct_post.", "t:null", "t:0"}
Urls == {"t:url", "t:urlquery", "t:scheme"}
TextLists == {"l:one", "l:two", "l:twice", "l:prereg", "l:a128gcm", "l:mixedtexts", "l:long", "l:padded", "l:cases"}
OtherLists == {"l:numbers", "l:textnumber", "l:numbertext", "l:null", "l:lists"}
ObjectLists == {"l:objects"}
Payloads == {"o:alg", "o:noalg", "o:proof", "o:algproof", "o:algextra", "o:algtext", "o:mdoc", "o:sdjwt", "o:unknown", "o:several"}
Scalars == {"null", "true", "0", "1.5"}
Sets == {"o:keysempty", "o:keys", "o:keysnone", "o:keystwo"}
BadSets == {"o:keysobject", "o:keystext", "o:keysnumbers", "o:keysnull"}
Tokens == {"o:tok", "o:tokobj", "o:tokmany", "o:toknone"}
BadTokens == {"o:toktext", "o:toknumber", "o:toknested", "o:toknull", "o:tokbool"}
Queries == {"o:dcql"}
BadQueries == {"o:dcqlnone", "o:dcqlbad"}
Objects == Payloads \cup Sets \cup BadSets \cup Tokens \cup BadTokens \cup Queries \cup BadQueries
Lists == TextLists \cup OtherLists \cup ObjectLists

Proper(t) ==
  CASE t = "text" -> Texts
    [] t = "url" -> Urls
    [] t = "texts" -> TextLists \cup {"l:empty"}
    [] t = "texts1" -> TextLists
    [] t = "list1" -> Lists
    [] t = "formats" -> Payloads \cup {"o:empty"}
    [] t = "jwks" -> Sets
    [] t = "object" -> Objects \cup {"o:empty", "o:deep"}
    [] t = "method" -> {"t:get", "t:post"}
    [] t = "token" -> Tokens \cup {"o:empty"}
    [] t = "dcql" -> Queries
    [] t = "own" -> (Scalars \ {"true"}) \cup Texts \cup Lists \cup {"l:empty", "o:empty", "o:deep"}
\* Ill-typed values.  What neither set contains is left open (an empty list where the standard asks for a non-empty one, say).
Improper(t) ==
  CASE t = "text" -> Scalars \cup Lists \cup Objects \cup {"l:empty", "o:empty"}
    [] t = "url" -> Scalars \cup Lists \cup Objects \cup {"l:empty", "o:empty", "t:plain", "t:empty", "t:get", "t:padded", "t:long", "t:null"}
    [] t \in {"texts", "texts1"} -> Scalars \cup OtherLists \cup ObjectLists \cup Objects \cup Texts \cup {"o:empty"}
    [] t = "list1" -> Scalars \cup Objects \cup Texts \cup {"o:empty"}
    [] t = "formats" -> Scalars \cup OtherLists \cup TextLists \cup Texts
    [] t = "jwks" -> Scalars \cup OtherLists \cup TextLists \cup BadSets \cup Payloads \cup Tokens \cup Texts \cup {"o:empty"}
    [] t = "object" -> Scalars \cup Lists \cup Texts
    [] t = "method" -> Scalars \cup Lists \cup Objects \cup (Texts \ {"t:get", "t:post", "t:GET"})
    [] t = "token" -> Scalars \cup Lists \cup Texts \cup BadTokens
    [] t = "dcql" -> Scalars \cup Lists \cup Texts \cup BadQueries \cup Sets \cup {"o:empty"}
    [] t = "own" -> {"true"}
\* A few of the proper values, to insert.
Inserted(t) ==
  CASE t = "text" -> {"t:plain", "t:direct_post.jwt", "t:vp_token"}
    [] t = "url" -> {"t:url", "t:urlquery"}
    [] t \in {"texts", "texts1", "list1"} -> {"l:one", "l:two"}
    [] t = "formats" -> {"o:alg", "o:several"}
    [] t = "jwks" -> {"o:keys", "o:keysnone"}
    [] t = "object" -> {"o:alg", "o:keys"}
    [] t = "method" -> {"t:get", "t:post"}
    [] t = "token" -> {"o:tok", "o:tokmany"}
    [] t = "dcql" -> {"o:dcql"}
    [] t = "own" -> {"null", "0", "t:plain", "o:empty"}

\* What reading the value v of type t gives.
Read(t, v) == IF v = "-" THEN "none" ELSE IF v \in Proper(t) THEN v ELSE "err"
Init == /\ p \in DOMAIN Params
        /\ start \in {"-"} \cup Proper(Params[p].type) \cup Improper(Params[p].type)
        /\ val = start /\ hist = <<>> /\ pc = "ops"
Do(op, arg, result, next) ==
  /\ pc = "ops" /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, [op |-> op, arg |-> arg, result |-> result, after |-> next])
  /\ val' = next /\ UNCHANGED <<p, start, pc>>
T == Params[p].type
Get == Do("get", "-", Read(T, val), val)
GetOrDefault == Params[p].default # "-" /\
  Do("get_or_default", "-", IF val = "-" THEN Params[p].default ELSE Read(T, val), val)
Insert == \E v \in Inserted(T) : Do("insert", v, Read(T, val), v)
\* What cannot be written is not, and what was there stays.
Unwritable == T = "own" /\ Do("insert", "true", "err", val)
Remove == Do("remove", "-", Read(T, val), "-")
\* Written and read back as JSON, the object is unchanged.
Wire == Do("wire", "-", "ok", val)
Stop == pc = "ops" /\ Len(hist) = MaxOps /\ pc' = "done" /\ UNCHANGED <<p, start, val, hist>>
Next == Get \/ GetOrDefault \/ Insert \/ Unwritable \/ Remove \/ Wire \/ Stop
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Disjoint == \A q \in DOMAIN Params : LET t == Params[q].type IN Proper(t) \cap Improper(t) = {} /\ Inserted(t) \subseteq Proper(t)
DefaultProper == \A q \in DOMAIN Params : Params[q].default \in {"-"} \cup Proper(Params[q].type)
Prev(i) == IF i = 1 THEN start ELSE hist[i - 1].after
\* Reading gives what was last written, whoever wrote it, and the default only where nothing is.
ReadsLast == \A i \in DOMAIN hist : (hist[i].op \in {"get", "remove", "insert"} /\ hist[i].arg # "true") =>
               hist[i].result = (IF Prev(i) = "-" THEN "none" ELSE IF Prev(i) \in Proper(T) THEN Prev(i) ELSE "err")
ReadingChangesNothing == \A i \in DOMAIN hist : (hist[i].op \in {"get", "get_or_default", "wire"} \/ hist[i].arg = "true") => hist[i].after = Prev(i)
DefaultOnlyIfAbsent == \A i \in DOMAIN hist : (hist[i].op = "get_or_default" /\ Prev(i) # "-") => hist[i].result \in {Prev(i), "err"}
Emit == pc = "done" => PrintT(<<"VEC", ToJson([p |-> p, type |-> T, start |-> start, hist |-> hist])>>)
================================================================================
