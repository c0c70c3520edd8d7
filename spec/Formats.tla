------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* Credential format identifiers and claim formats                         *)
(* (src/core/credential_format): a name is read as the format the          *)
(* specification gives it or kept as it is, two names are the same format  *)
(* only if they are the same name, and every claim format is known by its  *)
(* own name.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
VARIABLES what, x, y, via, claim
vars == <<what, x, y, via, claim>>
Standard == {"jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt"}
Others == {"jwt_vp_json", "ldp_vp", "vc+sd-jwt", "dc sd-jwt", "DC+SD-JWT", "mso_mdoc ", " ldp_vc", "jwt_vc_json-ld", "jwt_vc", "Ldp_vc", "mdoc",
           "JwtVcJson", "MsoMDoc", "other", "Other", "x_custom", "", "unicode",
           "sd-jwt", "dc+sd_jwt", "dc%2Bsd-jwt", "dc+sd-jwt+kb", "dc-sd-jwt", "mso-mdoc", "mso_mdoc_zk", "mdl", "org.iso.18013.5.1.mDL", "ldp-vc", "LDP_VC",
           "jwt-vc-json", "jwt_vc_json+ld", "JWT_VC_JSON", "\"ldp_vc\"", "ldp_vc,mso_mdoc", "null", "0", "@long", "@nul", "@newline", "@fullwidth"}
Names == Standard \cup Others
\* Ways of reading a name: from text, from JSON that is borrowed, owned, escaped or read from a stream, as a key, in a query.
Vias == {"str", "string", "from_str", "borrowed", "owned", "json", "text", "escaped", "reader", "key", "keys", "metadata", "query", "querytext", "builder"}
Format(n) == IF n \in Standard THEN n ELSE "other:" \o n
\* A claim format: its name and what it says.
Claims == ({"jwt_vc_json"} \X {"algs", "noalgs", "algsextra"}) \cup ({"ldp_vc"} \X {"proofs", "noproofs"})
          \* A format the specification does not name is known by its first member, whatever follows it.
          \cup ({"x_custom", "jwt_vp_json", "ldp_vp", "", "@long"} \X {"more", "evenmore"})
          \cup (({"mso_mdoc", "dc+sd-jwt"} \cup (Others \ {"@nul"})) \X {"empty", "algs", "scalar", "list", "nothing"})
Init == \/ what = "name" /\ x \in Names /\ y \in Names /\ via \in Vias /\ claim = <<"-", "-">>
        \/ what = "claim" /\ x = "-" /\ y = "-" /\ via \in {"json", "text", "reader"} /\ claim \in Claims
Spec == Init /\ [][FALSE]_vars
Injective == Format(x) = Format(y) <=> x = y
Emit == PrintT(<<"VEC", ToJson([what |-> what, x |-> x, y |-> y, via |-> via, same |-> Format(x) = Format(y), standard |-> x \in Standard,
                               claim |-> claim[1], says |-> claim[2], cstandard |-> claim[1] \in Standard])>>)
================================================================================
