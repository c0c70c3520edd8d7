"""What each property's check consists of."""
import json
import os
import re

from vp import ToolError, tlc

# --------------------------------------------------------------------------- sessions
SESSION_CFG = """SPECIFICATION Spec
CONSTANTS
 Sids <- Two
 Procs <- %(procs)s
 Start <- %(start)s
 Menu <- %(menu)s
 MaxOps = %(ops)d
 MaxFaults = %(faults)d
 MaxCancels = %(cancels)d
 Overlap = %(overlap)s
 Monotone = %(mono)s
 Record = %(record)s
%(props)s
CHECK_DEADLOCK FALSE
"""


def session_cfg(procs, start, menu, ops, faults, cancels, overlap=True, mono=True, record=True, props=""):
    return SESSION_CFG % dict(procs=procs, start=start, menu=menu, ops=ops, faults=faults, cancels=cancels,
                              overlap=str(overlap).upper(), mono=str(mono).upper(), record=str(record).upper(),
                              props=props or "INVARIANT Emit")


SESSION_FORMULAS = {
    "P01": (["PollAgrees", "NoPanic"],
            ["NeverBackwards", "RetrieveMarksSent", "OnlyVerificationCompletes", "PollTrue", "StartsByDelivery"]),
    "P02": (["ValidatorSeesTruth", "NoPanic"],
            ["CompletesWith", "NoValidationOfMissing", "VerifyOkMeansRecorded", "VerifyErrMeansWhy"]),
    "P03": (["ContentOwn", "NoPanic"],
            ["Isolated", "AppearsByBuild", "VanishesByRemove", "ContentFixed", "RetrieveOwn", "MissingFails",
             "PresentSucceeds", "FaultsReported"]),
}


def forest(traces):
    """A prefix forest of event sequences; returns (nodes, leaf -> indices of traces)."""
    nodes, index, leaves = [], {}, {}
    for ti, tr in enumerate(traces):
        cur = None
        for ev in tr:
            key = (cur, json.dumps(ev, sort_keys=True))
            if key not in index:
                nodes.append({"ev": ev, "kids": [], "root": cur is None})
                index[key] = len(nodes)
                if cur is not None:
                    nodes[cur - 1]["kids"].append(len(nodes))
            cur = index[key]
        leaves.setdefault(cur, []).append(ti)
    return nodes, leaves


def check_session_traces(c, vectors, traces, label):
    nodes, leaves = forest(traces)
    path = os.path.join(c.run, "forest-%s.ndjson" % label)
    with open(path, "w") as f:
        for n in nodes:
            f.write(json.dumps(n) + "\n")
    invs, acts = SESSION_FORMULAS[c.pid]
    cfg = "SPECIFICATION Spec\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n" % (" ".join(invs), " ".join(acts))
    r = tlc(c.run, "SessionTrace", cfg, extra_env={"TRACE_FILE": path})
    c.count(r, "SessionTrace(%s)" % label, "inline\n")
    if r.violated:
        m = re.findall(r"node = (\d+)", r.last)
        at = int(m[-1]) if m else 0
        # Find a recording that passes through the offending node.
        hit = None
        for ti, tr in enumerate(traces):
            cur, i = None, 0
            seen = []
            hit_here = False
            n, ls = None, None
            cur = next((k + 1 for k, x in enumerate(nodes) if x["root"] and x["ev"] == tr[0]), None)
            while cur:
                seen.append(cur)
                if cur == at:
                    hit_here = True
                    break
                i += 1
                cur = next((k for k in nodes[cur - 1]["kids"] if i < len(tr) and nodes[k - 1]["ev"] == tr[i]), None)
            if hit_here:
                hit = ti
                break
        c.violation({"mode": "session", "violated": r.violated, "schedule": vectors[hit] if hit is not None else None,
                     "events": traces[hit] if hit is not None else None, "tlc": r.last[:6000]})
    return r


def linear(c):
    """Histories of real threads on the in-memory store, each to be explained by Linear's moments."""
    res = c.harness("linear", [{}], args=["--rounds", "6000" if c.quick else "60000"])
    hs = res["histories"]
    c.cov["concurrent_histories"] = len(hs)
    for i in range(0, len(hs), 20000):
        part = hs[i:i + 20000]
        path = os.path.join(c.run, "linear-%d.ndjson" % i)
        with open(path, "w") as f:
            for h in part:
                f.write(json.dumps(h) + "\n")
        r = c.model("Linear", "SPECIFICATION Spec\nINVARIANTS CompleteMeansVerified Accepted\nPROPERTY Forward\nCHECK_DEADLOCK FALSE\n",
                    extra_env={"TRACE_FILE": path})
        explained = {v["h"] for v in r.vectors}
        for n, h in enumerate(part, 1):
            if n not in explained:
                c.violation({"mode": "linear", "bad": "no order of the operations' effects explains what they returned", "history": h})


def sessions(c):
    c.assumptions += [
        "store calls are atomic (each runs under the store's lock) and are the only points where operations on a session interleave",
        "2 sessions; operations, faults and cancellations bounded as listed per model",
    ]
    design = "PROPERTIES Refines NeverBackwards OutcomeIsValidators Isolated AppearsByBuild"
    c.model("MCSessionImpl", session_cfg("P2" if c.quick else "P3", "StartAll", "MenuAll", 2 if c.quick else 3, 1, 1,
                                         record=False, props=design))
    gens = [  # overlapping operations, on the in-memory store
        ("memory", session_cfg("P2", "StartAll", "MenuAll", 2, 1, 1)),
        # long sequential histories, on a store that overwrites unconditionally
        ("plain", session_cfg("P3", "StartAll", "MenuSeq", 3, 0, 0, overlap=False, mono=False)),
    ]
    if c.quick:
        gens.append(("memory", session_cfg("P3", "StartOne", "MenuPair", 3, 0, 0)))
    else:
        gens.append(("memory", session_cfg("P3", "StartOne", "MenuTwo", 3, 1, 0)))
        gens.append(("plain", session_cfg("P4", "StartOne", "MenuSeq", 4, 1, 1, overlap=False, mono=False)))
        gens.append(("memory", session_cfg("P4", "StartAll", "MenuSeq", 4, 0, 0, overlap=False)))
    vectors = []
    for store, cfg in gens:
        r = c.model("MCSessionImpl", cfg, workers=8)
        for v in r.vectors:
            v["store"] = store
        vectors += r.vectors
    sim = 250 if c.quick else 20000
    r = c.model("MCSessionImpl", session_cfg("P4", "StartAll", "MenuAll", 4, 1, 1), simulate=sim, depth=40, seed=c.seed)
    for v in r.vectors:
        v["store"] = "memory"
    vectors += r.vectors
    seen, uniq = set(), []
    for v in vectors:
        k = json.dumps(v, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    res = c.harness("session", uniq, traces=True, at_least=1000)
    chunk = 40000
    for i in range(0, len(uniq), chunk):
        check_session_traces(c, uniq[i:i + chunk], res["traces"][i:i + chunk], "c%d" % (i // chunk))
        if c.violations:
            break
    # Whole lives, with everything that can be in them.
    r = c.model("Life", "SPECIFICATION Spec\nCONSTANT K = %d\nINVARIANTS LastVerdict OneValidationEach Emit\nPROPERTIES NeverBackwards BystanderStays\n"
                "CHECK_DEADLOCK FALSE\n" % (2 if c.quick else 3))
    c.harness("life-" + c.pid, r.vectors, at_least=3000)
    # Real threads.
    res = c.harness("stress", [{}], args=["--rounds", "15" if c.quick else "400"])
    for b in res["bad"]:
        kind = b["error"].split(":")[0]
        mine = {"P01": ("moved back", "poll"), "P02": ("verify", "foreign outcome", "final"),
                "P03": ("retrieve", "poll", "verify", "foreign outcome")}[c.pid]
        if b["error"].startswith(mine) or b["error"].startswith("panic"):
            c.violation({"mode": "stress", **b})
    c.cov["concurrent_calls"] = res["calls"]
    if not c.violations:
        linear(c)



# --------------------------------------------------------------------------- one-shot modules
RANDOM = 200000  # behaviours drawn beyond the enumerated bound, thorough tier


def oneshot(module, mode, invs, k=(2, 2), at_least=1000, consts="", filt=None):
    """A module whose terminal states are vectors: model-check its formulas, replay every vector (up to k[0] changes,
    thorough k[1]), and in the thorough tier random behaviours with up to 2 and 5 more changes."""
    cfg = "SPECIFICATION Spec\nCONSTANT K = %d\n" + consts + "\nINVARIANTS " + " ".join(invs) + " Emit\nCHECK_DEADLOCK FALSE\n"

    def check(c, at=None, filt=filt):
        kk = at or (k[0] if c.quick else k[1])
        r = c.model(module, cfg % kk)
        vs = [v for v in r.vectors if filt is None or filt(v)]
        c.cov["bound_K"] = kk
        c.harness(mode, vs, at_least=at_least if at is None else 100)
        for more in (2, 5) if at is None else ():
            c.deeper(mode, module, cfg % (kk + more), RANDOM, filt)

    return check


def both(*checks):
    def check(c):
        for f in checks:
            f(c)
    return check


def form_decode(c):
    inv = "INVARIANTS NeverInvented StateKept Ambiguous Emit\nCHECK_DEADLOCK FALSE\n"
    vs = []
    sizes = [(1, "all", "all"), (2, "all", "some"), (3, "few", "few")]
    if not c.quick:
        sizes += [(2, "some", "all")]
    for size in sizes:
        r = c.model("FormDecode", "SPECIFICATION Spec\nCONSTANTS MaxPairs = %d\n NameSet = \"%s\"\n ValueSet = \"%s\"\n%s" % (size + (inv,)))
        vs += r.vectors
    c.harness("form-decode", vs, at_least=10000)
    for n in (3, 5):
        c.deeper("form-decode", "FormDecode", "SPECIFICATION Spec\nCONSTANTS MaxPairs = %d\n NameSet = \"all\"\n ValueSet = \"all\"\n%s" % (n, inv), RANDOM)


def enckey(c):
    inv = "INVARIANTS ForEncryption NeverSigning EncryptsIfPossible Emit\nCHECK_DEADLOCK FALSE\n"
    vs = []
    # Many keys with the rest as usual; few keys with everything else varied.
    for keys, k in [(3, 1), (2, 2), (1, 3)] if c.quick else [(3, 1), (2, 3), (1, 4)]:
        r = c.model("EncKey", "SPECIFICATION Spec\nCONSTANTS MaxKeys = %d\n K = %d\n%s" % (keys, k, inv))
        vs += r.vectors
    c.harness("enckey", vs, at_least=5000)
    for keys in (3, 5):
        c.deeper("enckey", "EncKey", "SPECIFICATION Spec\nCONSTANTS MaxKeys = %d\n K = 4\n%s" % (keys, inv), RANDOM)
    if not c.jwe:
        c.assumptions.append("src/core/jwe.rs could not be compiled against the stand-in for josekit: only the choice of the key named was checked")
        return
    cfg = "SPECIFICATION Spec\nCONSTANT MaxCalls = %d\nINVARIANTS NothingMissing Emit\nCHECK_DEADLOCK FALSE\n"
    r = c.model("JweBuild", cfg % 4)
    c.harness("jwebuild", r.vectors, at_least=5000)
    c.deeper("jwebuild", "JweBuild", cfg % 8, 40000)


def params(c):
    inv = "INVARIANTS Disjoint DefaultProper ReadsLast ReadingChangesNothing DefaultOnlyIfAbsent Emit\nCHECK_DEADLOCK FALSE\n"
    r = c.model("Params", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\n%s" % (2, inv))
    c.harness("params", r.vectors, at_least=10000)
    for n in (4, 8):
        c.deeper("params", "Params", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\n%s" % (n, inv), 20000)
    inv = "INVARIANTS KeepsAlgs KeepsPrefixes NothingInvented DefaultKept BadStays Emit\nCHECK_DEADLOCK FALSE\n"
    r = c.model("Metadata", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\n%s" % (2, inv))
    c.harness("metadata", r.vectors, at_least=10000)
    for n in (4, 8):
        c.deeper("metadata", "Metadata", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\n%s" % (n, inv), 20000)


def protocol(c):
    base = "SPECIFICATION Spec\nCONSTANTS MaxSteps = 20\n Configs <- %s\n%s\nCHECK_DEADLOCK FALSE\n"
    c.model("Protocol", base % ("AllConfigs", "VIEW Whole\nINVARIANTS Agreement ForVOnlyToV SuccessMeansPresented\n"
                                "PROPERTIES StaysComplete HonestSucceeds"))
    r = c.model("Protocol", base % ("FewConfigs" if c.quick else "AllConfigs", "VIEW Reach\nACTION_CONSTRAINT EmitStep"), workers=1)
    c.harness("protocol", r.vectors, at_least=10000)
    # The steps of the protocol one by one, each with what an adversary could hand to it.
    any_root = lambda v: v["c"]["roots"] == "all"
    for name, near in [("P07", 3), ("P08", 2), ("P09", 2), ("P14", 2)]:
        PROPS[name](c, near)
    for name in ("P10", "P11"):
        PROPS[name](c, 2, any_root)


def dcql(c):
    oneshot("Dcql", "dcql", ["NeverEmpty", "Defaults", "MdocReading"], k=(2, 3), at_least=5000)(c)
    r = c.model("NonEmpty", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n MaxOps = %d\nINVARIANTS NeverEmpty OnlyGrows Emit\n"
                "CHECK_DEADLOCK FALSE\n" % ((3, 3) if c.quick else (4, 4)))
    c.harness("nonempty", r.vectors, at_least=1000)


def status(c):
    r = c.model("StatusWire", "SPECIFICATION Spec\nINVARIANTS Transitive Total CompleteLast SuccessLast Emit\nCHECK_DEADLOCK FALSE\n")
    c.harness("status", r.vectors, at_least=1000)


def setup(c):
    r = c.model("Setup", "SPECIFICATION Spec\nCONSTANT MaxCalls = %d\nINVARIANTS LatestCounts Emit\nPROPERTIES RequestsApart CopiesStay\n"
                "CHECK_DEADLOCK FALSE\n" % 4)
    c.harness("setup", r.vectors, at_least=5000)
    for n in (6, 10):
        c.deeper("setup", "Setup", "SPECIFICATION Spec\nCONSTANT MaxCalls = %d\nINVARIANTS LatestCounts Emit\nCHECK_DEADLOCK FALSE\n" % n, 40000)


def vp_token(c):
    r = c.model("VpToken", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS HoldsLastPut Emit\nPROPERTY WiringChangesNothing\n"
                "CHECK_DEADLOCK FALSE\n" % 2)
    c.harness("vp-token", r.vectors, at_least=5000)
    for n in (4, 8):
        c.deeper("vp-token", "VpToken", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS HoldsLastPut Emit\nCHECK_DEADLOCK FALSE\n" % n, 20000)


def formats(c):
    r = c.model("Formats", "SPECIFICATION Spec\nINVARIANTS Injective Emit\nCHECK_DEADLOCK FALSE\n")
    c.harness("formats", r.vectors, at_least=5000)


def nonce(c):
    r = c.model("Nonce", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS Repeats Emit\nPROPERTIES Advances Alone\n"
                "CHECK_DEADLOCK FALSE\n" % 3)
    c.harness("nonce", r.vectors, at_least=5000)
    c.deeper("nonce", "Nonce", "SPECIFICATION Spec\nCONSTANT MaxOps = 8\nINVARIANTS Repeats Emit\nCHECK_DEADLOCK FALSE\n", 40000)


def garble(c):
    cfg = "SPECIFICATION Spec\nCONSTANT K = %d\nCONSTANT Wide = %s\nINVARIANTS Answered NotSpoiltForOthers SignedIsWhole Emit\n%sCHECK_DEADLOCK FALSE\n"
    vs = c.model("Garble", cfg % (1, "TRUE", "PROPERTY AlwaysAnswers\n")).vectors
    c.harness("garble", vs, at_least=20000)
    vs = c.model("Garble", cfg % (2, "FALSE", "")).vectors
    c.harness("garble", vs, at_least=20000)
    for n in (2, 4):
        c.deeper("garble", "Garble", cfg % (n, "TRUE", ""), RANDOM)


PROPS = {
    "P01": sessions, "P02": sessions, "P03": sessions,
    "P04": oneshot("Build", "build", ["AllOrNothing", "SucceedsExactlyWhen"], k=(3, 3), at_least=3000),
    "P05": oneshot("Build", "build-content", ["OwnIdentity", "RespondsToUs", "KeepsTheRest", "StatusByDelivery"],
                   k=(3, 3), at_least=1000, filt=lambda v: v["ok"]),
    "P06": setup,
    "P07": oneshot("Dispatch", "dispatch", ["DenyByDefault", "OriginNever", "OnlyDeclared", "OneHook",
                                            "PreRegisteredHasNoPrefix", "HookDecides", "Reaches"], k=(5, 6)),
    "P08": oneshot("Resolve", "resolve", ["OnlyOurEndpoint", "TypedRequestObjects", "FetchOnce", "OnlySuccessfulFetch",
                                          "SameClient", "Malformed", "AlwaysVerified"], k=(3, 3)),
    "P09": oneshot("AuthDid", "did", ["Authentic", "Trusted", "AlgDeclared", "UntrustedNeverResolved", "ProperAccepted"],
                   k=(3, 3), at_least=10000),
    "P10": oneshot("AuthX509", "x509", ["Authentic", "Identified", "LeafOnly", "AlgDeclared", "HasChain", "TrustedRoot", "Obeyed",
                                        "ProperAccepted"], consts='CONSTANT Kind = "x509_san_dns"', k=(3, 3), at_least=10000),
    "P11": oneshot("AuthX509", "x509", ["Authentic", "Identified", "LeafOnly", "AlgDeclared", "HasChain", "TrustedRoot", "Obeyed",
                                        "ProperAccepted"], consts='CONSTANT Kind = "x509_hash"', k=(3, 3), at_least=10000),
    "P12": oneshot("RequestObject", "object", ["ReturnUri", "SupportedOnly", "HasNonce"], k=(3, 4)),
    "P13": oneshot("Encrypt", "encrypt", ["CanEncrypt", "CommonEnc", "PlainNeedsNothing", "MalformedRefused"], k=(3, 4)),
    "P22": oneshot("Client", "client", ["OwnKey", "NamedByLeaf", "NoIdNoRequest", "SignsOrFails", "FailureIsFailure"], k=(4, 4), at_least=1000),
    "P14": oneshot("Submit", "submit", ["SentAtMostOnce", "RightForm", "ApiSendsNothing", "SuccessMeansReceived", "Follows"],
                   k=(3, 4), at_least=5000),
    "P15": both(oneshot("FormEncode", "form-encode", ["SameKind"], k=(1, 1), consts="CONSTANT Big = TRUE"),
                oneshot("FormEncode", "form-encode", ["SameKind"], k=(2, 2), consts="CONSTANT Big = FALSE"), form_decode),
    "P16": dcql,
    "P17": both(oneshot("Handover", "handover", ["WellFormed", "NeverTheOther"], k=(2, 2), consts="CONSTANT Wide = TRUE"),
                oneshot("Handover", "handover", ["WellFormed", "NeverTheOther"], k=(3, 4), consts="CONSTANT Wide = FALSE"),
                oneshot("Transcript", "transcript", ["RightKind", "Whole"], k=(3, 4)),
                oneshot("Thumbprint", "thumbprint", ["Whole"], k=(3, 4))),
    "P18": enckey,
    "P19": params,
    "P21": protocol,
    "P20": status,
    "P24": oneshot("HttpClient", "http", ["WholeOrError", "AskedFirst"], k=(3, 4)),
    "P25": vp_token,
    "P26": formats,
    "P27": nonce,
    "P28": garble,
    "P23": oneshot("UrlCodec", "url", ["NeverMangled"], k=(2, 3), at_least=5000),
}
