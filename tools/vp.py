#!/usr/bin/env python3
"""Driver of the checks: builds the harness from /repo's working tree, runs TLC on the
specification, replays what TLC produced into the real code, checks recordings of the real code
with TLC, and writes the evidence.

  vp.py setup                       build everything once
  vp.py check P01 [--tier thorough] decide one property

Exit: 0 property held on everything explored; 1 a VIOLATION line was printed; 2 the machinery
itself could not give an answer."""

import fcntl
import json
import os
import re
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(ROOT, "tools"))
import mirror  # noqa: E402


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", ""),
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
    )
    e.pop("RUSTFLAGS", None)
    return e


def build(jwe=True):
    """Compiles the harness against /repo's current tree; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror.mirror(REPO, os.path.join(BUILD, "mirror"), os.path.join(ROOT, "josekit-stub"), jwe)
        # The lock file may be rewritten by cargo (without jwe, say): build from a copy.
        hdir = os.path.join(BUILD, "harness")
        for top, dirs, names in os.walk(os.path.join(ROOT, "harness")):
            for n in names:
                src = os.path.join(top, n)
                with open(src, "rb") as f:
                    data = f.read()
                mirror.put(os.path.join(hdir, os.path.relpath(src, os.path.join(ROOT, "harness"))), data)
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(hdir, "Cargo.toml")]
        if not jwe:
            cmd += ["--no-default-features"]
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            if jwe:
                sys.stderr.write(r.stdout[-3000:])
                return None
            sys.stderr.write(r.stdout[-6000:])
            raise ToolError("the harness does not build against /repo")
        binary = os.path.join(BUILD, "target", "debug", "harness")
        # Keep a private copy: another check may rebuild the original while this one runs.
        out = os.path.join(BUILD, "bin-%d" % os.getpid())
        subprocess.run(["cp", binary, out], check=True)
    return out


class Tlc:
    """The outcome of one TLC run."""

    def __init__(self, name):
        self.name, self.states, self.distinct, self.vectors = name, 0, 0, []
        self.violated, self.last, self.out, self.wall = None, "", "", 0.0
        self.simulated = False


LIMIT = 800  # seconds for one run of TLC or of the harness (7200 in the thorough tier)


def tlc(run, module, cfg, workers=8, extra_env=None, simulate=None, depth=None, seed=None, timeout=None):
    """Runs TLC on spec/<module>.tla with configuration text or file `cfg`."""
    t0 = time.time()
    res = Tlc(module)
    res.simulated = bool(simulate)
    meta = os.path.join(run, "tlc-%s-%d" % (module, time.time_ns()))
    os.makedirs(meta)
    if "\n" in cfg:
        path = os.path.join(meta, "model.cfg")
        with open(path, "w") as f:
            f.write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(extra_env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-noGenerateSpecTE", "-config", path, "-workers", str(workers)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 60), "-seed", str(seed or 1)]
    cmd += [module + ".tla"]
    vec = re.compile(r'^<<"VEC", (".*")>>$')
    log = os.path.join(meta, "tlc.out")
    try:
        with open(log, "w") as f:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout or LIMIT)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    keep, said = [], set()
    with open(log) as f:
        for line in f:
            m = vec.match(line.rstrip("\n"))
            if m:
                if simulate and m.group(1) in said:
                    continue
                said.add(m.group(1)) if simulate else None
                # A TLA+ string: the only escapes are \" and \\ and the usual control characters.
                res.vectors.append(json.loads(json.loads(m.group(1))))
            else:
                keep.append(line.rstrip("\n"))
    os.remove(log)
    res.out = "\n".join(keep)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", res.out)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"The number of states generated: (\d+)", res.out)
    if m and simulate:
        res.states = res.distinct = int(m.group(1))
    m = re.search(r"Error: (?:Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|"
                  r"Action property (line .*?) is violated)", res.out)
    if m:
        res.violated = m.group(1) or m.group(2) or m.group(3) or "temporal"
        res.last = res.out[m.start():]
    elif p.returncode not in (0,) or "Error:" in res.out:
        sys.stderr.write(res.out[-4000:])
        raise ToolError("TLC failed on %s (exit %d)" % (module, p.returncode))
    res.wall = time.time() - t0
    subprocess.run(["rm", "-rf", meta])
    return res


def known_finding(pid, name):
    """The text of the finding listed as `finding: property=<pid> name=<name> <text>`, if it is."""
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) name=(\S+) (.*)", line)
            if m and m.group(1) == pid and m.group(2) == name:
                return m.group(3).strip()
    return None


class Check:
    """State of one property's check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.run = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.run, exist_ok=True)
        self.bin = None
        self.jwe = True
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "distinct_states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "vectors_replayed": 0, "executions_of_real_code": 0, "models": [], "samples": []}
        self.assumptions = []

    # -- pieces -------------------------------------------------------------
    def need_bin(self, jwe=False):
        if self.bin is None:
            self.bin = build(True)
            if self.bin is None:
                if jwe:
                    raise ToolError("src/core/jwe.rs does not compile against the josekit stand-in")
                self.bin = build(False)
                self.jwe = False
        return self.bin

    def model(self, module, cfg, **kw):
        """Model-checks the specification itself and collects the vectors it prints."""
        r = tlc(self.run, module, cfg, **kw)
        if r.violated:
            sys.stderr.write(r.last[:4000] + "\n")
            raise ToolError("the specification %s violates its own %s" % (module, r.violated))
        self.count(r, module, cfg)
        return r

    def deeper(self, mode, module, cfg, n, filt=None):
        """Random behaviours beyond the bounds that can be enumerated (thorough tier)."""
        if self.quick or self.violations:
            return
        r = self.model(module, cfg, simulate=n // 8, depth=60, seed=self.seed)
        vs = [v for v in r.vectors if filt is None or filt(v)]
        self.cov.setdefault("random_behaviours", []).append({"module": module, "distinct": len(vs)})
        self.harness(mode, vs, at_least=n // 100)

    def count(self, r, module, cfg):
        if not r.simulated:
            self.cov["states"] += r.distinct
            self.cov["distinct_states"] += r.distinct
        self.cov["transitions"] += r.states
        self.cov["models"].append({"module": module, "random": r.simulated, "config": cfg if "\n" not in cfg else "inline",
                                   "distinct_states": r.distinct, "states_generated": r.states,
                                   "vectors": len(r.vectors), "wall_s": round(r.wall, 1)})

    def harness(self, mode, vectors, traces=False, args=(), at_least=1, timeout=None):
        """Replays vectors into the real code."""
        if len(vectors) < at_least:
            raise ToolError("only %d vectors for %s, expected at least %d" % (len(vectors), mode, at_least))
        inp, out = os.path.join(self.run, mode + ".in"), os.path.join(self.run, mode + ".out")
        with open(inp, "w") as f:
            for v in vectors:
                f.write(json.dumps(v) + "\n")
        cmd = [self.need_bin(), mode, "--in", inp, "--out", out, "--seed", str(self.seed)] + list(args)
        tr = os.path.join(self.run, mode + ".traces")
        if traces:
            cmd += ["--traces", tr]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout or LIMIT)
        except subprocess.TimeoutExpired:
            raise ToolError("the harness timed out in mode " + mode)
        if p.returncode:
            # The code under test took the whole process down: that is data, not a tool error.
            # (Except SIGKILL, which is the sandbox running out of memory.)
            if p.returncode < 0 and p.returncode != -9:
                self.violation({"mode": mode, "crash": p.returncode, "output": p.stdout[-3000:]})
                return {"n": 0, "violations": [], "samples": []}
            raise ToolError("harness %s: %s" % (mode, p.stdout[-3000:]))
        with open(out) as f:
            res = json.load(f)
        if "error" in res:
            raise ToolError(res["error"])
        self.cov["vectors_replayed"] += res.get("n", 0)
        self.cov["executions_of_real_code"] += res.get("runs", 0)
        self.cov["traces_validated_against_impl"] += res.get("n", 0)
        self.cov["samples"] += res.get("samples", [])[:4]
        for name, (vec, times) in res.get("known", {}).items():
            if known_finding(self.pid, name):
                self.known.append("%s (%d of the inputs explored)" % (known_finding(self.pid, name), times))
            else:
                self.violation({"mode": mode, "vector": vec, "bad": name})
        for v in res.get("violations", []):
            self.violation({"mode": mode, **v})
        if traces:
            with open(tr) as f:
                res["traces"] = [json.loads(l) for l in f]
        return res

    def violation(self, detail):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        if len(self.violations) < 20:
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, **detail}, f, indent=1)
        self.violations.append(path)

    # -- end ----------------------------------------------------------------
    def finish(self, t0):
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for path in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("%s: %d violation(s); %d model states, %d vectors, %d executions, %.1f s" % (
            self.pid, len(self.violations), self.cov["distinct_states"], self.cov["vectors_replayed"],
            self.cov["executions_of_real_code"], time.time() - t0))
        return 1 if self.violations else 0


def main():
    args = sys.argv[1:]
    if args[:1] == ["setup"]:
        b = build(True) or build(False)
        os.remove(b)
        return 0
    if args[:1] != ["check"]:
        sys.stderr.write(__doc__)
        return 2
    import props

    pid = args[1]
    tier = "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    global LIMIT
    LIMIT = 800 if tier == "quick" else 7200
    c = Check(pid, tier, seed)
    try:
        props.PROPS[pid](c)
        return c.finish(t0)
    except ToolError as e:
        sys.stderr.write("TOOL ERROR: %s\n" % e)
        return 2
    finally:
        if c.bin and os.path.exists(c.bin):
            os.remove(c.bin)
        if not os.environ.get("VP_KEEP"):
            subprocess.run(["rm", "-rf", c.run])


if __name__ == "__main__":
    sys.exit(main())
