"""Common parts of the checks: build the drivers from /repo's working tree,
run TLC, replay generated histories, validate recorded traces, report."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
TLA = "/opt/veriftools/tla"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself could not run (exit 2), as opposed to a violation."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def limit_memory():
    """For code that may allocate without end: it aborts, the sandbox goes on."""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, prop)))
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.known = load_known(prop)
        self.known_hit = []

    # ---- reporting ----
    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def replay_file(self, content):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        with open(p, "w") as f:
            json.dump(content, f, indent=1)
        return os.path.relpath(p, VERIF)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.tmp, name)

    # ---- building and running the real code ----
    def build(self, pkg):
        return build(pkg)

    def drive(self, exe, sessions, timeout=300, env=None):
        """Runs sessions (list of dicts) on the real code and returns the records.
        A crash or a hang of the process is charged to the session it happened in."""
        src, dst = self.path("script.ndjson"), self.path("record.ndjson")
        with open(src, "w") as f:
            for s in sessions:
                f.write(json.dumps(s) + "\n")
        if os.path.exists(dst):
            os.remove(dst)
        e = dict(os.environ)
        e.update(env or {})
        how = None
        try:
            p = subprocess.run([exe, src, dst], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, env=e, preexec_fn=limit_memory)
            if p.returncode != 0:
                how = "process ended with %d: %s" % (p.returncode, p.stderr[-400:].decode("utf8", "replace"))
        except subprocess.TimeoutExpired:
            how = "no answer within %d s" % timeout
        recs = []
        if os.path.exists(dst):
            with open(dst) as f:
                for line in f:
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        break
        if how is not None:
            k = len(recs)
            if k >= len(sessions):
                raise ToolError("driver failed after its last session: " + how)
            raise Violation("the code crashed or hung: " + how,
                            {"session": sessions[k], "how": how})
        if len(recs) != len(sessions):
            raise ToolError("driver wrote %d of %d records" % (len(recs), len(sessions)))
        return recs

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, timeout=600, workers=None, heap="8g", count=True,
            extra_args=()):
        r = run_tlc(self.tmp, module, cfg, env, timeout, workers, heap, extra_args)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        return r

    def tlc_ok(self, module, cfg, **kw):
        """A run that must complete without error: the spec's own properties."""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise ToolError("TLC on %s failed:\n%s" % (module, r.tail()))
        return r

    def validate(self, module, cfg, sessions, timeout=600, chunk=None, env=None):
        """Every recorded session must be a behaviour of `module` (spec TSpec)."""
        if not sessions:
            return
        f = self.path("trace.ndjson")
        with open(f, "w") as h:
            for s in sessions:
                h.write(json.dumps(s) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout)
        self.traces += len(sessions)
        if r.ok:
            return
        if r.deadlock:
            st = r.last_state()
            sess, l = int(st.get("sess", "0")), int(st.get("l", "0"))
            s = sessions[sess - 1]
            ev = s["ops"][l - 1] if 0 < l <= len(s["ops"]) else None
            raise Violation("recorded trace is not a behaviour of %s at step %d" % (module, l),
                            {"session": s, "step": l, "event": ev,
                             "spec_state_before": r.last_state_text()})
        raise ToolError("TLC on %s failed:\n%s" % (module, r.tail()))


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.ok = "Model checking completed. No error has been found." in out
        self.deadlock = "Error: Deadlock reached." in out
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            pass
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def tail(self, n=60):
        lines = [x for x in self.out.splitlines() if not x.startswith('<<"GEN"')]
        keep = [i for i, x in enumerate(lines) if x.startswith("Error")]
        if keep:
            return "\n".join(lines[keep[0]:keep[0] + n])[:6000]
        return "\n".join(lines[-n:])[:6000]

    def gen(self):
        """The JSON payloads of PrintT(<<"GEN", ToJson(..)>>)."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('<<"GEN", "') and line.endswith('">>'):
                res.append(json.loads(json.loads(line[9:-2])))
        return res

    def last_state_text(self, limit=4000):
        k = self.out.rfind("\nState ")
        if k < 0:
            return ""
        t = self.out[k + 1:]
        m = re.search(r"\n\s*\n", t)
        return (t[:m.start()] if m else t)[:limit]

    def last_state(self):
        return {m.group(1): m.group(2) for m in
                re.finditer(r"^/\\ (\w+) = (\S+)\s*$", self.last_state_text(1 << 30), re.M)}


def tla(v):
    """Python value -> TLA+ expression (for cfg files; keep it simple)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraint=(),
        action_constraint=(), view=None, deadlock=False, symmetry=None, **_):
    """A model: (constants defined through a wrapper module, cfg directives)."""
    return dict(spec=spec, constants=constants or {}, invariants=invariants, properties=properties,
                constraint=constraint, action_constraint=action_constraint, view=view,
                deadlock=deadlock)


_run = [0]


def run_tlc(tmp, module, c, env, timeout, workers, heap, extra_args=()):
    _run[0] += 1
    d = os.path.join(tmp, "tlc%d" % _run[0])
    os.makedirs(d)
    mc = "MC%d" % _run[0]
    # Constants are definitions of a wrapper module, so that any value can be given.
    defs, subst = [], []
    for k, v in c["constants"].items():
        defs.append("c_%s == %s" % (k, v.expr if isinstance(v, Expr) else tla(v)))
        subst.append(" %s <- c_%s" % (k, k))
    with open(os.path.join(d, mc + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (mc, module, "\n".join(defs)))
    with open(os.path.join(d, mc + ".cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % c["spec"])
        if subst:
            f.write("CONSTANTS\n" + "\n".join(subst) + "\n")
        for key, word in (("invariants", "INVARIANT"), ("properties", "PROPERTY"),
                          ("constraint", "CONSTRAINT"), ("action_constraint", "ACTION_CONSTRAINT")):
            for x in c[key]:
                f.write("%s %s\n" % (word, x))
        if c["view"]:
            f.write("VIEW %s\n" % c["view"])
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if c["deadlock"] else "FALSE"))
    cp = ":".join([os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar")])
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-DTLA-Library=" + SPEC, "-cp", cp,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers or CPUS), "-config", mc + ".cfg", *extra_args, mc + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault("TRACE", "/dev/null")
    out_path = os.path.join(d, "out.txt")
    with open(out_path, "w") as o:
        try:
            p = subprocess.run(cmd, cwd=d, stdout=o, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not finish within %d s" % (module, timeout))
    with open(out_path, errors="replace") as o:
        out = o.read()
    r = TlcResult(p.returncode, out)
    if os.environ.get("VERIF_DEBUG"):
        print("TLC", module, r.generated, r.distinct, "ok" if r.ok else r.tail(), file=sys.stderr)
    else:
        shutil.rmtree(d, ignore_errors=True)
    return r


class Expr:
    """A TLA+ expression given verbatim."""

    def __init__(self, expr):
        self.expr = expr


_built = {}


def build(*pkgs):
    """Builds drivers against /repo's current tree; returns the path of the last."""
    todo = [p for p in pkgs if p not in _built]
    if todo:
        cmd = ["cargo", "build", "--offline", "--quiet", "--locked"]
        for p in todo:
            cmd += ["-p", p]
        e = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true",
                 RUSTFLAGS="--cap-lints=allow")
        p = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        if p.returncode != 0:
            raise ToolError("build of %s failed:\n%s" % (todo, p.stdout.decode("utf8", "replace")[-6000:]))
        for q in todo:
            _built[q] = os.path.join(TARGET, "debug", q)
    return _built[pkgs[-1]]


def build_variants(pkg, variants):
    """The driver with all of its features, or, if they do not build together,
    with each of the given selections that does (paths of the builds)."""
    try:
        return [build(pkg)]
    except ToolError as err:
        out = []
        for v in variants:
            cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "-p", pkg, "--no-default-features", "--features", v]
            t = os.path.join(TARGET, "only-" + (v or "none"))
            e = dict(os.environ, CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints=allow")
            if subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e).returncode == 0:
                out.append(os.path.join(t, "debug", pkg))
        if not out:
            raise err
        return out


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                k = json.loads(line)
                if k["property"] == prop:
                    res.append(k)
    return res


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check.py ID; ids: " + " ".join(sorted(table)))
        return 2
    prop = sys.argv[1]
    c = Check(prop)
    try:
        table[prop](c)
        c.evidence(0)
        old = os.path.join(VERIF, "evidence", "replay", prop + ".json")
        if os.path.exists(old):
            os.remove(old)
        for what in c.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs"
              % (prop, TIER, c.states, c.transitions, c.traces, time.time() - c.t0))
        return 0
    except Violation as v:
        c.evidence(1)
        r = c.replay_file({"property": prop, "what": v.what, "details": v.replay})
        print(v.what[:600])
        print("VIOLATION property=%s replay=%s" % (prop, r))
        return 1
    except ToolError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        return 2
    finally:
        if not os.environ.get("VERIF_DEBUG"):
            c.close()
