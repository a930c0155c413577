"""Common machinery of the checks: builds, drivers, TLC/Quint runs, evidence, verdicts."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
REPLAY = os.path.join(VERIF, "replay")
CORES = min(8, os.cpu_count() or 4)


class Refused(Exception):
    """The code under test refuses, or panics on, something valid that the check asked of it."""

    def __init__(self, op, obs):
        super().__init__("%s: %s" % (json.dumps(op)[:1500], json.dumps(obs)[:1500]))
        self.op, self.obs = op, obs


class ToolError(Exception):
    """Something about the check itself went wrong: exit 2, no verdict."""


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=e.get("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu"),
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", PYO3_PYTHON="/usr/bin/python3.12",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

def _srchash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules", "docs"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".py", ".pyi")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def _fresh(target):
    """Never trust modification times: when sources changed, forget what cargo built from them."""
    os.makedirs(target, exist_ok=True)
    stamp, now = os.path.join(target, ".srchash"), _srchash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for d, ds, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in list(ds):
                    if x.startswith(("reductionml", "vh-")):
                        shutil.rmtree(os.path.join(d, x))
                ds[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    return stamp, now


def _cargo(target, args, extra_env=None, cwd=None):
    os.makedirs(BUILD, exist_ok=True)
    with open(target + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp, now = _fresh(target)
        e = env()
        e["CARGO_TARGET_DIR"] = target
        e.update(extra_env or {})
        r = subprocess.run(["cargo"] + args, cwd=cwd or VERIF, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo failed: " + " ".join(args) + "\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(now)


def harness(profile="dev"):
    """profile dev: debug assertions on; rel: the optimised-build code paths (assertions off)."""
    t = os.path.join(BUILD, "harness")
    args = ["build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]
    if profile == "rel":
        args.append("--release")
        t += "-rel"
    _cargo(t, args)
    return os.path.join(t, "debug" if profile == "dev" else "release", "vh")


def cli(hooks=True):
    t = os.path.join(BUILD, "cli" + ("-hooks" if hooks else ""))
    _cargo(t, ["build", "--offline", "-p", "reductionml-cli", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
           {"RUSTFLAGS": "--cfg reml_verif"} if hooks else None, cwd="/")
    return os.path.join(t, "debug", "reml")


def python_pkg():
    """Stages the Python package built from the working tree; returns its parent directory."""
    t = os.path.join(BUILD, "python")
    _cargo(t, ["build", "--offline", "-p", "reductionml-python", "--manifest-path", os.path.join(REPO, "Cargo.toml")], cwd="/")
    stage = os.path.join(BUILD, "pystage")
    dst = os.path.join(stage, "reductionml")
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "reductionml-python", "python", "reductionml"), dst)
    shutil.copy(os.path.join(t, "debug", "libreductionml.so"), os.path.join(dst, "_reductionml.so"))
    return stage


# ---------------------------------------------------------------- drivers

def run_sessions(binary, sessions, timeout=300, jobs=CORES, fresh=False, env=None):
    """Runs sessions on the harness; returns {id: obs}. A dead or hung process is an observation
    of the session it died in ({"crash": ...}).  fresh: every session in a process of its own."""
    out = {}
    lock = threading.Lock()

    def work(part):
        todo = list(part)
        while todo:
            p = subprocess.Popen(binary if isinstance(binary, list) else [binary], env=dict(os.environ, **env) if env else None, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True)
            data = "".join(json.dumps(s) + "\n" for s in todo)
            hung = False
            try:
                so, _ = p.communicate(data, timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                so, _ = p.communicate()
                hung = True
            done = 0
            for line in so.split("\n"):
                if "@@{" not in line:
                    continue          # printed by the code under test
                try:
                    r = json.loads(line[line.index("@@{") + 2:])
                except ValueError:
                    break
                if "harness_error" in r:
                    raise ToolError("harness: " + r["harness_error"])
                with lock:
                    out[r["id"]] = r["obs"]
                done += 1
            if done >= len(todo):
                return
            bad = todo[done]
            with lock:
                out[bad["id"]] = [{"crash": "hang" if hung else "process died (%s)" % p.returncode}]
            todo = todo[done + 1:]

    n = max(1, min(jobs, (len(sessions) + 7) // 8))
    parts = [[x] for x in sessions] if fresh else [sessions[i::n] for i in range(n)]
    with ThreadPoolExecutor(jobs if fresh else n) as ex:
        for f in [ex.submit(work, p) for p in parts]:
            f.result()
    for s in sessions:
        for o in out[s["id"]]:
            if "harness_error" in o:
                raise ToolError("harness: %s in session %s" % (o["harness_error"], s["id"]))
    return out


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.ok = False
        self.prints = []
        self.coverage = {}
        self.error = ""
        self.wall = 0.0


def _cfgval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(_cfgval(x) for x in v)) + "}"
    if isinstance(v, str):
        return v if v.startswith("@") is False and re.fullmatch(r"[A-Za-z]\w*", v) and v.startswith("MV_") else '"%s"' % v
    raise ToolError("cfg value %r" % (v,))


def tlc(ctx, module, constants=None, spec="Spec", invariants=(), properties=(), action_constraints=(),
        constraints=(), postcondition=None, deadlock=False, simulate=None, depth=None, workers=None,
        timeout=600, view=None, overrides=None, coverage=True, env_extra=None, tag="", expect_error=False,
        symmetry=None, heap="6g"):
    """Runs TLC on spec/<module>.tla; raises ToolError unless it finished with a verdict."""
    wd = os.path.join(ctx.work, "tlc-%s%s" % (module, tag))
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), wd)
    lines = ["SPECIFICATION " + spec]
    for k, v in (constants or {}).items():
        lines.append("CONSTANT %s = %s" % (k, _cfgval(v)))
    for k, v in (overrides or {}).items():
        lines.append("CONSTANT %s <- %s" % (k, v))
    lines += ["INVARIANT " + i for i in invariants]
    lines += ["PROPERTY " + i for i in properties]
    lines += ["CONSTRAINT " + i for i in constraints]
    lines += ["ACTION_CONSTRAINT " + i for i in action_constraints]
    if view:
        lines.append("VIEW " + view)
    if symmetry:
        lines.append("SYMMETRY " + symmetry)
    if postcondition:
        lines.append("POSTCONDITION " + postcondition)
    lines.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    with open(os.path.join(wd, "MC.cfg"), "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp",
           "/opt/veriftools/tla/tla2tools.jar" + _cm(), "tlc2.TLC", "-config", "MC.cfg", "-metadir", os.path.join(wd, "meta"),
           "-workers", str(workers or (1 if simulate else CORES)), "-seed", str(ctx.seed), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        cmd += ["-depth", str(depth or 30)]
    elif coverage:
        cmd += ["-coverage", "10"]
    cmd += [module + ".tla"]
    e = env()
    e.update(env_extra or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    r = TlcResult()
    r.wall = time.time() - t0
    out = p.stdout
    with open(os.path.join(wd, "out.txt"), "w") as f:
        f.write(out + p.stderr)
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        r.generated, r.distinct = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m:
        r.generated = int(m.group(1).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m.group(1))
    # coverage lines: <Action line .. of module M>: distinct:generated
    for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([\d ]+\))?>: (\d+):(\d+)", out, re.M):
        r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(4))
    for line in out.splitlines():
        if line.startswith('"@@'):
            r.prints.append(json.loads(json.loads(line)[2:]))
        elif line.startswith("@@"):
            r.prints.append(json.loads(line[2:]))
    bad = [l for l in out.splitlines() if l.startswith("Error:") or "is violated" in l or "Parsing or semantic analysis failed" in l]
    r.ok = p.returncode == 0 and not bad
    r.error = "\n".join(bad[:6])
    r.out = out
    if not r.ok and not expect_error:
        raise ToolError("TLC rejects the specification itself: %s\n%s\n%s" % (module, r.error, out[-3000:]))
    r.dir = wd
    if r.ok and not expect_error:
        shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    return r


_CMJ = None


def _cm():
    global _CMJ
    if _CMJ is None:
        _CMJ = ""
        d = "/opt/veriftools/tla"
        for f in sorted(os.listdir(d)):
            if f.endswith(".jar") and "tla2tools" not in f:
                _CMJ += ":" + os.path.join(d, f)
    return _CMJ


def validate_trace(ctx, module, events, constants=None, tag="", timeout=600, overrides=None):
    """Checks a recorded trace against <module> (a trace specification reading trace.ndjson, with
    variable-free acceptance printed by its postcondition).  Returns the number of events matched."""
    wd = ctx.work
    path = os.path.join(wd, "trace-%s%s.ndjson" % (module, tag))
    with open(path, "w") as f:
        for ev in events:
            f.write(json.dumps(ev) + "\n")
    r = tlc(ctx, module, constants=constants, spec="TraceSpec", postcondition="TraceReport",
            env_extra={"TRACE": path}, tag=tag, workers=1, timeout=timeout, coverage=False,
            expect_error=True, overrides=overrides)
    m = None
    for x in r.prints:
        if isinstance(x, dict) and "matched" in x:
            m = x
    if m is None:
        raise ToolError("trace validation gave no answer: %s\n%s" % (r.error, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return m["matched"], r


# ---------------------------------------------------------------- Quint

def quint(ctx, args, timeout=600, check=True, cwd=None):
    e = env()
    p = subprocess.run(["quint"] + args, cwd=cwd or ctx.work, env=e, capture_output=True, text=True, timeout=timeout)
    if check and p.returncode != 0:
        raise ToolError("quint %s failed:\n%s\n%s" % (" ".join(args[:2]), p.stdout[-3000:], p.stderr[-2000:]))
    return p


# ---------------------------------------------------------------- context

class Ctx:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.actions = {}

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, name=None):
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        for k, v in r.coverage.items():
            self.actions[k] = self.actions.get(k, 0) + v

    def require_actions(self, r, names):
        """Vacuity guard: every named action of the model was taken."""
        for n in names:
            if not r.coverage.get(n):
                raise ToolError("vacuous model: action %s never taken" % n)

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def violate(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = load_known(self.pid)
        fresh = []
        seen = set()
        for what, rep in self.violations:
            k = next((k for k in known if k["key"] in what or k["key"] == (rep or {}).get("key")), None)
            if k:
                seen.add(k["key"])
            else:
                fresh.append((what, rep))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        if self.actions:
            cov["action_counts"] = self.actions
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        if fresh:
            os.makedirs(REPLAY, exist_ok=True)
            what, rep = fresh[0]
            path = os.path.join(REPLAY, "%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "replay": rep,
                           "others": [w for w, _ in fresh[1:20]]}, f, indent=1)
            log("%s: %s" % (self.pid, what))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0), flush=True)
        return 0


def load_known(pid):
    """known: property=<id> key=<key> <text>   (lines starting with 'fixed:' suppress nothing)"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "text": m.group(3).strip()})
    return out


# ---------------------------------------------------------------- small helpers

def intern_table():
    tab = {}

    def f(x):
        k = json.dumps(x, sort_keys=True)
        return tab.setdefault(k, len(tab) + 1)
    return f


def fval(x):
    """[bits, decimal] as written by the harness -> python float"""
    v = x[1]
    return float(v) if not isinstance(v, str) else float(v.replace("inf", "inf").replace("NaN", "nan"))


def close(a, b, rel=1e-5, abs_=1e-6):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
