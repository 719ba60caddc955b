"""Shared machinery: building the code under test from /repo's working tree, running TLC,
recording evidence, reporting violations."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TARGET = os.path.join(CACHE, "target")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NOBODY = 65534


class ToolError(Exception):
    """The machinery itself failed: neither 'held' nor 'violated'."""


def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
               # release semantics (no overflow checks, as shipped) but quick to rebuild
               CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_INCREMENTAL="true",
               CARGO_PROFILE_RELEASE_CODEGEN_UNITS="64", CARGO_PROFILE_RELEASE_DEBUG="0",
               CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


def _touch_changed():
    """cargo decides by mtime; make sure a file whose *content* changed since our last build is newer."""
    os.makedirs(CACHE, exist_ok=True)
    db_path = os.path.join(CACHE, "srchash.json")
    try:
        old = json.load(open(db_path))
    except Exception:
        old = None
    new = {}
    for base in ("bin", "rawler", "embedftp"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs[:] = [x for x in dirs if x not in ("target", ".git", "testdata", "rawdb")]
            for f in files:
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    try:
                        h = hashlib.sha1(open(p, "rb").read()).hexdigest()
                    except OSError:
                        continue
                    new[p] = h
                    if old is not None and old.get(p) != h:
                        try:
                            os.utime(p)
                        except OSError:
                            pass
    tmp = db_path + ".%d" % os.getpid()
    json.dump(new, open(tmp, "w"))
    os.replace(tmp, db_path)


_built = {}


def build_cli():
    """Build the dnglab command line tool from /repo's current tree; returns its path."""
    if "cli" in _built:
        return _built["cli"]
    _touch_changed()
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "-p", "dnglab", "--bin", "dnglab"], cwd=REPO,
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(TARGET, "release", "dnglab")
    if r.returncode != 0 or not os.path.exists(exe):
        raise ToolError("building dnglab failed:\n" + r.stdout[-4000:])
    _built["cli"] = exe
    return exe


def build_harness(crate):
    """Build one harness crate (/verif/harness/<crate>); returns the path of its binary."""
    if crate in _built:
        return _built[crate]
    _touch_changed()
    cdir = os.path.join(VERIF, "harness", crate)
    lock = os.path.join(cdir, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=cdir, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(TARGET, "release", crate)
    if r.returncode != 0 or not os.path.exists(exe):
        raise ToolError("building harness %s failed:\n%s" % (crate, r.stdout[-4000:]))
    _built[crate] = exe
    return exe


class TlcResult:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.emitted = []
        self.out = ""
        self.ok = False


def run_tlc(module, cfg, ctx=None, workers=8, timeout=800, env=None, args=(), heap="6g", expect_ok=True, emit=True):
    """Run TLC on spec/<module>.tla with the given configuration text (or file name)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch_root())
    if "\n" in cfg or " " in cfg:
        cfgp = os.path.join(meta, module + ".cfg")
        open(cfgp, "w").write(cfg)
    else:
        cfgp = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss16m", "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE", "-deadlock", "-config", cfgp, *args,
           os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(meta, "out")
    try:
        with open(outp, "wb") as fh:
            p = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
    res = TlcResult()
    res.rc = p.returncode
    rest = []
    with open(outp, "r", errors="replace") as fh:
        for line in fh:
            if line.startswith('"{') or line.startswith('"['):
                if emit:
                    try:
                        res.emitted.append(json.loads(line.strip()[1:-1].replace('\\"', '"').replace("\\\\", "\\")))
                    except ValueError:
                        raise ToolError("cannot parse TLC output line: " + line[:300])
            else:
                rest.append(line)
    p.stdout = "".join(rest)
    res.out = p.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        res.transitions, res.states = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", p.stdout)
        if m:
            res.transitions, res.states = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    res.ok = p.returncode == 0
    if expect_ok and not res.ok:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"'))[-3500:]))
    if ctx is not None:
        ctx.states += res.states
        ctx.transitions += res.transitions
    shutil.rmtree(meta, ignore_errors=True)
    return res


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
        os.chmod(_scratch, 0o755)
        atexit.register(_cleanup)
    return _scratch


def _cleanup():
    if _scratch and _scratch.startswith("/tmp/verif-"):
        shutil.rmtree(_scratch, ignore_errors=True)


def scratch(name="d", owner=None):
    d = tempfile.mkdtemp(prefix=name + "-", dir=scratch_root())
    os.chmod(d, 0o755)
    if owner is not None:
        os.chown(d, owner, owner)
    return d


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.rng = random.Random((seed, prop).__repr__())
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status", "known") == "known"]
        self.known_hit = set()
        self.vacuity = []

    @property
    def quick(self):
        return self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sample(self, obj, cap=4):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def need(self, cond, what):
        """Vacuity guard: the exploration must have reached this."""
        if not cond:
            raise ToolError("vacuous run: " + what)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, key, case, msg):
        for k in self.known:
            if re.fullmatch(k["key"], key):
                if k["key"] not in self.known_hit:
                    self.known_hit.add(k["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1((key + repr(case)).encode()).hexdigest()[:10]))
        if len(self.violations) < 20:
            json.dump({"property": self.prop, "key": key, "message": msg, "case": case, "seed": self.seed, "tier": self.tier},
                      open(path, "w"), indent=1, default=repr)
        if len(self.violations) < 5:
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            print("  [%s] %s" % (key, msg), flush=True)
        self.violations.append((key, msg))

    def too_many(self, n=5):
        return len(self.violations) >= n

    def write_evidence(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, default=repr)


def validate(module, cfg, records, ctx, timeout=800, workers=8, env=None, count=True):
    """Check recorded observations against the specification: TLC evaluates the spec on every record
    and prints an object {"reject": index, ...} for each one the specification does not allow."""
    f = os.path.join(scratch("trace"), "trace.ndjson")
    with open(f, "w") as fh:
        for r in records:
            fh.write(json.dumps(r) + "\n")
    e = {"TRACE": f}
    e.update(env or {})
    res = run_tlc(module, cfg, ctx=ctx, env=e, timeout=timeout, workers=workers)
    if count:
        ctx.traces += len(records)
    rej = [x for x in res.emitted if isinstance(x, dict) and "reject" in x]
    if res.states < len(records):
        raise ToolError("TLC visited fewer states (%d) than records (%d) for %s" % (res.states, len(records), module))
    return rej


def demote():
    """preexec function: drop root for code under test with destructive effects."""
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)


def main(run):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    try:
        run(ctx)
        ctx.write_evidence()
    except ToolError as e:
        if ctx.violations:
            ctx.write_evidence()
            sys.exit(1)
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            ctx.write_evidence()
            sys.exit(1)
        sys.exit(2)
    if ctx.violations:
        print("%s: %d violation(s)" % (prop, len(ctx.violations)))
        sys.exit(1)
    print("%s: held (states=%d transitions=%d replayed/validated=%d, %.1fs)" % (prop, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0))
    sys.exit(0)
