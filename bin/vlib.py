"""Driver library: builds the harness from /repo's working tree, runs scripts, has TLC judge the traces."""
import fcntl, filecmp, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"

ML = ["mlkem512", "mlkem768", "mlkem1024"]
NIST = ["p256", "p384", "p521", "k256"]
DH = NIST + ["x25519"]
K = {"mlkem512": 2, "mlkem768": 3, "mlkem1024": 4}
CTS = {"mlkem512": 768, "mlkem768": 1088, "mlkem1024": 1568, "xwing": 1120}
DU = {"mlkem512": 10, "mlkem768": 10, "mlkem1024": 11}
FIELD = {"p256": 32, "p384": 48, "p521": 66, "k256": 32, "x25519": 32}


def dks(a): return 32 if a == "xwing" else 768 * K[a] + 96
def eks(a): return 1216 if a == "xwing" else 384 * K[a] + 32


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def _env(extra=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_BUILD_TARGET_DIR", None)
    if extra:
        e.update(extra)
    return e


def repo_hash():
    h = hashlib.sha256()
    for top in ("ml-kem", "x-wing", "dhkem"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


class BuildFailed(Exception):
    pass


def forget(tdir):
    """what cargo believes to have built from the sources of /repo"""
    for pr in ("debug", "release"):
        fp = os.path.join(tdir, pr, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("ml-kem-", "x-wing-", "dhkem-", "kemharness-")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def compiles(crate, feature_sets):
    """[(features, errors)] of those sets of features with which the crate does not compile"""
    tdir = os.path.join(BUILD, "fs-" + crate)
    bad = []
    with Lock("fs-" + crate):
        os.makedirs(tdir, exist_ok=True)
        stamp = os.path.join(tdir, "repo.hash")
        h = repo_hash()
        if not os.path.exists(stamp) or open(stamp).read() != h:
            forget(tdir)
        with open(stamp, "w") as fh:
            fh.write(h)
        for fs in feature_sets:
            r = subprocess.run(["cargo", "check", "--offline", "--locked", "--quiet", "--lib", "-p", crate, "--no-default-features",
                                "--features", ",".join(fs), "--target-dir", tdir],
                               cwd=REPO, env=_env({"RUSTFLAGS": "--cap-lints warn"}), capture_output=True, text=True)
            if r.returncode != 0:
                bad.append((fs, r.stderr))
    return bad


def build(features, profile="release", hooks=False, bin="kemharness"):
    """Builds the harness and returns the path of a private copy of the binary."""
    tdir = os.path.join(BUILD, "th" if hooks else "t")
    feats = sorted(features.split(",") if isinstance(features, str) else features)
    with Lock("th" if hooks else "t"):
        stamp = os.path.join(tdir, "repo.hash")
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old is not None and old != h:
            # never rely on time stamps to notice that the sources changed
            subprocess.run(["cargo", "clean", "--offline", "-p", "ml-kem", "-p", "x-wing", "-p", "dhkem", "-p", "kemharness",
                            "--target-dir", tdir, "--profile", profile], cwd=os.path.join(VERIF, "harness"), env=_env(), capture_output=True)
            forget(tdir)
        os.makedirs(tdir, exist_ok=True)
        with open(stamp, "w") as fh:
            fh.write(h)
        extra = {"RUSTFLAGS": "--cfg verif_hooks --cap-lints warn" if hooks else "--cap-lints warn"}
        cmd = ["cargo", "build", "--offline", "--bin", bin, "--features", ",".join(feats), "--target-dir", tdir]
        if profile == "release":
            cmd.append("--release")
        t0 = time.time()
        r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=_env(extra), capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildFailed("harness build failed (%s):\n%s" % (",".join(feats), r.stderr[-4000:]))
        out = os.path.join(tdir, "release" if profile == "release" else "debug", bin)
        tag = hashlib.sha256((",".join(feats) + profile + h + bin).encode()).hexdigest()[:10]
        dst = os.path.join(tdir, "%s-%s" % (bin, tag))
        shutil.copy2(out, dst + ".%d" % os.getpid())
        os.replace(dst + ".%d" % os.getpid(), dst)
        log("built %s [%s %s] in %.1fs" % (bin, ",".join(feats), profile, time.time() - t0))
        return dst


def variants(sets):
    """the harness in several configurations, those that build (C13 says whether all do)"""
    out = [build(sets[0])]
    for f in sets[1:]:
        try:
            out.append(build(f))
        except BuildFailed as e:
            log(e)
    return out


def classes():
    src = os.path.join(SPEC, "java", "vp", "Accel.java")
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()[:12]
    d = os.path.join(BUILD, "classes-" + h)
    with Lock("classes"):
        if not os.path.isdir(d):
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            r = subprocess.run(["javac", "-cp", TLA, "-d", tmp, src], capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("javac: " + r.stderr)
            os.rename(tmp, d)
    return d


# ---------------------------------------------------------------- scripts
class Script:
    """Traces of API calls; every trace is independent of the others."""

    def __init__(self):
        self.traces = []

    def trace(self, name):
        t = Trace("%s" % name)
        self.traces.append(t)
        return t

    def add(self, name, lines):
        t = self.trace(name)
        t.lines = list(lines)
        return t

    def text(self, only=None):
        out = []
        for t in self.traces:
            if only is None or t.id in only:
                out.append("T " + t.id)
                out.extend(t.lines)
        return "\n".join(out) + "\n"

    def uniq(self):
        seen = {}
        for t in self.traces:
            if t.id in seen:
                seen[t.id] += 1
                t.id = "%s~%d" % (t.id, seen[t.id])
            else:
                seen[t.id] = 0


class Trace:
    def __init__(self, id):
        self.id, self.lines = id.replace(" ", "_"), []

    def __call__(self, *w):
        self.lines.append(" ".join(str(x) for x in w))
        return self


def run_harness(exe, script, work, threads=1, timeout=600 if THOROUGH else 200, tag="t"):
    """Runs the script; returns the list of (id, events)."""
    sp, op = os.path.join(work, tag + ".script"), os.path.join(work, tag + ".ndjson")
    with open(sp, "w") as fh:
        fh.write(script.text())
    try:
        r = subprocess.run([exe, sp, op] + ([str(threads)] if threads > 1 else []), capture_output=True, text=True,
                           timeout=timeout, cwd=work)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    if rc == 3:
        raise ToolError("harness: " + r.stderr[-2000:])
    if rc == 0:
        return op
    # the process died or hung: find the trace that does it
    for t in script.traces:
        with open(sp + "1", "w") as fh:
            fh.write(script.text({t.id}))
        try:
            r1 = subprocess.run([exe, sp + "1", op + "1"], capture_output=True, text=True, timeout=60, cwd=work)
            rc1 = r1.returncode
        except subprocess.TimeoutExpired:
            rc1 = "timeout"
        if rc1 == 3:
            raise ToolError("harness: " + r1.stderr[-2000:])
        if rc1 != 0:
            raise Violation("the process ended with %s in trace %s" % (rc1, t.id), t)
    if rc == "timeout":
        raise ToolError("the script ran out of time as a whole")
    raise Violation("the process ended with %s in no single trace" % (rc,), script.traces[0])


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, env=None, workers=8, heap="10g", timeout=840, extra=(), props=()):
    d = tempfile.mkdtemp(prefix="tlc", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.Accel"] + list(props) + \
          ["-cp", ":".join([TLA, COMM, classes()]), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
    st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return r.returncode, r.stdout, st


def where(out, op):
    """the trace and the event at which TLC stopped"""
    f = {}
    for k in ("trace", "event", "line", "op", "tr", "cur"):
        m = re.findall(r"^/\\ %s = (.*)$" % k, out, re.M)
        f[k] = m[-1].strip('"') if m else "?"
    if f["trace"] == "?" and f["tr"].isdigit() and f["cur"].isdigit():
        # (an error or a deadlock in an initial state is printed without the alias)
        with open(op) as fh:
            for i, l in enumerate(fh):
                if i + 1 == int(f["tr"]):
                    t = json.loads(l)
                    f["trace"], f["event"] = t["id"], f["cur"]
                    if int(f["cur"]) <= len(t["ev"]):
                        e = t["ev"][int(f["cur"]) - 1]
                        f["line"], f["op"] = e.get("n", "?"), e["op"]
    return f


def judge(op, work, module="KemTrace.tla", cfg="KemTrace.cfg", env=None, timeout=840):
    """TLC accepts the traces of file `op`, or names the first event it cannot explain."""
    if os.path.getsize(op) == 0:
        raise ToolError("no traces")
    e = {"TRACE": op}
    e.update(env or {})
    rc, out, st = tlc(module, cfg, work, env=e, timeout=timeout)
    if rc == 0:
        return st, None
    if rc in (11, 12) and ("Deadlock reached" in out or "is violated" in out):
        m = re.search(r"Invariant (\w+) is violated", out)
        why = ("invariant %s" % m.group(1)) if m else "no action of the specification explains the event"
        return st, dict(where(out, op), why=why)
    # an event so malformed that an operator is not defined on it (or the tool is at fault)
    if "The behavior up to this point is" in out and "The error occurred when TLC was evaluating" in out:
        f = where(out, op)
        m = re.search(r"The exception was .*\n(.*)|^Error: (.*)", out, re.M)
        f["why"] = "the specification is not defined on the event (%s)" % (m.group(1) or m.group(2))[:300] if m else "?"
        if f["trace"] != "?":
            return st, f
    raise ToolError("TLC exit %s on %s\n%s" % (rc, op, out[-3000:]))


# ---------------------------------------------------------------- results
class Check:
    """One run of one property's check."""

    def __init__(self, pid, level, rule):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "rule": rule, "samples": []}
        self.distinct = set()
        self.assume = []
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.rnd = random.Random("%s/%d" % (pid, SEED))
        self.known = load_known(pid)
        self.known_hit = set()

    def rand(self, n):
        return bytes(self.rnd.getrandbits(8) for _ in range(n)) if n < 64 else self.rnd.randbytes(n)

    def account(self, op, st):
        """counts what the trace file contains"""
        n = 0
        with open(op) as fh:
            for line in fh:
                n += 1
                o = json.loads(line)
                for e in o["ev"]:
                    if e["op"] in ("rng", "drop"):
                        continue
                    sub = e.get("pt") or e.get("kr") or e.get("rows")
                    if sub:
                        self.cov["evaluations"] += len(sub)
                        for u in sub:
                            self.distinct.add(hash((o["id"], e["op"], e["n"], str(u))))
                    else:
                        self.cov["evaluations"] += 1
                        self.distinct.add(hash((e["op"], e.get("alg"), e.get("out"), e.get("kind"),
                                                tuple(e.get(k, "") for k in ("ctb", "ssb", "dkb", "ekb", "b", "after", "res", "p1", "in")))))
                    if len(self.cov["samples"]) < 4 and (n == 1 or self.rnd.random() < 0.02):
                        self.cov["samples"].append(dict({k: (v if len(str(v)) < 200 else str(v)[:200] + "...") for k, v in e.items()}, trace=o["id"]))
        self.cov["states"] += st[1]
        self.cov["transitions"] += st[0]
        self.cov["traces_validated_against_impl"] += n
        self.cov["distinct_nontrivial"] = len(self.distinct)

    def replay_file(self, trace, exe, note):
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, "replay-%s.script" % self.pid)
        with open(p, "w") as fh:
            fh.write("T %s\n%s\n" % (trace.id, "\n".join(trace.lines)))
        with open(p + ".txt", "w") as fh:
            fh.write(note + "\nrun: %s %s out.ndjson; TRACE=out.ndjson tlc KemTrace\n" % (exe, p))
        return p

    def conform(self, exe, script, threads=1, tag="t", module="KemTrace.tla", cfg="KemTrace.cfg", timeout=840, env=None):
        """script -> real code -> trace -> TLC"""
        script.uniq()
        if not script.traces:
            return
        by = {t.id: t for t in script.traces}
        exes = exe if isinstance(exe, list) else [exe]
        exe = exes[0]
        try:
            t1 = time.time()
            op = run_harness(exe, script, self.work, threads=threads, tag=tag)
            more = 0
            for i, x in enumerate(exes[1:]):
                # other configurations: what they do differently is judged too
                exe = x
                op1 = run_harness(x, script, self.work, threads=threads, tag="%s-c%d" % (tag, i + 1))
                if not filecmp.cmp(op, op1, shallow=False):
                    with open(op) as fh:
                        seen = set(fh)
                    with open(op1) as fh, open(op, "a") as out:
                        for line in fh:
                            if line not in seen:
                                o = json.loads(line)
                                o["id"] += "@%d" % (i + 1)
                                out.write(json.dumps(o) + "\n")
                more += len(script.traces)
                os.remove(op1)
            exe = exes[0]
            self.cov["traces_validated_against_impl"] += more
            t2 = time.time()
            st, bad = judge(op, self.work, module=module, cfg=cfg, timeout=timeout, env=env)
            log("%s: %d traces, harness %.1fs, TLC %.1fs" % (tag, len(script.traces), t2 - t1, time.time() - t2))
        except Violation as v:
            self.violation(v.what, v.replay, exe)
        self.account(op, st)
        if bad:
            name, _, k = bad["trace"].partition("@")
            self.violation("trace %(trace)s, event %(event)s (script line %(line)s, %(op)s): %(why)s" % bad,
                           by.get(name, script.traces[0]), exes[int(k or 0)])
        os.remove(op)

    def violation(self, what, trace, exe=""):
        p = self.replay_file(trace, exe, what) if trace else self.note_file(what)
        raise Violation(what, p)

    def note_file(self, what):
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, "replay-%s.txt" % self.pid)
        with open(p, "w") as fh:
            fh.write(what + "\n")
        return p

    def known_finding(self, key, what):
        """True when the finding is on the list"""
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return True
        return False

    def evidence(self, violations):
        os.makedirs(EVID, exist_ok=True)
        self.cov["known_findings"] = sorted(self.known_hit)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as fh:
            json.dump({"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
                       "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2),
                       "violations": violations}, fh, indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == pid and k.get("status", "open") == "open"]


def run(pid, level, rule, body):
    c = Check(pid, level, rule)
    try:
        try:
            body(c)
            rc = 0
        except Violation as v:
            rc = 1
            log(v.what)
            print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        c.evidence(1 if rc else 0)
        return rc
    except (ToolError, BuildFailed) as e:
        log("ERROR", e)
        return 2
    finally:
        c.close()


# ---------------------------------------------------------------- input material
def corners(n=32):
    """unusual byte strings of length n"""
    out = [bytes(n), b"\xff" * n, b"\x01" + bytes(n - 1), bytes(n - 1) + b"\x01", b"\x80" + bytes(n - 1),
           bytes(n - 1) + b"\x80", b"\x55" * n, b"\xaa" * n, bytes(range(n)), bytes(n // 2) + b"\xff" * (n - n // 2),
           b"\xff" * (n - 1) + b"\x7f", b"\x00\xff" * (n // 2)]
    return out


def flip(b, i):
    b = bytearray(b)
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)
