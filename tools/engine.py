"""Shared machinery of the checks: building the driver, running TLC, judging recorded traces."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JAVA = ["-XX:+UseSerialGC", "-Xss64m"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    """The machinery failed; nothing can be said about the property."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- processes

def run(cmd, timeout, env=None, cwd=None, mem=None, stdout=None):
    """Returns (exit status, output, timed out); kills the whole process group on timeout."""
    def pre():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ)
    e.update(env or {})
    out = stdout or subprocess.PIPE
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=out,
                         stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=pre)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return -9, (o or b"").decode("utf-8", "replace"), True


def bypass():
    """The sources of the library with every fence and atomic replaced by the ones that report, however the code refers to
    them; none if the hook of the library reaches them all by itself."""
    with open(os.path.join(VERIF, "harness", "Cargo.toml")) as f:
        repo = re.search(r'rowan = { path = "([^"]*)"', f.read()).group(1)
    new, changed = {}, False
    for d, _, names in os.walk(os.path.join(repo, "src")):
        for n in names:
            path = os.path.join(d, n)
            if not n.endswith(".rs") or n == "sched_hooks.rs":
                continue
            with open(path) as f:
                text = f.read()
            hooked = re.search(r"crate::sched_hooks as atomic", text)
            # parts that are not code are kept: comments, uses
            parts = re.split(r"(//[^\n]*|/\*.*?\*/|\b(?:pub\s+)?use\s[^;]*;)", text, flags=re.S)
            for i in range(0, len(parts), 2):
                def sub(m):
                    nonlocal changed
                    if not (hooked and re.fullmatch(r"atomic\s*::\s*", m.group(1))):
                        changed = True
                    return "crate::sched_hooks::" + m.group(2)
                parts[i] = re.sub(r"(?<![\w.:])((?:(?:::\s*)?\w+\s*::\s*)*)(AtomicUsize\b|fence\b(?=\s*\())", sub, parts[i])
            new[os.path.relpath(path, repo)] = "".join(parts)
    return (repo, new) if changed else None


def build_hooked():
    """The driver against the library with its reference counts observed."""
    flags, sub = "--cfg rowan_sched_hooks", "hooked"
    b = bypass()
    if not b:
        return build(("debug", "release"), ["arcs"], flags, sub)
    repo, files = b
    copy = os.path.join(BUILD, "hooked-src")
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree(os.path.join(repo, "src"), os.path.join(copy, "src"))
    with open(os.path.join(repo, "Cargo.toml")) as f:
        toml = re.sub(r"\[workspace\]\s*members[^\n]*", "[workspace]", f.read())
    files = dict(files, **{"Cargo.toml": toml})
    for n, t in files.items():
        with open(os.path.join(copy, n), "w") as f:
            f.write(t)
    h = os.path.join(copy, "harness")
    os.mkdir(h)
    for n in ("src", "Cargo.lock"):
        os.symlink(os.path.join(VERIF, "harness", n), os.path.join(h, n))
    with open(os.path.join(VERIF, "harness", "Cargo.toml")) as f:
        toml = f.read()
    with open(os.path.join(h, "Cargo.toml"), "w") as f:
        f.write(toml.replace('"%s"' % repo, '"%s"' % copy))
    return build(("debug", "release"), ["arcs"], flags, sub, manifest=os.path.join(h, "Cargo.toml"))


def build(profiles=("debug", "release"), bins=None, flags=None, sub="target", features=None, manifest=None):
    """Builds the driver against the working tree of the repository."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, sub)
    with open(os.path.join(BUILD, "lock." + sub), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for p in profiles:
            cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path",
                   manifest or os.path.join(VERIF, "harness", "Cargo.toml"), "--target-dir", target]
            if p == "release":
                cmd.append("--release")
            for b in bins or []:
                cmd += ["--bin", b]
            if features:
                cmd += ["--features", features]
            env = {"CARGO_INCREMENTAL": "0"}
            if flags:
                env["RUSTFLAGS"] = flags
            rc, out, to = run(cmd, 800, env=env)
            if rc != 0:
                raise ToolError("building the driver failed:\n" + out[-4000:])
    return target


# ---------------------------------------------------------------- TLC

class Tlc:
    """One run of TLC."""
    def __init__(self, rc, out, to):
        self.rc, self.out, self.timeout = rc, out, to
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out


def tlc(module, cfg=None, env=None, workers=1, timeout=600, heap="2g", extra=(), work=None, stdout=None):
    meta = os.path.join(work or BUILD, "meta-%s-%d-%d" % (module, os.getpid(), threading.get_ident()))
    os.makedirs(meta, exist_ok=True)
    gc = ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = (["java", "-Djava.io.tmpdir=" + meta] + gc + ["-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-nowarning", "-noGenerateSpecTE"] + list(extra) +
           ["-config", (cfg or module) + ".cfg", module + ".tla"])
    try:
        rc, out, to = run(cmd, timeout, env=env, cwd=SPEC, stdout=stdout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(rc, out, to)


def model(module, env=None, workers=4, timeout=600, heap="6g", emit=None, work=None, cfg=None):
    """Checks a model; returns (Tlc, emitted lines). A violated law is an error of the machinery:
    the models do not depend on the code."""
    e = dict(env or {})
    if emit:
        e["EMIT"] = "1"
    r = tlc(module, cfg=cfg, env={k: str(v) for k, v in e.items()}, workers=workers, timeout=timeout,
            heap=heap, work=work)
    if not r.ok:
        raise ToolError("model %s %s: rc=%s timeout=%s\n%s" % (module, e, r.rc, r.timeout, r.out[-3000:]))
    lines = []
    if emit:
        tag = '"' + emit + " "
        for ln in r.out.splitlines():
            if ln.startswith(tag):
                lines.append(json.loads(ln)[len(emit) + 1:])
        lines.sort()
    r.out = ""
    return r, lines


# ---------------------------------------------------------------- judging traces

REJECT = {10, 11, 12, 13, 14, 75, 76, 77}


class Verdict:
    def __init__(self, ok, line=0, why=""):
        self.ok, self.line, self.why = ok, line, why


def pretty_mismatch(out):
    i = out.find("MISMATCH")
    if i < 0:
        i = out.find("Error:")
    t = re.sub(r"\s+", " ", out[i:i + 1500])
    m = re.search(r"Error: Postcondition| TLC computed|Error: The behavior", t)
    return t[:m.start()].strip() if m else t.strip()


def judge(trace, module="SessionTrace", timeout=600, work=None, env=None):
    """Is the recorded trace a behaviour of the specification?"""
    e = {"TRACE": trace}
    e.update(env or {})
    r = tlc(module, env=e, workers=1, timeout=timeout, work=work, heap="3g")
    if r.ok and "MISMATCH" not in r.out:
        return Verdict(True), r
    if r.timeout:
        raise ToolError("TLC ran out of time on " + trace)
    m = re.search(r'"MISMATCH",\s*(\d+)', r.out)
    if r.rc in REJECT or m or "is false" in r.out:
        line = int(m.group(1)) if m else max(r.depth, 1)
        if not m and not r.depth:
            # an evaluation failed: the state count tells how far it got
            line = max(r.distinct, 1)
        v = Verdict(False, line, pretty_mismatch(r.out))
        with open(trace) as f:
            for i, ln in enumerate(f, 1):
                if i == line:
                    a = json.loads(ln)
                    if a.get("a") == "gone":
                        raise ToolError("driver lost its place: " + ln[:300] + " in " + trace)
                    if not m:
                        v.why = "no action of the specification explains " + ln.strip()[:600]
                    break
        return v, r
    raise ToolError("TLC failed (rc=%s) on %s:\n%s" % (r.rc, trace, r.out[-2500:]))


# ---------------------------------------------------------------- one check

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.lock = threading.Lock()
        self.states = self.transitions = self.events = self.sessions = self.traces = 0
        self.ops, self.models, self.samples, self.notes = {}, [], [], []
        self.hashes = set()
        self.violations = []
        self.errors = []
        self.exhaustive = []
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.jobs = []

    def left(self, budget):
        return budget - (time.time() - self.t0)

    # ---- models
    def model(self, module, env=None, emit=None, what="", **k):
        r, lines = model(module, env, emit=emit, work=self.work, **k)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "bounds": {k: str(v) for k, v in (env or {}).items()},
                            "distinct_states": r.distinct, "states_generated": r.generated,
                            "emitted": len(lines), "what": what})
        return lines

    # ---- conformance
    def job(self, f, *a, **k):
        def g():
            if self.violations or self.errors:
                return
            try:
                f(*a, **k)
            except ToolError as x:
                with self.lock:
                    self.errors.append(str(x))
            except Exception as x:  # noqa
                import traceback
                with self.lock:
                    self.errors.append("".join(traceback.format_exc()))
        self.jobs.append(self.pool.submit(g))

    def wait(self):
        while self.jobs:
            js, self.jobs = self.jobs, []
            cf.wait(js)

    def conform(self, exe, args, name, module="SessionTrace", out_at=None, timeout=150, mem=6 << 30,
                env=None, note=None, judge_timeout=600):
        """Runs the driver (args contain '@' for the trace file) and judges what it recorded."""
        trace = os.path.join(self.work, name + ".ndjson")
        rc, out, to = run([exe] + [trace if a == "@" else str(a) for a in args], timeout, env=env, mem=mem)
        if rc in (2, 101) or not os.path.exists(trace):
            raise ToolError("driver failed: %s %s\n%s" % (exe, args, out[-2000:]))
        died = rc != 0
        if died and os.path.exists(trace):
            # the last line may be incomplete
            b = open(trace, "rb").read()
            open(trace, "wb").write(b[:b.rfind(b"\n") + 1])
        v, r = (Verdict(True), None) if os.path.getsize(trace) == 0 else judge(trace, module, judge_timeout, self.work)
        with self.lock:
            self.account(trace, v)
        if v.ok and rc == 3:
            raise ToolError("driver failed: %s %s\n%s" % (exe, args, out[-2000:]))
        if v.ok and died:
            cur = self.pending(trace)
            how = "never returned" if to else "killed the process (status %s)" % rc
            v = Verdict(False, None, "%s: %s %s" % (how, (cur or "?")[:300], out[-300:].strip()))
        if not v.ok:
            self.violation(trace, v, module, exe, env, note)
        for f in (trace, trace + ".cur"):
            if os.path.exists(f):
                os.remove(f)

    def pending(self, trace):
        try:
            b = open(trace + ".cur").read()
            n = int(b[:9])
            return b.encode()[9:9 + n].decode()
        except (OSError, ValueError):
            return None

    def account(self, trace, v):
        cur = hashlib.sha1()
        n = 0
        first = []
        with open(trace) as f:
            for i, ln in enumerate(f, 1):
                if v.line and i >= v.line:
                    break
                self.events += 1
                e = ln[:0]
                m = re.search(r'"a":"(\w+)"', ln)
                a = m.group(1) if m else "?"
                if a == "run":
                    cur.update(ln.encode())
                    n += 1
                    continue
                if a == "reset":
                    if n:
                        self.hashes.add(cur.digest()[:10])
                    self.sessions += 1
                    cur, n = hashlib.sha1(), 0
                    continue
                m = re.search(r'"op":"(\w+)"', ln)
                key = a + ("/" + m.group(1) if m and a not in ("navs", "seqs") else "")
                self.ops[key] = self.ops.get(key, 0) + 1
                cur.update(ln.encode())
                n += 1
                if len(self.samples) < 6 and self.sessions % 5 == 1 and n % 7 == 3 and len(ln) < 500:
                    self.samples.append(json.loads(ln))
        if n:
            self.hashes.add(cur.digest()[:10])
        self.traces += 1

    def violation(self, trace, v, module, exe, env, note):
        """Keeps the session that fails."""
        with open(trace) as f:
            lines = f.readlines()
        end = v.line if v.line else len(lines)
        start = 0
        for i in range(min(end, len(lines)) - 1, -1, -1):
            if '"a":"reset"' in lines[i]:
                start = i
                break
        ses = lines[start:end]
        if v.line is None:
            p = self.pending(trace)
            if p:
                ses.append(p + "\n")
        head = json.dumps({"a": "note", "property": self.prop, "module": module, "exe": os.path.relpath(exe, BUILD),
                           "env": env or {}, "why": v.why[:1500], "extra": note or {}})
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1("".join(ses).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.ndjson" % (self.prop, h))
        with open(path, "w") as f:
            f.write(head + "\n" + "".join(ses))
        with self.lock:
            self.violations.append((path, v.why))

    # ---- end
    def finish(self, rule, assumptions, extra=None):
        self.wait()
        self.pool.shutdown()
        shutil.rmtree(self.work, ignore_errors=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.sessions,
               "samples": self.samples or ["none"],
               "evaluations": self.events, "distinct_nontrivial": len(self.hashes), "rule": rule,
               "trace_files": self.traces, "models": self.models, "exhaustive_parts": self.exhaustive, "notes": self.notes,
               "operations": dict(sorted(self.ops.items())), "exhaustive": False}
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, why in self.violations[:5]:
            log("  " + why[:1200])
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
        if self.violations:
            return 1
        if self.errors:
            log("CHECK FAILED (no verdict):")
            for e in self.errors[:3]:
                log(e[:4000])
            return 2
        log("%s: held on %d operations in %d sessions (%d distinct); models: %d states, %d transitions; %.0f s"
            % (self.prop, self.events, self.sessions, len(self.hashes), self.states, self.transitions,
               time.time() - self.t0))
        return 0
