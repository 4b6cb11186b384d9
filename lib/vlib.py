"""Common machinery of the checks: building /repo, running drivers, running TLC, verdicts, evidence."""
import shlex, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not be carried out (exit 2), as opposed to a violation."""


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- build

FLAVORS = {
    # the repository's own flags
    "plain": dict(c=["-O2", "-DNDEBUG", "-fPIC", "-g"], cxx=[], cpp=True),
    # own address-space checking, for drivers that look for dangling or overrunning accesses
    "asan": dict(c=["-O1", "-DNDEBUG", "-fPIC", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], cxx=[], cpp=True),
    # every shared access calls into harness/sim.cpp instead of the sanitizer runtime
    "sched": dict(c=["-O1", "-DNDEBUG", "-fPIC", "-g", "-fsanitize=thread", "-fno-builtin",
                     "-fno-tree-vectorize", "-fno-tree-slp-vectorize"], cxx=[], cpp=True),
}


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _walk(d, exts):
    out = []
    for root, dirs, files in os.walk(d):
        dirs[:] = [x for x in dirs if x not in ("test", "bench", "_build", ".git", "obj", "bin", "lib")]
        for f in files:
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out


def repo_files():
    return _walk(os.path.join(REPO, "src"), (".c", ".cpp", ".h", ".hpp")) + \
        _walk(os.path.join(REPO, "include"), (".h", ".hpp"))


def _run_jobs(jobs):
    def one(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return cmd, r.returncode, r.stdout
    with ThreadPoolExecutor(NCPU) as ex:
        for cmd, rc, out in ex.map(one, jobs):
            if rc:
                raise CheckError("build failed: %s\n%s" % (" ".join(cmd), out[-4000:]))


HEAP = ["malloc", "calloc", "realloc", "free"]

def build_lib(flavor):
    """Compile /repo's working tree (plus the JSON stand-in) into a static library; returns its path."""
    fl = FLAVORS[flavor]
    files = repo_files()
    shim = os.path.join(HARNESS, "shim")
    shimfiles = [os.path.join(shim, f) for f in os.listdir(shim)] if os.path.isdir(shim) else []
    key = _hash_files(files + shimfiles, json.dumps([flavor, fl, HEAP]))
    out = os.path.join(BUILD, "lib-%s-%s" % (flavor, key))
    lib = os.path.join(out, "liba0.a")
    if os.path.exists(lib):
        return lib
    # only one build per flavour is kept
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d.startswith("lib-%s-" % flavor):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    os.makedirs(out)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + shim]
    jobs, objs = [], []
    srcdir = os.path.join(REPO, "src")
    for f in sorted(os.listdir(srcdir)):
        p = os.path.join(srcdir, f)
        if f.endswith(".c"):
            o = os.path.join(out, f[:-2] + ".o")
            cc = ["gcc", "-std=gnu17"] + fl["c"] + inc + ["-c", p, "-o", o]
            if flavor == "sched":      # the simulator knows what the library allocates
                cc = ["sh", "-c", " ".join(shlex.quote(x) for x in cc) + " && objcopy " +
                      " ".join("--redefine-sym %s=sim_%s" % (x, x) for x in HEAP) + " " + shlex.quote(o)]
            jobs.append(cc)
            objs.append(o)
        elif f.endswith(".cpp") and fl["cpp"]:
            o = os.path.join(out, f[:-4] + "_cpp.o")
            flags = [x for x in fl["c"] if x != "-fsanitize=thread"]   # wrappers: no shared state of their own but std::mutex
            jobs.append(["g++", "-std=c++11", "-DA0_EXT_NLOHMANN"] + flags + fl["cxx"] + inc + ["-c", p, "-o", o])
            objs.append(o)
    for p in shimfiles:
        if p.endswith(".c") or p.endswith(".cpp"):
            o = os.path.join(out, "shim_" + os.path.basename(p) + ".o")
            cc = ["g++", "-std=c++17"] if p.endswith(".cpp") else ["gcc", "-std=gnu17"]
            flags = [x for x in fl["c"] if x not in ("-fsanitize=thread", "-fno-builtin")]
            jobs.append(cc + flags + inc + ["-c", p, "-o", o])
            objs.append(o)
    # longest first
    jobs.sort(key=lambda j: 0 if j[0] == "g++" else 1)
    _run_jobs(jobs)
    subprocess.run(["ar", "rcs", lib + ".tmp"] + objs, check=True)
    os.rename(lib + ".tmp", lib)
    return lib


WRAPS = {
    "sched": ["syscall", "clock_gettime", "pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_unlock",
              "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_once",
              "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_timedwait",
              "memcpy", "memset", "memmove", "sched_yield", "usleep", "nanosleep", "pthread_self"],
}


def build_driver(flavor, name, sources, extra=(), wraps=(), libs=()):
    lib = build_lib(flavor)
    srcs = [os.path.join(HARNESS, s) for s in sources]
    hdrs = [os.path.join(HARNESS, f) for f in os.listdir(HARNESS) if f.endswith((".h", ".hpp"))]
    key = _hash_files(srcs + hdrs, json.dumps([lib, list(extra), list(wraps), WRAPS.get(flavor, [])]))
    exe = os.path.join(BUILD, "drv-%s-%s-%s" % (name, flavor, key))
    if os.path.exists(exe):
        return exe
    for d in os.listdir(BUILD):
        if d.startswith("drv-%s-%s-" % (name, flavor)):
            try:
                os.unlink(os.path.join(BUILD, d))
            except IsADirectoryError:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HARNESS, "shim"), "-I" + HARNESS,
           "-I" + os.path.join(REPO, "src")]
    flags = ["-g", "-O1"]
    link = []
    if flavor == "asan":
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    wl = ["-Wl,--wrap=" + w for w in list(WRAPS.get(flavor, [])) + list(wraps)]
    objdir = exe + ".o.d"
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(objdir, os.path.basename(s) + ".o")
        objs.append(o)
        if s.endswith(".c"):
            jobs.append(["gcc", "-std=gnu17"] + flags + list(extra) + inc + ["-c", s, "-o", o])
        else:
            jobs.append(["g++", "-std=c++17", "-DA0_EXT_NLOHMANN"] + flags + list(extra) + inc + ["-c", s, "-o", o])
    _run_jobs(jobs)
    cmd = ["g++"] + flags + objs + [lib] + wl + link + list(libs) + ["-lpthread", "-o", exe + ".tmp"]
    _run_jobs([cmd])
    shutil.rmtree(objdir, ignore_errors=True)
    os.rename(exe + ".tmp", exe)
    return exe


# --------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d[\d,]*) states generated.*?, (\d[\d,]*) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def accepted(self):
        return set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', self.out))


def tlc(module, cfg, env=None, workers=None, timeout=900, heap="6g", extra=(), deque=False, dump=None):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers or NCPU), "-lncheck", "final",
            "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout)


# --------------------------------------------------------------------------- check object

class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.evdir = os.path.join(VERIF, "evidence")
        self.replaydir = os.path.join(self.evdir, "replay")
        os.makedirs(self.replaydir, exist_ok=True)
        for x in os.listdir(self.replaydir):
            if x.startswith(pid + "-"):
                os.unlink(os.path.join(self.replaydir, x))
        self.tmp = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.runs = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.violations = []
        self.level = "model_checking"
        self.known = load_known().get(pid, [])
        self.known_hit = set()

    # -- running drivers
    def drive(self, exe, args, out, timeout=300, env=None, ok_codes=(0,), tail=()):
        """Run a driver that appends ndjson traces to `out`. A death or hang of the code under test is recorded
        by the driver itself as an event; what arrives here is an unexplained exit."""
        if self.violations:  # the answer is known, and what is broken may be slow
            log("skipped: %s" % os.path.basename(exe))
            return None
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:disable_coredump=1:handle_segv=1"
        if env:
            e.update({k: str(v) for k, v in env.items()})
        if self.quick:  # a second attempt must fit
            timeout = min(timeout, 200)
        for attempt in (1, 2):
            if os.path.exists(out):
                os.unlink(out)
            t = time.time()
            with open(os.path.join(self.tmp, "driver.out"), "w+", errors="replace") as of:
                p = subprocess.Popen([exe] + [str(a) for a in args] + [out] + [str(a) for a in tail], stdin=subprocess.DEVNULL, stdout=of, stderr=subprocess.STDOUT,
                                     env=e, cwd=self.tmp, start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                try:  # nothing it started survives it
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                of.seek(0)
                txt = of.read()
            if rc in ok_codes:
                log("driver %s %s: %.1fs" % (os.path.basename(exe), " ".join(str(a) for a in args), time.time() - t))
                return txt
            log("driver %s ended with %s (attempt %d)\n%s" % (os.path.basename(exe), rc, attempt, txt[-3000:]))
        if rc == 99:
            raise CheckError("driver %s reports a harness error:\n%s" % (exe, txt[-2000:]))
        self.violation("the code under test died or hung while being driven (exit %s of %s %s)" % (rc, os.path.basename(exe), args),
                       {"exe": exe, "args": [str(a) for a in args], "rc": str(rc), "output": txt[-4000:]})
        return None

    # -- spec
    def model(self, module, cfg, timeout=900, workers=None, heap="6g", extra=()):
        """Exhaustive check of the specification itself. Not allowed to fail: that would be an error of the spec."""
        t = time.time()
        r = tlc(module, cfg, timeout=timeout, workers=workers, heap=heap, extra=extra)
        if r.rc != 0 or "No error has been found" not in r.out:
            raise CheckError("model %s/%s failed:\n%s" % (module, cfg, r.out[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.cover.setdefault("models", []).append(
            {"module": module, "config": cfg, "distinct_states": r.distinct, "generated": r.generated, "depth": r.depth})
        log("model %s/%s: %d distinct states, %.1fs" % (module, cfg, r.distinct, time.time() - t))
        return r

    def validate(self, module, cfg, tracefile, label="", timeout=900, chunk=None, env=None, max_report=3):
        """Ask TLC which recorded traces are behaviours of the spec. One trace per line."""
        with open(tracefile) as f:
            lines = [l for l in f.read().split("\n") if l.strip()]
        if not lines:
            raise CheckError("no traces in %s" % tracefile)
        # identical executions are checked once
        seen, uniq = set(), []
        for l in lines:
            k = hashlib.sha1(l.encode()).digest()
            if k not in seen:
                seen.add(k)
                uniq.append(l)
        bad, t = [], time.time()
        chunk = chunk or 20000
        for c in range(0, len(uniq), chunk):
            part = uniq[c:c + chunk]
            pf = os.path.join(self.tmp, "chunk.ndjson")
            with open(pf, "w") as f:
                f.write("\n".join(part) + "\n")
            e = dict(env or {})
            e["TRACES"] = pf
            r = tlc(module, cfg, env=e, timeout=timeout)
            if "Model checking completed" not in r.out:
                raise CheckError("TLC failed on trace batch %s/%s:\n%s" % (module, cfg, r.out[-5000:]))
            acc = r.accepted()
            self.states += r.distinct
            self.transitions += r.generated
            bad += [part[i - 1] for i in range(1, len(part) + 1) if i not in acc]
        self.traces += len(uniq)
        self.runs += len(lines)
        d = self.cover.setdefault("trace_sets", [])
        d.append({"set": label or os.path.basename(tracefile), "spec": module, "recorded": len(lines), "distinct": len(uniq), "rejected": len(bad)})
        log("traces %s: %d recorded, %d distinct, %d rejected, %.1fs" % (label, len(lines), len(uniq), len(bad), time.time() - t))
        if len(self.samples) < 3 and uniq:
            s = json.loads(uniq[len(uniq) // 2])
            self.samples.append({"set": label, "trace": _shorten(s)})
        real = []
        for b in bad:
            k = self.match_known(b, label)
            if k is not None:
                self.known_hit.add(k)
            else:
                real.append(b)
        for b in real[:max_report]:
            # confirm and locate
            pf = os.path.join(self.tmp, "one.ndjson")
            with open(pf, "w") as f:
                f.write(b + "\n")
            e = dict(env or {})
            e["TRACES"] = pf
            r = tlc(module, cfg, env=e, timeout=timeout, workers=1)
            if "Model checking completed" not in r.out:
                raise CheckError("TLC failed on single trace:\n%s" % r.out[-3000:])
            if 1 in r.accepted():
                raise CheckError("trace rejected in a batch but accepted alone")
            tr = json.loads(b)
            pos = max([int(x) for x in re.findall(r'<<"POS", (\d+)>>', r.out)] or [0])
            ev = tr["ev"]
            nxt = ev[pos] if pos < len(ev) else None
            what = "%s: recorded behaviour is not a behaviour of the specification %s; first %d of %d events explained, stuck at %s" % (
                label, module, pos, len(ev), json.dumps(nxt))
            self.violation(what, {"trace": tr, "explained": pos, "spec": module, "label": label})
        if len(real) > max_report:
            log("... and %d more rejected traces" % (len(real) - max_report))
        return len(real) == 0

    def match_known(self, line, label):
        for i, k in enumerate(self.known):
            if k.get("set") and k["set"] != label:
                continue
            if re.search(k["match"], line):
                return i
        return None

    # -- verdict
    def violation(self, what, detail):
        n = len(self.violations) + 1
        path = os.path.join(self.replaydir, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "detail": detail}, f, indent=1)
        self.violations.append((what, path))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("  " + what, flush=True)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(_shorten(x))

    def finish(self):
        for i in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[i]["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "executions": self.runs, "samples": self.samples or ["(none)"]}
        cov.update(self.cover)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(self.evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        log("%s: %s in %.1fs (%d states, %d traces, %d executions)" % (
            self.pid, "VIOLATED" if self.violations else "held", time.time() - self.t0, self.states, self.traces, self.runs))
        return 1 if self.violations else 0


def _shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            out.setdefault(k["property"], []).append(k)
    return out
