"""Verdicts, known findings, evidence and process running shared by all checks."""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")

class Inconclusive(Exception):
    pass

def load_known(prop):
    """known_findings.txt lines: 'finding: property=<id> key=<key> <text>' suppress exactly that key.
    'fixed: property=<id> <commit> <text>' lines are a record only and suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out

class Ctx:
    def __init__(self, prop, tier=None, seed=None, level="exploration"):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.known = load_known(prop)
        self.violations = {}          # key -> (msg, replay)
        self.seen_known = {}
        self.evaluations = 0
        self.nontrivial = set()
        self.rule = ""
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.inconclusive = 0
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.rng = random.Random("%s/%d" % (prop, self.seed))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s if len(str(s)) < 2000 else str(s)[:2000])

    def distinct(self, x):
        self.nontrivial.add(x if isinstance(x, (str, int, tuple)) else str(x))

    def violation(self, key, msg, replay_files=None):
        """key identifies the failing input class / call site; replay_files {name: text}."""
        key = re.sub(r"[^A-Za-z0-9_.:+-]", "_", key)[:120]
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return
        if key in self.violations or len(self.violations) >= 25:
            return
        rd = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, key + ".txt")
        with open(path, "w", errors="surrogateescape") as f:
            f.write("property: %s\nkey: %s\nseed: %d tier: %s\n%s\n" % (self.prop, key, self.seed, self.tier, msg))
            for n, t in (replay_files or {}).items():
                if isinstance(t, bytes):
                    t = t.decode("utf-8", "backslashreplace")
                f.write("\n---- %s ----\n%s\n" % (n, t))
        self.violations[key] = (msg, path)
        print("violation detail [%s]: %s" % (key, msg.splitlines()[0][:300] if msg else ""), flush=True)

    def finish(self, min_evaluations=1):
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule, "samples": self.samples or ["-"]}
        for k, v in sorted(self.counts.items()):
            cov["observed_" + k] = v
        cov["inconclusive_runs"] = self.inconclusive
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k, t in self.seen_known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        if self.violations:
            for k, (m, path) in self.violations.items():
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.evaluations < min_evaluations or not self.nontrivial:
            print("INCONCLUSIVE property=%s: observed only %d evaluations, %d distinct non-trivial" % (self.prop, self.evaluations, len(self.nontrivial)))
            return 2
        print("held property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs %s" % (self.prop, self.evaluations, len(self.nontrivial), time.time() - self.t0,
              " ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        return 0

SAN_ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
           "MSAN_OPTIONS": "abort_on_error=1", "TSAN_OPTIONS": "halt_on_error=0:abort_on_error=0:exitcode=66:second_deadlock_stack=1"}

class Result:
    __slots__ = ("rc", "out", "err", "timeout", "wall")
    def text(self):
        return self.out.decode("latin-1")

def run(cmd, stdin=b"", timeout=60, env=None, cwd=None, out_limit=400 << 20, mem=6 << 30, san=False):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    if env:
        e.update(env)
    if isinstance(stdin, str):
        stdin = stdin.encode("latin-1", "replace")
    r = Result()
    t = time.time()
    def lim():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    fi = tempfile.TemporaryFile()
    fi.write(stdin); fi.seek(0)
    p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, env=e, cwd=cwd, preexec_fn=lim)
    r.timeout = False
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.rc = p.returncode
    fo.seek(0); fe.seek(0)
    r.out = fo.read(out_limit)
    r.err = fe.read(8 << 20)
    fo.close(); fe.close(); fi.close()
    r.wall = time.time() - t
    return r

def pmap(fn, items, workers=8):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))

def ppmap(fn, items, workers=8):
    """process-parallel map for CPU-heavy oracles"""
    import multiprocessing as mp
    with mp.get_context("fork").Pool(workers) as pool:
        return pool.map(fn, items, chunksize=1)

def san_key(err):
    """A stable key for a sanitizer report: kind + first reasoner function on the stack."""
    t = err.decode("latin-1") if isinstance(err, bytes) else err
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", t) or re.search(r"WARNING: MemorySanitizer: (\S+)", t) or re.search(r"ERROR: MemorySanitizer: (\S+)", t)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]{0,60})", t)
        if m:
            kind = re.sub(r"-?\d+(\.\d+)?", "N", m.group(1))
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) ([^\s(]*)", t):
        if "/src/" in m.group(2):
            fn = m.group(1)
            break
    return "%s-%s" % (kind.strip(), fn)

def main(prop, fn, min_evaluations=1, level="exploration"):
    ctx = Ctx(prop, level=level)
    try:
        fn(ctx)
        sys.exit(ctx.finish(min_evaluations))
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        tb = traceback.extract_tb(sys.exc_info()[2])
        # the monitors read everything the program prints on the current tree: a record they cannot read (a key, number
        # or term that is not there) is something else than the program prints; failed builds and system errors are not
        if isinstance(sys.exc_info()[1], (KeyError, IndexError, ValueError, TypeError, AttributeError)):
            ctx.violation("unreadable-output", "%s in %s:%d (%s): the program printed a record with other contents than it prints" % (
                repr(sys.exc_info()[1])[:300], os.path.basename(tb[-1].filename), tb[-1].lineno, tb[-1].line), {"traceback": traceback.format_exc()})
        if ctx.violations:
            sys.exit(ctx.finish(0))
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        print("ERROR in check %s" % prop)
        sys.exit(3)
