"""Builds instrumented variants of the reasoner from /repo's current working tree.

Nothing is built inside /repo: sources are copied to a scratch directory below
/verif/build (git-ignored), the rule table is generated by the tree's own
generator, and every translation unit is compiled there together with the
harness file of the check.  A variant is identified by the hash of everything
that goes into it, so concurrent or repeated checks share a finished build.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
BASE = ["-w", "-g", "-std=c99", "-D_POSIX_C_SOURCE=199506L", "-pthread", "-mfpmath=sse", "-msse2"]

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
GSAN = ["-fsanitize=address,undefined", "-fsanitize=bounds-strict", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FLAVORS = {
    "plain": (["gcc"], ["-O2"], []),
    "o0": (["gcc"], ["-O0"], []),
    "clang": (["clang"], ["-O2"], []),
    "mon": (["clang"], ["-O1"], []),
    "asan": (["clang"], ["-O1"] + ASAN, ASAN),
    "gasan": (["gcc"], ["-O1"] + GSAN, GSAN),       # its bounds checks see accesses one past the end which those of clang take for addresses
    "msan": (["clang"], ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], ["-fsanitize=memory"]),
    "tsan": (["clang"], ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], ["-fsanitize=thread"]),
}

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout

def source_files():
    out = []
    root = os.path.join(REPO, "src")
    for d, dirs, files in os.walk(root):
        for f in files:
            if f.endswith((".c", ".h")) and f != "RuleTable.c":
                out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, "src", f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

def rule_table(defines=()):
    """The generated rule table of the tree. It is generated in the configuration the program is built in: what the
    capacities are does not change it, and a defect that only shows with small stores has to show in the monitored
    executable, not as a failed build."""
    key = hashlib.sha256(repr((tree_hash(), defines, BASE)).encode()).hexdigest()[:16]
    path = os.path.join(BUILD, "rules-" + key + ".c")
    with open(os.path.join(BUILD, ".lock-rules-" + key), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(path):
            gen = path + ".gen"
            cfiles = [f for f in source_files() if f.endswith(".c") and os.path.dirname(f) in ("", "NetworkNAR")]
            _run(["gcc"] + BASE + ["-O0", "-DSTAGE=1"] + list(defines) + [os.path.join(REPO, "src", f) for f in cfiles] + ["-lm", "-o", gen])
            with open(path + ".tmp", "wb") as fh:
                fh.write(subprocess.run([gen, "NAL_GenerateRuleTable"], stdout=subprocess.PIPE, check=True, timeout=60).stdout)
            os.unlink(gen)
            os.rename(path + ".tmp", path)
    return path

def build(flavor="plain", harness=(), wraps=(), config=None, defines=(), keep_main=False, extra_cflags=(), name=None):
    """Returns the path of the executable.

    harness: C files of /verif/harness linked in. wraps: functions intercepted by the linker.
    config: {macro: value} overrides for Config.h / Shell / Globals parameters.
    keep_main: keep the program's own main (otherwise main.c is left out)."""
    cc, cflags, lflags = FLAVORS[flavor]
    config = dict(config or {})
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    for f in harness:
        for g in [f] + [x for x in sorted(os.listdir(HARNESS)) if x.endswith(".h")]:
            with open(os.path.join(HARNESS, g), "rb") as fh:
                h.update(fh.read())
    h.update(repr((flavor, cflags, sorted(wraps), sorted(config.items()), list(defines), keep_main, list(extra_cflags), BASE)).encode())
    key = h.hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, "%s-%s" % (name or flavor, key))
    exe = os.path.join(d, "nar")
    lock = open(os.path.join(BUILD, ".lock-" + key), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe):
            return exe
        if os.path.exists(d):
            shutil.rmtree(d)
        src = os.path.join(d, "src")
        for f in source_files():
            dst = os.path.join(src, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, "src", f), dst)
        cfgp = os.path.join(src, "Config.h")
        txt = open(cfgp).read()
        for k, v in config.items():
            txt, n = re.subn(r"(?m)^#define %s\b.*$" % re.escape(k), lambda m: "#define %s %s" % (k, v), txt)
            if n == 0:
                # the parameter moved to another header: override it there
                done = False
                for f in source_files():
                    if f.endswith(".h") and f != "Config.h":
                        p = os.path.join(src, f)
                        t = open(p).read()
                        t, n2 = re.subn(r"(?m)^#define %s\b.*$" % re.escape(k), lambda m: "#define %s %s" % (k, v), t)
                        if n2:
                            open(p, "w").write(t)
                            done = True
                if not done:
                    raise BuildError("configuration parameter %s not found" % k)
        open(cfgp, "w").write(txt)
        cfiles = [f for f in source_files() if f.endswith(".c") and os.path.dirname(f) in ("", "NetworkNAR")]
        shutil.copyfile(rule_table(tuple(defines)), os.path.join(src, "RuleTable.c"))
        units = [(os.path.join(src, f), f.replace("/", "_") + ".o") for f in cfiles + ["RuleTable.c"] if keep_main or f != "main.c"]
        units += [(os.path.join(HARNESS, f), "h_" + f + ".o") for f in harness]
        # generated straight-line code: longest compile first
        units.sort(key=lambda u: 0 if "RuleTable" in u[0] else 1)
        def comp(u):
            _run(cc + BASE + cflags + list(extra_cflags) + ["-DSTAGE=2", "-I" + src, "-I" + HARNESS] + list(defines) + ["-c", u[0], "-o", os.path.join(d, u[1])])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, units))
        wl = ["-Wl,--wrap=%s" % w for w in wraps]
        _run(cc + lflags + wl + [os.path.join(d, u[1]) for u in units] + ["-pthread", "-lm", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        for u in units:
            os.unlink(os.path.join(d, u[1]))
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def prune(keep=60):
    """Keep the build cache bounded."""
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if not x.startswith((".", "rules-"))]
    except FileNotFoundError:
        return
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(d, ignore_errors=True)

MON_WRAPS = ["Globals_assert"]

def monitors(flavor, parts, wraps, configs, prefix):
    """{name: executable} for the configurations {name: overrides}, built side by side"""
    with cf.ThreadPoolExecutor(4) as ex:
        fs = {n: ex.submit(monitor, flavor, parts, wraps, c, name=prefix + "-" + n) for n, c in configs.items()}
        return {n: f.result() for n, f in fs.items()}

def monitor(flavor="plain", parts=(), wraps=(), config=None, **kw):
    """The monitor main (harness/mon.c) plus the given parts; returns the executable."""
    return build(flavor, harness=["mon.c"] + list(parts), wraps=MON_WRAPS + list(wraps), config=config, **kw)
