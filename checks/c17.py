"""C17: the program itself, run on the same input again: elsewhere in memory, in another environment, locale, directory and time, compiled
differently, with every uninitialised variable holding something else, and under MemorySanitizer. All outputs must be the same bytes."""
import os, random, subprocess, shutil, glob
from vlib import build, core, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
MIN = 200
VARIANTS = {
    "base": ("plain", ()),
    "o0-pattern": ("o0", ("-ftrivial-auto-var-init=pattern",)),
    "clang-zero": ("mon", ("-ftrivial-auto-var-init=zero",)),
    "clang-pattern": ("mon", ("-ftrivial-auto-var-init=pattern",)),
    "msan": ("msan", ()),
}
TAIL = ["*stats", "*concepts", "*cycling_belief_events", "*cycling_goal_events", "*opconfig", "*inverted_atom_index"]

def scripts(ctx, n, lines):
    out = []
    for i in range(n):
        r = random.Random("c17/%d/%d" % (ctx.seed, i))
        k = i % 5
        if k == 0: s = [l for l in skilled(r, lines) if not l.startswith("@")]
        elif k == 1: s = [l for l in chains(r, lines) if not l.startswith("@")]
        elif k == 2: s = [l for l in valued(r, lines) if not l.startswith("@")]
        else: s = stress.mixed("c17/%d" % ctx.seed, i, lines)
        if k != 4: s = ["*motorbabbling=0.3"] + [l for l in s if not l.startswith("*motorbabbling")]
        out.append(s + TAIL)
    return out

def run(ctx):
    import concurrent.futures as cf
    cfg = {"CONCEPTS_MAX": 300, "ATOMS_MAX": 3000}
    with cf.ThreadPoolExecutor(6) as ex:
        f = {n: ex.submit(build.build, fl, (), (), cfg, (), True, extra, "det-" + n) for n, (fl, extra) in VARIANTS.items()}
        f["shipped"] = ex.submit(build.build, "plain", (), (), {}, (), True, (), "det-shipped")
        exe = {n: x.result() for n, x in f.items()}
    d = ctx.scratch
    shim = os.path.join(d, "perturb.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", os.path.join(build.HARNESS, "perturb.c"), "-ldl", "-o", shim], check=True)
    os.mkdir(d + "/elsewhere"); os.mkdir(d + "/loc")
    for n in exe: # under another name, in another directory
        shutil.copy(exe[n], d + "/elsewhere/" + n)
    have = subprocess.run(["localedef", "-i", "de_DE", "-f", "UTF-8", d + "/loc/de_DE.UTF-8"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    if os.path.isdir(d + "/loc/de_DE.UTF-8"): ctx.count("foreign_locale_available")
    env2 = lambda i: {"PERTURB": str(i), "LD_PRELOAD": shim, "LOCPATH": d + "/loc", "LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "TZ": "Asia/Tokyo", "HOME": d, "USER": "someone", "PWD": "/", "MALLOC_PERTURB_": "165", "FILL": "x" * (i * 977 % 50000)}
    work = [("gen", s, 0) for s in scripts(ctx, ctx.scale(50, 300), ctx.scale(120, 300))]
    ex = sorted(glob.glob(os.path.join(build.REPO, "examples", "nal", "*.nal")))
    r = random.Random("c17x/%d" % ctx.seed)
    r.shuffle(ex)
    for p in ex[:ctx.scale(8, 60)]:
        work.append((os.path.basename(p), [l for l in open(p, errors="replace").read().split("\n")][:60], 0))
    def slowly(e, text, cwd, env):
        """the input arrives in pieces through a pipe, the output leaves through one"""
        p = subprocess.Popen([e, "shell"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=cwd, env=dict(os.environ, **env))
        import threading, time
        def feed():
            b = text.encode("latin-1", "replace"); rr = random.Random(len(b)); i = 0
            try:
                while i < len(b):
                    k = rr.choice([1, 7, 50, 400, 3000]); p.stdin.write(b[i:i + k]); p.stdin.flush(); i += k
                    if rr.random() < 0.1: time.sleep(0.001)
                p.stdin.close()
            except BrokenPipeError: pass
        t = threading.Thread(target=feed); t.start()
        out = p.stdout.read(); t.join()
        return p.wait(), out
    def go(iw):
        i, (what, s, _) = iw
        text = "".join(l + "\n" for l in s)
        runs = {}
        a = core.run([exe["base"], "shell"], text, timeout=300)
        if a.timeout: return iw, None, runs
        if what != "gen":
            n = "shipped"
            b = core.run([exe[n], "shell"], text, timeout=300)
            c = core.run(["setarch", "-R", "./elsewhere/" + n, "shell"], text, timeout=300, cwd=d, env=env2(i + 1))
            runs["shipped-again"] = (b, c)
        for n in ("o0-pattern", "clang-zero", "clang-pattern"):
            if what == "gen" or i % 2 == 0: runs[n] = (a, core.run([exe[n], "shell"], text, timeout=600))
        runs["environment"] = (a, core.run([d + "/elsewhere/base", "shell"], text, timeout=300, cwd="/", env=env2(i + 1)))
        if i % 3 == 0: runs["no-randomisation"] = (a, core.run(["setarch", "-R", exe["base"], "shell"], text, timeout=300, cwd=d, env={"FILL": "y" * 3000}))
        if i % 3 == 1:
            rc, out = slowly(exe["base"], text, d, {"LC_ALL": "C"})
            b = core.Result(); b.rc, b.out, b.err, b.timeout, b.wall = rc, out, b"", False, 0
            runs["pipes"] = (a, b)
        if what == "gen" and i % 2 == 0 or ctx.thorough: runs["msan"] = (a, core.run([exe["msan"], "shell"], text, timeout=900))
        return iw, a, runs
    for (i, (what, s, _)), a, runs in core.pmap(go, list(enumerate(work))):
        text = "\n".join(s)
        if a is None: ctx.inconclusive += 1; continue
        ctx.count("output_lines", a.out.count(b"\n"))
        ctx.distinct(hash(a.out))
        for n, (x, y) in runs.items():
            if x.timeout or y.timeout: ctx.inconclusive += 1; continue
            ctx.evaluations += 1
            ctx.count("runs_" + n.replace("-", "_"))
            if b"MemorySanitizer" in y.err:
                ctx.violation("uninitialised-" + core.san_key(y.err), "output or control flow depends on uninitialised memory: %s" % y.err.decode("latin-1")[:2500], {"script": text}); continue
            if x.out != y.out or x.rc != y.rc:
                lx, ly = x.out.split(b"\n"), y.out.split(b"\n")
                k = next((k for k in range(min(len(lx), len(ly))) if lx[k] != ly[k]), min(len(lx), len(ly)))
                ctx.violation("differs-" + n, "status %s/%s, first difference in output line %d: %r against %r" % (x.rc, y.rc, k + 1, lx[k:k + 1], ly[k:k + 1]), {"script": text})
    ctx.sample({"session": work[0][1][:8]}); ctx.sample({"session": work[-1][0]})
    ctx.rule = "byte-identical output and status of the unmodified program over generated sessions and shipped examples, against re-runs with another environment, locale, clock, address layout, file name, input timing, compiler, optimisation, contents of uninitialised variables; non-trivial: distinct outputs"
    ctx.assumptions = ["environments: those differences a user process can have here (no other kernel or C library)"]
