"""C01: sanitizer-watched hostile sessions. ASan+UBSan (and MSan) builds of the unchanged program are fed
hostile, well-formed and mixed shell scripts; every process must end with exit 0 (all lines processed) or with
the reasoner's own rejection ("Test failed." and exit 1). Anything else - sanitizer report, signal, other exit
status, no progress - is a violation. Scripts of well-formed lines only must end with exit 0."""
import random, zlib
from vlib import build, core, gen

MIN = 400

def hostile(seed, i):
    r = random.Random("c01/%s/%d" % (seed, i))
    g = gen.Grammar(r)
    L = []
    for _ in range(r.choice([1, 3, 10, 30])):
        k = r.random()
        if k < 0.35: L.append(gen.sentence(r, g))
        elif k < 0.5: L.append(gen.soup(r))
        elif k < 0.6: L.append(gen.soup(r, r.randrange(1, 8)) + r.choice([". :|:", ".", "!", "?", "{1 0.9}", " %1%", ". {1 2}"]))
        elif k < 0.65: L.append(gen.rawbytes(r))
        elif k < 0.9:
            c = gen.command_fill(r, r.choice(gen.COMMANDS), r.random() < 0.6)
            if c.strip().lstrip("-").isdigit() and abs(int(c)) > 200: c = "3"
            L.append(c)
        else:
            n = r.choice([3, 5, 6, 7, 8, 20, 100, 300])
            o = r.choice(["(", "<", "{", "[", "(* ", "(&/ a "])
            L.append((o * n + "a" + r.choice([")", ">", "}"]) * r.choice([n, n, n - 1, 0]) + "."))
    if r.random() < 0.02:
        return "\n".join(L)          # no final newline
    return "\n".join(L) + "\n"

def valid(seed, i):
    """well-formed lines only, all kinds, long enough to fill the small memory"""
    r = random.Random("c01v/%s/%d" % (seed, i))
    g = gen.Grammar(r, depth=r.choice([2, 2, 3]))
    L = ["*volume=%d" % r.choice([0, 100])]
    for _ in range(r.choice([5, 40, 120])):
        k = r.random()
        if k < 0.75: L.append(gen.sentence(r, g))
        elif k < 0.9: L.append(str(r.choice([1, 1, 2, 5, 15])))
        elif k < 0.93: L.append(r.choice(["*stats", "*concepts", "*cycling_belief_events", "*cycling_goal_events", "*inverted_atom_index", "*opconfig"]))
        elif k < 0.96: L.append("*motorbabbling=%s" % r.choice(["0.9", "0.1", "true", "false"]))
        elif k < 0.98: L.append(r.choice(["*reset", "*concurrent"]))
        else: L.append("*setvalue %.1f %d %s" % (r.random() * 10, r.randrange(2, 10), r.choice(gen.ATOMS)))
    return "\n".join(L) + "\n"

LONG = [0, 1, 2, 9, 10, 11, 12, 19, 20, 21, 63, 64, 65, 127, 128, 129, 999, 1000, 1001, 1002, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297,
        9223372036854775806, 9223372036854775807, 9223372036854775808, 18446744073709551615, 18446744073709551616]
REAL = ["0", "1", "0.5", "0.999999", "1.0000001", "0.99", "0.01", "-0.000001", "-1", "2", "1e308", "1e309", "-1e309", "1e-320", "nan", "inf", "-inf", "x", "", ".", "0x1p-3", "0,5"]
def edges():
    """one command or sentence with one argument at, just below and just above a limit, amid ordinary use"""
    out = []
    after = ["a. :|:", "<(a &/ ^left) =/> b>.", "b! :|:", "2", "*opconfig", "*stats", "b?"]
    def add(l, *more): out.append("\n".join(["a. :|:"] + [l] + list(more) + after) + "\n")
    ints = sorted(set(LONG + [-x for x in LONG]))
    for c in gen.COMMANDS:
        n = c.count("%d")
        if c == "%d": continue
        for k in range(n):
            for v in ints:
                l, i = c, 0
                while "%d" in l:
                    l = l.replace("%d", str(v if i == k else 1), 1); i += 1
                add(l.replace("%f", "0.5").replace("%s", "^x" if "opname" in c else "x"))
        for k in range(c.count("%f")):
            for v in REAL: add(c.replace("%d", "1").replace("%f", v, 1).replace("%f", "0.5").replace("%s", "x"))
    for v in ints:
        if not 100 < v < 1 << 31: add(str(v))
    for v in REAL:
        add("c. {%s 0.9}" % v); add("c. {0.9 %s}" % v); add("c. :|: {%s %s}" % (v, v)); add("dt=%s <a =/> b>." % v); add("dt=%s <(a &/ ^left) =/> b>." % v, "a. :|:"); add("c. :|: {%s}" % v)
    for n in range(28, 36): add("%s." % ("n" * n)); add("<%s --> [%s]>." % ("k" * n, "m" * n)); add("*setvalue 5 10 %s" % ("n" * n), "*space 10 %s" % ("n" * n)); add("*setopname 1 ^%s" % ("o" * n))
    for n in list(range(1, 14)) + [40, 100]:
        add("*stampimport=[%s]" % ",".join(str(i + 1) for i in range(n)), "c."); add("*stampimport=[%s]" % ",".join(["123456789012345678"] * n), "c.")
        add("(%s)." % " * ".join("abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n)))
        add("(%s). :|:" % " &/ ".join("abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n))); add("(%s)! :|:" % " &/ ".join("abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n)))
        add("{%s}." % " ".join("e%d" % i for i in range(n)))
        for o, e in (("(! ", ")"), ("{", "}"), ("<", " --> b>"), ("<b --> ", ">"), ("(a * ", ")"), ("(", " &/ a)"), ("(a && ", ")"), ("<a ==> ", ">"), ("<", " =/> a>")):
            add(o * n + "x" + e * n + "."); add(o * n + "x" + e * n + "? :|:")
        for v in "$#?": add("<(%s) --> r>." % " * ".join("%s%d" % (v, i + 1) for i in range(min(n, 12)))); add("<<%s%d --> a> ==> <%s%d --> b>>." % (v, n, v, n), "<x --> a>.", "3")
    for n in range(2138, 2156): add("a" * n + "."); add("*space 1 " + "b" * n); add("*query 0.5 " + "(" * (n // 2) + "?"); add("//" + "c" * n); add(" " * n + "a."); add("<a --> b>" + " " * n + ".")
    return out

def interesting(i, s, res):
    """what makes a run non-trivial: the reasoner did work or had to reject"""
    o = res.out
    return (res.rc, o.count(b"Derived:") // 10, o.count(b"executed"), o.count(b"Answer:"), len(s) // 50, zlib.crc32(o[-200:]) & 0xff)

def examples_script(r, files, n):
    L = []
    for name, lines in r.sample(files, min(n, len(files))):
        L.append("*reset")
        for l in lines:
            t = l.strip()
            if t == "quit" or t == "": continue
            if t.lstrip("-").isdigit() and abs(int(t)) > 60: t = "60"
            L.append(t)
    return "\n".join(L) + "\n"

def run(ctx):
    small = build.build("asan", keep_main=True, config={"CONCEPTS_MAX": 64}, name="asan-small")
    gsan = build.build("gasan", keep_main=True, config={"CONCEPTS_MAX": 64}, name="gasan-small")
    msan = build.build("msan", keep_main=True, config={"CONCEPTS_MAX": 64}, name="msan-small")
    tiny = build.build("asan", keep_main=True, config={"CONCEPTS_MAX": 64, "CYCLING_BELIEF_EVENTS_MAX": 10, "CYCLING_GOAL_EVENTS_MAX": 10, "OCCURRENCE_TIME_INDEX_SIZE": 16,
                       "TABLE_SIZE": 4, "ATOMS_MAX": 256}, name="asan-tiny")
    seed = ctx.seed
    jobs = []
    nh, nv = ctx.scale(1600, 30000), ctx.scale(260, 4000)
    jobs += [("hostile-asan", small, hostile(seed, i), False, i) for i in range(nh)]
    jobs += [("hostile-msan", msan, hostile("m%s" % seed, i), False, i) for i in range(nh // 3)]
    jobs += [("valid-asan", small, valid(seed, i), True, i) for i in range(nv)]
    jobs += [("valid-tiny", tiny, valid("t%s" % seed, i), False, i) for i in range(nv // 2)]
    jobs += [("valid-msan", msan, valid("m%s" % seed, i), True, i) for i in range(nv // 4)]
    files = gen.example_lines()
    r = ctx.rng
    E = edges()
    jobs += [("edges-gcc", gsan, e, False, i) for i, e in enumerate(E)]
    jobs += [("hostile-gcc", gsan, hostile("g%s" % seed, i), False, i) for i in range(nh // 3)]
    jobs += [("valid-gcc", gsan, valid("g%s" % seed, i), True, i) for i in range(nv // 4)]
    if ctx.thorough: jobs += [("edges-asan", small, e, False, i) for i, e in enumerate(E)]
    else: jobs += [("edges-asan", small, e, False, i) for i, e in enumerate(r.sample(E, 600))]
    E = r.sample(E, ctx.scale(160, len(E)))
    jobs += [("edges-msan", msan, e, False, i) for i, e in enumerate(E)]
    for i in range(ctx.scale(16, 200)):
        jobs.append(("examples-asan", small, examples_script(r, files, 4), None, i))
    order = list(range(len(jobs)))
    order.sort(key=lambda k: 0 if "examples" in jobs[k][0] else 1 if "valid" in jobs[k][0] else 2)
    def go(k):
        kind, exe, s, ok, i = jobs[k]
        res = core.run([exe, "shell"], s, timeout=150, out_limit=64 << 20)
        if res.timeout:      # a loaded machine is not a hang: confirm alone with much more time
            res = core.run([exe, "shell"], s, timeout=300, out_limit=1 << 20)
        summary = interesting(i, s, res)
        out_tail = res.out[-3000:]
        n_derived = res.out.count(b"Derived:")
        rej = b"Test failed" in res.out[-4000:]
        return k, res.rc, res.timeout, res.err[:6000], out_tail, summary, n_derived, rej
    for k, rc, to, err, tail, summary, nd, rej in core.pmap(go, order):
        kind, exe, s, ok, i = jobs[k]
        ctx.evaluations += 1
        ctx.count("runs_" + kind.replace("-", "_"))
        ctx.count("lines", s.count("\n"))
        ctx.count("derivations_watched", nd)
        files_ = {"script": s, "stderr": err, "stdout tail": tail}
        if to:
            ctx.violation("hang-%s" % kind, "the process made no progress in 300 s (%s)" % kind, files_)
        elif rc == 0:
            ctx.count("processed")
        elif rc == 1 and rej:
            ctx.count("rejected")
            if ok:
                ctx.violation("valid-rejected-%s" % tail.decode("latin-1").rsplit("Test failed", 1)[0].strip().split("\n")[-1][-60:], "a script of well-formed lines was rejected (%s)" % kind, files_)
        else:
            ctx.violation(core.san_key(err) if rc in (-6, 1, 77, 86) and err else "rc%d" % rc, "exit status %s (%s): %s" % (rc, kind, err.decode("latin-1")[:400]), files_)
        ctx.distinct(summary)
        if k % 400 == 7:
            ctx.sample(s[:300])
    ctx.rule = ("hostile scripts (token soup, raw bytes, broken nesting, hostile command arguments), well-formed scripts and example files, each run in an ASan+UBSan or MSan build with 64 concepts; "
                "distinct by (exit, derivation count/10, executions, answers, size, output tail)")
    ctx.assumptions += ["one line is at most 1024 bytes long in the shell (longer ones are split by fgets)", "assertion failure with message and exit status 1 is the documented rejection"]
