"""C16: around every anticipation, all hypotheses, predictions and beliefs before and after are compared with what the definition
of anticipation gives for them; scripted successes and failures have to raise and lower the expectation of the hypothesis."""
import random
from vlib import build, stress, mon, nal
from checks.c20 import chains
from checks.c15 import skilled
MIN = 2000
WRAPS = ["Decision_Anticipate", "PriorityQueue_PopMax", "Cycle_Perform"]

def stream(r, n):
    """events and operations in a small world, hypotheses about it with different delays, arguments and variables; implications"""
    ev = ["a", "b", "c", "<x --> [p]>", "<y --> [p]>", "<(x * y) --> r>", "(a &/ b)"][:r.choice([3, 5, 7])]
    g = ["d", "e", "<x --> [q]>", "<y --> [q]>"]
    ops = ["^left", "^deactivate", "<({SELF} * x) --> ^go>", "<({SELF} * y) --> ^go>", "<({SELF} * x) --> ^pick>"]
    v = ["<$1 --> [p]>", "<($1 * y) --> r>", "<$1 --> s>"]
    out = ["*motorbabbling=false"] if r.random() < 0.8 else []
    if r.random() < 0.2: out.append("*concurrent")
    def hyp():
        k = r.random()
        if k < 0.25: return "<%s =/> %s>" % (r.choice(ev), r.choice(g + ev[:3]))
        if k < 0.55: return "<(%s &/ %s) =/> %s>" % (r.choice(ev[:-1]), r.choice(ops), r.choice(g))
        if k < 0.75: return "<(%s &/ %s) =/> <$1 --> [q]>>" % (r.choice(v), r.choice(["<({SELF} * $1) --> ^go>", "^left", "<({SELF} * x) --> ^go>"]))
        if k < 0.85: return "<%s =/> <$1 --> [q]>>" % r.choice(v)
        return "<((%s &/ %s) &/ %s) =/> %s>" % (r.choice(ev[:3]), r.choice(ev[:3]), r.choice(ops), r.choice(g))
    for _ in range(r.randrange(0, 8)): out.append("%s.%s" % (hyp(), stress.truthy(r)))
    while len(out) < n:
        k = r.random()
        if k < 0.10: out.append("%s.%s" % (hyp(), stress.truthy(r, r.random() < 0.4)))
        elif k < 0.16: out.append("dt=%s %s.%s" % (r.choice(["0", "1", "2.5", "7", "40", "1.999", "100", "-3"]), hyp(), stress.truthy(r)))
        elif k < 0.22: out.append("<%s ==> %s>.%s" % (r.choice(ev[:4]), r.choice(g + ev[:4]), stress.truthy(r)))
        elif k < 0.24: out.append("<<$1 --> [p]> ==> <$1 --> [q]>>.")
        elif k < 0.60: out.append("%s. :|:%s" % (r.choice(ev + ev + g), stress.truthy(r, r.random() < 0.1)))
        elif k < 0.80: out.append("%s. :|:" % r.choice(ops))
        elif k < 0.83: out.append("%s! :|:" % r.choice(g))
        elif k < 0.85 and r.random() < 0.3: out.append("*currenttime=%d" % r.choice([1, 30, 100, 5]))
        else: out.append(str(r.choice([1, 1, 2, 3, 10, 25])))
    return out

def laws(ctx, exe):
    """repeated success keeps raising the expectation, each failure lowers frequency, a success outweighs a failure"""
    scripts = []
    for i in range(48 if not ctx.thorough else 300):
        r = random.Random("c16l/%d/%d" % (ctx.seed, i))
        pre, post = r.choice([("a", "b"), ("light", "food"), ("s1", "g")])
        op = r.choice([None, "^left", "^say"])
        gap, d1, d2 = r.randrange(25, 60), r.randrange(0, 4), r.randrange(0, 4)
        s = ["*motorbabbling=false"]; plan = []
        steps = lambda n: [str(n)] if n else []
        succ = r.randrange(2, 12); fail = r.randrange(1, 8); again = r.randrange(1, 5)
        for kind, n in (("s", succ), ("f", fail), ("s", again)):
            for _ in range(n):
                s += ["%s. :|:" % pre] + steps(d1)
                if op: s += ["%s. :|:" % op] + steps(d2)
                if kind == "s": s += ["%s. :|:" % post]
                s += [str(gap), "@imps"]; plan.append(kind)
        scripts.append((stress.aged(s, 5000000000) if i % 7 == 3 else s, plan, (pre, op, post)))
    byscript = {id(s): (p, t) for s, p, t in scripts}
    for s, res, rec in stress.run(ctx, exe, [s for s, p, t in scripts], ("C16",), "laws", age=False):
        plan, (pre, op, post) = byscript[id(s)]
        want = "<%s =/> %s>" % ("(%s &/ %s)" % (pre, op) if op else pre, post)
        series = []; cur = None
        for x in rec:
            if not isinstance(x, dict): continue
            if x.get("k") == "imp" and nal.show(nal.dec(x["t"])) == want: cur = (x["f"], x["c"])
            if x.get("k") == "imps": series.append(cur); cur = None
        if len(series) != len(plan): ctx.violation("laws-lost", "%d snapshots of %d" % (len(series), len(plan)), {"script": "\n".join(s)}); continue
        exp = lambda v: v[1] * (v[0] - 0.5) + 0.5
        for i, k in enumerate(plan):
            if series[i] is None: ctx.violation("not-learned", "%s is not known after %d observations" % (want, i + 1), {"script": "\n".join(s)}); break
            if i == 0: continue
            a, b = series[i - 1], series[i]
            ctx.count("laws_checked"); ctx.evaluations += 1
            if k == "s" and exp(b) < exp(a) + 1e-12 and b[1] < 0.9899: ctx.violation("success-weakens", "%s: expectation %.9f after %.9f and a success" % (want, exp(b), exp(a)), {"script": "\n".join(s)}); break
            if k == "f" and exp(a) > 0.52 and not (b[0] < a[0] and b[0] > a[0] - 0.2): ctx.violation("failure-strengthens", "%s: frequency %.9f after %.9f and a failure" % (want, b[0], a[0]), {"script": "\n".join(s)}); break

def run(ctx):
    plan = [("big", 14, 220), ("mid", 20, 260), ("tiny", 10, 260), ("one", 4, 150)]
    if ctx.thorough: plan = [(c, 5 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_ant.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "ant")
    for cfg, n, lines in plan:
        scripts = [stream(random.Random("c16/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [chains(random.Random("c16c/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 4)]
        scripts += [[x for x in skilled(random.Random("c16s/%d/%s/%d" % (ctx.seed, cfg, i)), lines) if x[0] != "@"] for i in range(n // 4)]
        scripts += [stress.mixed("c16m/%d/%s" % (ctx.seed, cfg), i, lines, kinds=["temporal", "goals", "mixed"][i % 3]) for i in range(n // 3)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C16",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    laws(ctx, exes["mid"])
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "triggered hypotheses get exactly the induced negative evidence, others none; predictions are exactly those licensed; one anticipation per processed input event; expectation rises with success, frequency falls with failure"
    ctx.assumptions = ["the laws of success and failure are observed with atomic events, which no other inference interferes with", "where predictions evict concepts during the same pass, a hypothesis may stay without evidence but never gets other evidence"]
