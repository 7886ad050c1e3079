"""C15: every decision suggested in goal-rich sessions is recomputed from memory (all implications, all precondition events, the
veto by other goals); the best is executed once through instrumented actions, with exactly one truthful report and feedback."""
import random, re
from vlib import build, core, stress, mon, nal
from checks.c20 import chains
MIN = 2000
WRAPS = ["Decision_Suggest", "Decision_Execute", "NAR_AddInputBelief", "PriorityQueue_PopMax", "Cycle_Perform"]
OPS = ["^left", "^right", "^pick", "^go", "^say", "^deactivate"]

def skilled(r, n):
    """procedural knowledge with competing operations, arguments, variables, values, vetoing goals; goals and preconditions"""
    out = []
    k = r.random()
    if k < 0.35: out.append("*motorbabbling=false")
    elif k < 0.6: out.append("*motorbabbling=%s" % r.choice(["0.05", "0.5", "0.9", "1.0"]))
    if r.random() < 0.3: out.append("*babblingops=%d" % r.randrange(1, 11))
    if r.random() < 0.35: out.append("*decisionthreshold=%s" % r.choice(["0.6", "0.55", "0.75", "0.3", "0.501", "0.9"]))
    if r.random() < 0.4: out += ["*setoparg %d %d %s" % (r.randrange(1, 11), 1, r.choice(["ball", "red", "{x}", "(a * b)"]))]
    if r.random() < 0.2: out += ["*setoparg 3 1 {a}", "*setoparg 3 2 (b * c)"]
    if r.random() < 0.4: out += ["*setvalue %s_%d.0 %s %d" % (q, v, q, v) if False else "*similaritydistance=%s" % r.choice(["1.0", "5.0", "0.5"])]
    if r.random() < 0.3: out.append("@failevery\t%d" % r.choice([2, 3, 5]))
    ob = ["o1", "o2", "o3", "{t1}"]
    props = ["p", "q", "w"]
    def cond(v=False):
        s = r.choice(["$1", "#1"] if v else ob)
        k = r.random()
        if k < 0.4: return "<%s --> [%s]>" % (s, r.choice(props))
        if k < 0.6: return "<(%s * %s) --> at>" % (s, r.choice(ob))
        if k < 0.75: return "<%s --> %s>" % (s, r.choice(props))
        return r.choice(["a", "b", "c", "d"])
    def op(v=False):
        k = r.random()
        if k < 0.5: return r.choice(OPS)
        if k < 0.75 or not v: return "<({SELF} * %s) --> %s>" % (r.choice(ob + ["x"]), r.choice(OPS))
        if k < 0.95: return "<({SELF} * $1) --> %s>" % r.choice(OPS)
        return "<({%s} * x) --> %s>" % (r.choice(["OTHER", "$1"]), r.choice(OPS))
    goals = [cond(r.random() < 0.3) for _ in range(r.choice([2, 4, 7]))] + ["g", "h"]
    while len(out) < n:
        k = r.random()
        if k < 0.22:
            v = r.random() < 0.4
            out.append("<(%s &/ %s) =/> %s>.%s" % (cond(v), op(v), r.choice(goals), stress.truthy(r, r.random() < 0.3)))
        elif k < 0.26: out.append("<%s =/> %s>." % (cond(), r.choice(goals)))
        elif k < 0.30: out.append(("<((%s &/ %s) &/ %s) =/> %s>." % (cond(), cond(), op(), r.choice(goals))).replace("{t1}", "t2"))
        elif k < 0.58: out.append("%s. :|:%s" % (cond(), stress.truthy(r)))
        elif k < 0.84: out.append("%s! :|:%s" % (r.choice(goals).replace("$1", r.choice(ob)).replace("#1", r.choice(ob)) if r.random() < 0.9 else r.choice(goals), stress.truthy(r)))
        elif k < 0.87: out.append("%s! :|: {0.0 0.9}" % r.choice(goals))
        elif k < 0.92: out.append("%s. :|:" % op().replace("{OTHER}", "{SELF}"))
        else: out.append(str(r.randrange(1, 6)))
    return out

def valued(r, n):
    """preconditions with numeric values, which match by similarity; several hypotheses at different distances"""
    out = ["*motorbabbling=%s" % r.choice(["false", "0.1"]), "*similaritydistance=%s" % r.choice(["2", "6", "20"]), "*decisionthreshold=%s" % r.choice(["0.501", "0.55", "0.6"])]
    OPS = r.choice([["^left", "^right", "^pick", "^go", "^say", "^deactivate"], ["^left", "^deactivate"], ["^deactivate", "^deactivate", "^left"]])
    vals = [r.randrange(0, 30) / 2 for _ in range(8)]
    for v in vals: out.append("*setvalue %.1f 10 %s" % (v, "num"))
    c = lambda: r.choice(["<x --> num_%.1f>", "<(x * num_%.1f) --> at>", "<num_%.1f --> [p]>"][:r.choice([1, 3])]) % r.choice(vals)
    for _ in range(r.randrange(2, 8)): out.append("<(%s &/ %s) =/> %s>.%s" % (c(), r.choice(OPS), r.choice(["g", "h"]), stress.truthy(r)))
    while len(out) < n:
        k = r.random()
        if k < 0.45: out.append("%s. :|:%s" % (c(), stress.truthy(r)))
        elif k < 0.85: out.append("%s! :|:%s" % (r.choice(["g", "g", "h"]), stress.truthy(r)))
        elif k < 0.93: out.append("<(%s &/ %s) =/> %s>." % (c(), r.choice(OPS), r.choice(["g", "h"])))
        else: out.append(str(r.randrange(1, 4)))
    return out

def report(ctx, s, res):
    """printed executions against the calls that happened"""
    last = None; pend = None
    for kind, x in mon.stream(res):
        if kind == "out":
            m = re.match(r"(\^\S+) executed with args ?(.*)$", x)
            if m:
                if pend: ctx.violation("report-without-execution", "'%s' was printed, the action was not called" % pend[2], {"script": "\n".join(s)}); return
                pend = (m.group(1), m.group(2).strip(), x)
            m = re.match(r"decision expectation=(\S+) implication: ", x)
            if m: ctx.count("printed_decisions")
        elif kind == "rec" and x.get("k") == "act":
            if not pend: ctx.violation("silent-execution", "operation %s(%s) was executed without a report" % (x["op"], x["args"]), {"script": "\n".join(s)}); return
            args = nal.show(nal.dec(x["args"])) if x["args"] else ""
            if pend[0] != x["op"] or pend[1] != args:
                ctx.violation("other-report", "'%s' was printed for %s(%s)" % (pend[2], x["op"], args), {"script": "\n".join(s)}); return
            ctx.count("reports"); pend = None

def chance(ctx, exe):
    """the share of goals which motor babbling answers is the configured chance; every configured operation is tried"""
    for ch, bops in ((0.0, 10), (0.2, 3), (0.5, 10), (1.0, 1), (0.9, 5)):
        scripts = []
        for i in range(8):
            r = random.Random("c15b/%d/%s/%d" % (ctx.seed, ch, i))
            s = ["*motorbabbling=%s" % ch, "*babblingops=%d" % bops] + (["*setoparg 2 1 u", "*setoparg 2 2 v"] if i % 2 else [])
            for _ in range(150 + i): s += ["g%d! :|:" % r.randrange(3)] + (["%d" % r.randrange(1, 4)] if r.random() < 0.3 else [])
            scripts.append(s)
        before = dict(ctx.counts)
        stress.run(ctx, exe, scripts, ("C15",), "babble-%s" % ch)
        d = lambda k: ctx.counts.get(k, 0) - before.get(k, 0)
        n, k = d("babble_trials"), d("babble_hits")
        if n < 500: ctx.violation("babble-trials", "only %d goals were pursued" % n)
        sd = (n * ch * (1 - ch)) ** 0.5
        if abs(k - n * ch) > 6 * sd + n * 0.005:
            ctx.violation("babbling-chance", "%d of %d goals were answered by motor babbling, the chance is %s" % (k, n, ch), {"script": "\n".join(scripts[0])})
        for o in range(1, 11):
            c = d("babble_%d" % o)
            if o > bops and c or o <= bops and k >= 400 and c < k / bops / 3:
                ctx.violation("babbling-share", "motor babbling tried operation %d of %d %d times of %d" % (o, bops, c, k), {"script": "\n".join(scripts[0])})

def run(ctx):
    plan = [("big", 24, 260), ("mid", 16, 240), ("tiny", 6, 200)]
    if ctx.thorough: plan = [(c, 5 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_dec.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "dec")
    for cfg, n, lines in plan:
        scripts = [skilled(random.Random("c15/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [chains(random.Random("c15c/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 2)]
        scripts += [stress.mixed("c15/%d/%s" % (ctx.seed, cfg), i, lines, kinds="goals") for i in range(n // 4)]
        scripts += [valued(random.Random("c15v/%d/%s/%d" % (ctx.seed, cfg, i)), lines // 2) for i in range(n // 2)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C15",), cfg, timeout=400):
            report(ctx, s, res)
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    chance(ctx, exes["mid"])
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "decision = best candidate recomputed, threshold, veto; babbling only when enabled, among the configured, with the configured chance; one action, one report, one feedback"
    ctx.assumptions = ["between candidates of equal desire any is accepted", "the result-product protocol of *setopstdin is covered by C29"]
