"""C32: selected events activate exactly the concepts they match, with what they say; nothing else changes in a cycle outside of additions."""
import random
from vlib import build, core, stress, mon
from checks.c15 import skilled
from checks.c20 import chains
from checks.c31 import statements
MIN = 5000
WRAPS = ["Cycle_Perform", "Memory_AddEvent", "Memory_AddInputEvent", "PriorityQueue_PopMax", "Inference_RevisionAndChoice", "Inference_BeliefIntersection"]

def patterns(r, n):
    """statements, patterns with every kind of variable which they match, and goals for both, over a few names, at times moving both ways"""
    ob = ["a", "b", "c"]
    def inst(): return r.choice(["<%s --> p>", "<(%s * b) --> r>", "<{%s} --> [q]>", "(%s && b)", "<(a * %s) --> r>", "<%s <-> c>"]) % r.choice(ob)
    def pat(): return r.choice(["<%s --> p>", "<(%s * b) --> r>", "<{%s} --> [q]>", "(%s && b)", "<(a * %s) --> r>", "<%s <-> c>"]) % r.choice(["$1", "#1", "?1", "$1", "#1"])
    def two(): return r.choice(["<(%s * %s) --> r>" % tuple(r.choice([["$1", "$2"], ["#1", "#2"], ["#1", "$1"], ["?1", "b"], ["a", "#1"]])), "<#1 --> p>", "<b --> $1>"])
    def seq():
        l = [r.choice([inst, inst, inst, pat])() for _ in range(r.choice([2, 2, 3]))]
        s = l[0]
        for x in l[1:]: s = "(%s &/ %s)" % (s, x)
        return s
    out = ["*motorbabbling=false"] if r.random() < 0.8 else []
    if r.random() < 0.1: out.append("*volume=0")
    while len(out) < n:
        k, s = r.random(), r.choice([inst, inst, pat, two, seq])()
        if k < 0.42: out.append("%s. :|:%s" % (s, stress.truthy(r, r.random() < 0.5)))
        elif k < 0.47: out.append("%s.%s" % (s, stress.truthy(r)))
        elif k < 0.65: out.append("%s! :|:%s" % (s, stress.truthy(r, r.random() < 0.5)))
        elif k < 0.73: out.append("<%s %s %s>." % (r.choice([inst, pat, seq])(), r.choice(["=/>", "==>"]), inst()))
        elif k < 0.79: out.append("<(%s &/ %s) =/> %s>." % (inst(), r.choice(["^left", "<({SELF} * a) --> ^go>"]), inst()))
        elif k < 0.87: out.append("*currenttime=%d" % r.choice([r.randrange(1, 60), r.randrange(1, 60), r.randrange(1, 300), 1]))
        elif k < 0.97: out.append(str(r.choice([1, 1, 2, 5])))
        else: out.append("%s? :|:" % s)
    return out

def run(ctx):
    plan = [("big", 20, 120), ("mid", 20, 120), ("tiny", 16, 120), ("one", 8, 100)]
    if ctx.thorough: plan = [(c, 6 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_act.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "act")
    for cfg, n, lines in plan:
        scripts = [patterns(random.Random("c32/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [stress.mixed("c32m/%d/%s" % (ctx.seed, cfg), i, lines) for i in range(n // 3)]
        scripts += [chains(random.Random("c32c/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 4)]
        scripts += [statements(random.Random("c32t/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 4)]
        scripts += [[l for l in skilled(random.Random("c32s/%d/%s/%d" % (ctx.seed, cfg, i)), lines) if l[0] != "@"] for i in range(n // 4)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C32",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "outside of additions, concepts change exactly as the events selected in the cycle and the anticipations license, and each concept matching a selected event is activated"
    ctx.assumptions = ["which concepts are recalled is by shared atoms in the unification depth", "cycles in which an executed operation's feedback runs another cycle are judged for soundness only"]
