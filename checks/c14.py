"""C14: whenever an observed event is processed, the temporal implications and sequences learned from it are compared with those the
events held in memory license."""
import random
from vlib import build, stress, nal
from checks.c16 import stream as hypotheses
MIN = 2000
WRAPS = ["NAL_DerivedEvent", "RuleTable_Apply", "Decision_Anticipate", "PriorityQueue_PopMax", "Cycle_Perform", "Memory_AddInputEvent", "Memory_INIT"]

def observe(r, n):
    """events, operations and pauses around the window; concurrency, weak and negative evidence, shared evidence, sequences, long terms"""
    ev = ["a", "b", "c", "d", "<x --> [p]>", "<y --> [p]>", "<(x * y) --> r>", "(--, a)", "{a}", "<<a --> b> --> c>"][:r.choice([3, 5, 8, 10])]
    big = ["((a * b) * (c * d))", "<((a * b) * (c * d)) --> r>", "<(a * (b * (c * d))) --> [r]>", "(a &/ b)", "((a &/ b) &/ c)", "(a && b)", "<a ==> b>", "<a <=> b>", "<a |-> [p]>", "<(a * b) |-> p>"]
    ops = ["^left", "^deactivate", "<({SELF} * x) --> ^go>", "<({SELF} * y) --> ^pick>", "^unknown", "<({other} * x) --> ^go>"]
    out = ["*motorbabbling=%s" % r.choice(["false"] * 5 + ["0.2"])]
    mode = r.choice(["plain", "plain", "concurrent", "pauses", "stamps", "weak"])
    stamp = 500
    while len(out) < n:
        k = r.random()
        if mode == "concurrent" and k < 0.3: out.append("*concurrent")
        if mode == "stamps" and k < 0.4:
            stamp += r.choice([0, 0, 1, 2])
            out.append("*stampimport=[%s]" % ",".join(str(stamp + 3 * i) for i in range(r.choice([1, 2, 5, 10]))))
        t = stress.truthy(r, mode == "weak" and r.random() < 0.5)
        if k < 0.62: out.append("%s. :|:%s" % (r.choice(ev), t))
        elif k < 0.84: out.append("%s. :|:%s" % (r.choice(ops[:r.choice([2, 4, 6])]), t if r.random() < 0.3 else ""))
        elif k < 0.88: out.append("%s. :|:" % r.choice(big))
        elif k < 0.90: out.append("%s.%s" % (r.choice(ev), t))
        elif mode == "pauses": out.append(str(r.choice([1, 2, 3, 8, 17, 18, 19, 20, 21])))
        elif k < 0.95: out.append(str(r.choice([1, 1, 2, 3, 5])))
        elif k < 0.955: out.append("*currenttime=%d" % r.choice([1, 10, 50, 400]))
        elif k < 0.965: out.append("*reset")
        elif k < 0.97: out.append("*restrictedconceptcreation=%s" % r.choice(["true", "false", "false"]))
    return out

def run(ctx):
    plan = [("big", 26, 160), ("mid", 26, 160), ("tiny", 8, 160), ("one", 3, 100)]
    if ctx.thorough: plan = [(c, 6 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_tmp.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "tmp")
    for cfg, n, lines in plan:
        scripts = [observe(random.Random("c14/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [hypotheses(random.Random("c14h/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 4)]
        scripts += [stress.mixed("c14m/%d/%s" % (ctx.seed, cfg), i, lines, kinds=["temporal", "goals", "mixed"][i % 3]) for i in range(n // 4)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C14",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "learned implications and sequences are exactly those of event pairs (with an operation in between) in memory within 20 steps, of disjoint evidence, in order, with the delay, truth and evidence observed"
    ctx.assumptions = ["completeness is required where no concept was evicted while the event was processed, and for events the occurrence time index holds (always for inputs as long as it did not wrap)"]
