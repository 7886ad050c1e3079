"""C10: (a) random additions, revisions and removals on the real implication table against a reference table; (b) every
table of every concept after every line of overflowing sessions; (c) every use of an implication: its precondition is held."""
import random
from vlib import build, core, stress
from checks.c08 import ds
MIN = 3000

def relearn(r, n):
    """the same few implications again and again while other content pushes their preconditions out of memory"""
    imps = ["<(p%d &/ %s) =/> q%d>." % (r.randrange(4), r.choice(["^left", "^deactivate"]), r.randrange(2)) for _ in range(5)] + ["<p1 =/> q0>."]
    out = []
    while len(out) < n:
        k = r.random()
        if k < 0.05: out.append(r.choice(imps))
        elif k < 0.25: out += ["p%d. :|:" % r.randrange(4)] + (["%s. :|:" % r.choice(["^left", "^deactivate"])] if r.random() < 0.6 else []) + ["q%d. :|:" % r.randrange(2)]
        elif k < 0.4: out.append("q%d. :|:" % r.randrange(2))
        elif k < 0.5: out.append("q%d! :|:" % r.randrange(2))
        elif k < 0.6: out.append("p%d. :|:" % r.randrange(4))
        else: out.append("<y%d --> z%d>. :|:" % (r.randrange(400), r.randrange(400)) if r.random() < 0.7 else "<y%d --> z%d>." % (r.randrange(100), r.randrange(100)))
    return out

def run(ctx):
    for size in (20, 3, 1):
        cfg = {"CONCEPTS_MAX": 64, "ATOMS_MAX": 400, "ATOMS_HASHTABLE_BUCKETS": 5, "TABLE_SIZE": size}
        exe = build.build("mon", ["ds.c"], ["Globals_assert"], cfg, name="ds-t%d" % size)
        core.pmap(lambda i: ds(ctx, exe, [ctx.seed * 1000 + i, ctx.scale(300, 4000), "tb"], ("C10",)), range(4))
    plan = [("tiny", 16, 260), ("one", 8, 200), ("mid", 14, 300), ("big", 6, 300)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_ev.c", "walk.c"], stress.EV, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "ev")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = [stress.mixed("c10/%d/%s" % (ctx.seed, cfg), i, lines, kinds=["any", "goals", "temporal", "mixed"][i % 4]) for i in range(n)]
        scripts += [relearn(random.Random("c10r/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 2)]
        for s, res, rec in stress.run(ctx, m, scripts, ("C10",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct("%s/%d" % (cfg, x.get("implications", 0)))
    ctx.sample({"first_lines": scripts[0][:5]})
    ctx.rule = "capacity, order by expectation, no duplicates, slot, consequence, pooling, displacement of the weakest only; nothing outdated used"
    ctx.assumptions = ["operator slots are those registered at start in the sessions walked"]
