"""C07: the whole memory is walked after every input line, in builds whose stores overflow within a few lines."""
from vlib import build, stress
MIN = 3000
WHAT = ("C07",)

def run(ctx):
    plan = [("tiny", 16, 260), ("one", 16, 200), ("mid", 12, 300), ("big", 4, 350)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["walk.c"], [], {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "walk")
    for cfg, n, lines in plan:
        exe = exes[cfg]
        scripts = []
        for i in range(n):
            s = stress.mixed("c07/%d/%s" % (ctx.seed, cfg), i, lines)
            if i % 4 == 0:      # restarts within a history
                for k in range(2): s.insert(ctx.rng.randrange(len(s)), "*reset")
            scripts.append(s)
        for s, res, rec in stress.run(ctx, exe, scripts, WHAT, cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts":
                    ctx.distinct("%s/%d/%d" % (cfg, x.get("walks_full", 0), x.get("recall_entries", 0)))
        ctx.sample({"config": cfg, "first_lines": scripts[0][:5]})
    ctx.rule = "capacities, index bijections (term lookup, atom recall, time index), free lists and store sizes after every line of %d histories in 4 capacity configurations" % ctx.counts.get("sessions", 0)
    ctx.assumptions = ["capacities are scaled down by editing copies of Config.h; the code is otherwise unchanged", "the walk happens between input lines, not inside of a reasoning step"]
