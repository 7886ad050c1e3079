"""C09: (a) atom interning and the term hash table against reference maps, with forced bucket collisions and full stores;
(b) live sessions with one to five hash buckets: every concept found by its term and only it, cached hashes current."""
from vlib import build, core, stress
from checks.c08 import ds
MIN = 3000

def run(ctx):
    small = build.build("asan", ["ds.c"], ["Globals_assert"], {"CONCEPTS_MAX": 64, "ATOMS_MAX": 400, "ATOMS_HASHTABLE_BUCKETS": 5}, name="ds-asan")
    wide = build.build("asan", ["ds.c"], ["Globals_assert"], {"CONCEPTS_MAX": 64, "ATOMS_MAX": 3000}, name="ds-wide")
    jobs = [(small, [ctx.seed * 1000 + i, ctx.scale(400, 5000), "ht"]) for i in range(8)]
    jobs += [(small, [ctx.seed * 1000 + i, ctx.scale(6, 60), "atom", 700]) for i in range(4)]
    jobs += [(wide, [ctx.seed * 1000 + 50 + i, ctx.scale(3, 30), "atom", 2500]) for i in range(4)]
    core.pmap(lambda j: ds(ctx, j[0], j[1], ("C09",)), jobs)
    plan = [("one", 12, 220), ("tiny", 12, 240)]
    exes = build.monitors("mon", ["walk.c"], [], {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "walk")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = [stress.mixed("c09/%d/%s" % (ctx.seed, cfg), i, lines * ctx.scale(1, 3)) for i in range(n * ctx.scale(1, 3))]
        stress.run(ctx, m, scripts, ("C09", "C07"), cfg, timeout=400)
    ctx.sample({"first_lines": scripts[0][:5]})
    ctx.rule = "lookups equal the reference map after each operation; equal terms hash equally; live concepts found by freshly built terms"
    ctx.assumptions = ["names up to 31 characters"]
