"""C08: (a) random operation sequences on the priority queue against a reference collection; (b) the laws of every push,
pop and rebuild of the live attention buffers and the concept store while the reasoner runs."""
from vlib import build, core, mon, stress
MIN = 3000

def ds(ctx, exe, args, props):
    res = core.run([exe] + [str(a) for a in args], timeout=600)
    for x in mon.records(res):
        if x.get("k") == "v" and x["p"] in props:
            ctx.violation("ds-" + x["key"], "%s (ds %s)" % (x["msg"], args), {"args": str(args)})
        elif x.get("k") == "sum":
            for k, v in x.items():
                if k != "k": ctx.count(k, v); ctx.evaluations += v
            ctx.distinct(str(x))
    mon.died(ctx, res, "ds %s" % args, "ds")

def run(ctx):
    exe = build.build("asan", ["ds.c"], ["Globals_assert"], {"CONCEPTS_MAX": 64, "ATOMS_MAX": 400, "ATOMS_HASHTABLE_BUCKETS": 5}, name="ds-asan")
    core.pmap(lambda i: ds(ctx, exe, [ctx.seed * 1000 + i, ctx.scale(400, 6000), "pq"], ("C08",)), range(8))
    plan = [("tiny", 16, 250), ("one", 8, 200), ("mid", 8, 300)]
    exes = build.monitors("mon", ["w_pq.c", "walk.c"], stress.PQ, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "pq")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = [stress.mixed("c08/%d/%s" % (ctx.seed, cfg), i, lines * ctx.scale(1, 3)) for i in range(n * ctx.scale(1, 3))]
        stress.run(ctx, m, scripts, ("C08",), cfg, timeout=400)
    ctx.sample({"first_lines": scripts[0][:5]})
    ctx.rule = "pop-max maximal, pop-min minimal, push refuses/evicts by rank, nothing else lost, no storage shared: after each operation of random sequences (capacities 1..64, ties) and of live sessions"
    ctx.assumptions = ["priorities of distinct items may be equal; which of several equal ones is taken is left open"]
