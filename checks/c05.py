"""C05: every combination of evidence in the running reasoner (stamps made, overlap tests, inductions, sequences,
revisions, predictions, conclusions) is judged by an independent stamp model; ids of inputs; stored stamps after each line."""
import os, random
from vlib import build, core, mon, stress
MIN = 3000

def imports(r, s):
    """explicit stamps of other systems, ids that overlap with earlier ones, and multi-id stamps"""
    out = []
    for l in s:
        if l and (l.endswith(".") or ". " in l) and not l.startswith("*") and r.random() < 0.15:
            ids = [r.choice([r.randrange(1, 12), r.randrange(100000, 100200)]) for _ in range(r.choice([1, 1, 2, 5, 10]))]
            ids = list(dict.fromkeys(ids))
            out.append("*stampimport=[%s]" % ",".join(map(str, ids)))
        out.append(l)
    return out

def run(ctx):
    plan = [("tiny", 12, 240), ("mid", 16, 280), ("big", 10, 320)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_ev.c", "walk.c"], stress.EV, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "ev")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = [["<a ==> b>.", "<a ==> b>.", "20"]]
        for i in range(n):
            s = stress.mixed("c05/%d/%s" % (ctx.seed, cfg), i, lines)
            if i % 3 == 0: s = imports(random.Random("c05i/%d/%d" % (ctx.seed, i)), s)
            scripts.append(s)
        for s, res, rec in stress.run(ctx, m, scripts, ("C05",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct("%s/%d" % (cfg, x.get("stamp_combinations", 0)))
        # knowledge formed without learned implications: no id is ever listed twice
        os.environ["WALK_NODUP"] = "1"
        try:
            scripts = [stress.history(random.Random("c05e/%d/%s/%d" % (ctx.seed, cfg, i)), lines, atoms=stress.fresh_atoms(None, [4, 6, 10, 30][i % 4]), kinds={"inh": 6, "rel": 1, "stmt_e": 1, "step": 2}, questions=False) for i in range(n)]
            scripts = [imports(random.Random("c05x/%d/%d" % (ctx.seed, i)), s) if i % 3 == 0 else s for i, s in enumerate(scripts)]
            stress.run(ctx, m, scripts, ("C05",), cfg + "-eternal", timeout=400)
        finally:
            del os.environ["WALK_NODUP"]
    ctx.sample({"first_lines": scripts[0][:5]})
    ctx.rule = "stamp of each result = interleaving of its premises'; no overlapping pair combined; ids fresh; no hole or repetition in stored stamps"
    ctx.assumptions = ["revision of learned implications pools without an overlap test (known finding), so their stamps, and goals and predictions made with them, repeat ids: repetitions are searched in histories without implications", "evidence beyond ten ids is forgotten by design"]
