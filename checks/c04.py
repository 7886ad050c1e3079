"""C04: every truth function of the running code is called on a grid of extreme and random operands and compared with
the definitions in vlib/truth.py; algebraic laws (range, confidence bounds, revision symmetry) are checked on the results
of the code itself."""
import random
from vlib import build, mon, truth as T

MIN = 20000
GF = [0.0, 1.0, 0.5, 0.25, 1e-9, 1 - 1e-9, 0.1, 0.9]
GC = [0.0, 0.5, 0.9, 0.99, 1e-9, 0.01, 0.3]
DED_LIKE = ["Deduction", "Analogy", "Resemblance", "Intersection", "Union", "Difference", "DecomposePNN", "DecomposeNPP", "DecomposePNP", "DecomposePPP", "DecomposeNNN", "FrequencyGreater", "FrequencyEqual", "GoalDeduction"]
WEAK = ["Induction", "Abduction", "Exemplification", "Comparison"]

def run(ctx):
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    r = ctx.rng
    pairs = []
    for f1 in GF:
        for c1 in GC:
            for _ in range(6):
                pairs.append(((f1, c1), (r.choice(GF), r.choice(GC))))
    rnd = lambda: (r.random(), r.random() * 0.99) if r.random() < 0.8 else (r.choice(GF), r.choice(GC))
    pairs += [(rnd(), rnd()) for _ in range(ctx.scale(800, 12000))]
    pairs += [(a, (a[0], rnd()[1])) for a in (rnd() for _ in range(100))]     # equal frequencies
    pairs += [(a, (1 - a[0], a[1])) for a in (rnd() for _ in range(60))]
    cmds, exp = [], []
    for name, fn in T.BINARY.items():
        for a, b in pairs:
            cmds.append("@truth\t%s\t%r\t%r\t%r\t%r" % (name, a[0], a[1], b[0], b[1]))
            exp.append((name, a, b, fn(a, b)))
    for a, b in pairs:
        cmds.append("@truth\tEternalize\t%r\t%r" % a); exp.append(("Eternalize", a, None, T.Eternalize(a)))
        cmds.append("@truth\tExpectation\t%r\t%r" % a); exp.append(("Expectation", a, None, (T.exp(a), None)))
        t0 = r.choice([-1, 0, 1, 5, 1000, 10**9]); d = r.choice([0, 1, 2, 3, 7, 20, 100, 5000, 2**31, 2**32, 2**32 + 1, 10**12])
        t1 = max(0, t0 + r.choice([-1, 1]) * d)
        cmds.append("@truth\tProjection\t%r\t%r\t%d\t%d" % (a[0], a[1], t0, t1)); exp.append(("Projection", a, (t0, t1), T.Projection(a, t0, t1)))
        cmds.append("@truth\tw2c\t%r" % T.c2w(a[1])); exp.append(("w2c", a, None, (a[1], None)))
        cmds.append("@truth\tc2w\t%r" % a[1]); exp.append(("c2w", a, None, (T.c2w(a[1]), None)))
    # the code's inverse functions undo each other; symmetric functions commute on the code's own results
    rec = mon.drive(ctx, exe, cmds, chunk=8000, what="truth")
    own = {}
    for (name, a, b, want), x, c in zip(exp, rec, cmds):
        ctx.evaluations += 1
        if x is None: continue
        if "rej" in x or "f" not in x:
            ctx.violation("rejected-" + name, "%s -> %s" % (c, x)); continue
        ok = T.close(x["f"], want[0]) and (want[1] is None or T.close(x["c"], want[1]))
        if not ok:
            ctx.violation("value-" + name, "%s%s: got (%r, %r), definition gives %r" % (name, (a, b), x["f"], x["c"], want))
        if name in T.BINARY:
            own[(name, a, b)] = (x["f"], x["c"])
            if not (0 <= x["f"] <= 1 and 0 <= x["c"] < 1):
                ctx.violation("range-" + name, "%s%s = %r" % (name, (a, b), x))
            if name in DED_LIKE and x["c"] > min(a[1], b[1]) + 1e-12:
                ctx.violation("conf-" + name, "%s%s is more confident than a premise: %r" % (name, (a, b), x))
            if name in WEAK and x["c"] > 0.5 + 1e-12:
                ctx.violation("conf-" + name, "%s%s exceeds weak inference confidence: %r" % (name, (a, b), x))
            if name == "Revision" and x["c"] < max(a[1], b[1]) - 1e-9 and max(a[1], b[1]) <= 0.99:
                ctx.violation("conf-Revision", "%s%s lost confidence: %r" % (name, (a, b), x))
        if want[0] not in (0.0, 1.0) or (want[1] or 0) > 0:
            ctx.distinct("%s/%r" % (name, want))
    ctx.sample(cmds[0]); ctx.sample(cmds[-3])
    ctx.rule = "each of the 25 binary/unary functions, eternalization, projection, expectation, weight conversions on a grid of extremes plus random operands; non-trivial: result not all-zero; distinct by function and expected value"
    ctx.assumptions.append("comparison tolerance 1e-9 (double arithmetic, order of multiplication is free)")
