"""C12: (a) revision and choice driven with operand events of all kinds, both orders; (b) each meeting of evidence in live
sessions against a model in the monitor, each belief change explained by one; (c) repeated inputs of one statement in any
order: the answer equals the pooled evidence of all of them."""
import random, re
from vlib import build, core, mon, stress, truth as T
MIN = 3000

def ev(term, f, c, occ, stamp, ty="."):
    return "\t".join([term, ty, repr(f), repr(c), ",".join(map(str, stamp)) or "0", str(occ), "0", "1"])

def drives(ctx, exe):
    r = ctx.rng
    cmds, want = [], []
    def tv(): return (r.choice([0.0, 1.0, 0.5, round(r.random(), 4)]), r.choice([0.0, 0.01, 0.5, 0.9, 0.99, 0.9999, round(r.random() * 0.98, 5)]))
    for _ in range(ctx.scale(6000, 60000)):
        kind = r.choice(["pool", "pool", "overlap", "time", "term", "eternal", "mixed"])
        a, b = tv(), tv()
        if r.random() < 0.1: b = (b[0], a[1])
        ta = tb = "0:x%d" % r.randrange(3)
        if kind == "term": tb = "0:y"
        sa, sb = r.sample(range(1, 30), r.randrange(1, 9)), r.sample(range(40, 80), r.randrange(1, 9))
        if kind == "overlap": sb[r.randrange(len(sb))] = r.choice(sa)
        oa = ob = r.randrange(1, 60)
        if kind == "time": ob = max(0, oa + r.choice([-1, 1]) * r.choice([1, 2, 5, 30, 200]))
        if kind == "eternal": oa = ob = -1
        if kind == "mixed": oa = -1
        choice = kind in ("overlap", "time", "term")
        later = max(oa, ob)
        pa, pb = T.Projection(a, oa, later) if oa != -1 else a, T.Projection(b, ob, later) if ob != -1 else b
        for swap in (False, True):
            if swap and kind == "mixed": continue
            x, y = ((ta, a, oa, sa, pa), (tb, b, ob, sb, pb))[::-1 if swap else 1]
            cmds.append("@choice\t%d\t%s\t%s" % (later, ev(x[0], x[1][0], x[1][1], x[2], x[3]), ev(y[0], y[1][0], y[1][1], y[2], y[3])))
            if choice:
                w = y if y[4][1] > x[4][1] else x
                want.append((kind, 0, w[1], w[2], w[3], w[0], abs(x[4][1] - y[4][1]) < 1e-12 and x[4][1] != y[4][1]))
            else:
                want.append((kind, 1, T.Revision(x[4], y[4]), later, None, x[0], False))
    for c, w, x in zip(cmds, want, mon.drive(ctx, exe, cmds, what="choice")):
        if x is None: continue
        ctx.evaluations += 1
        kind, rev, t, occ, st, term, tie = w
        e = x.get("e")
        if tie: continue
        if e is None or x["rev"] != rev or not T.close(e["f"], t[0]) or not T.close(e["c"], t[1]) or e["o"] != occ or e["t"] != term or (st is not None and e["s"] != st):
            ctx.violation("drive-" + kind, "%s -> %s, expected %s" % (c, x, w), {"command": c})
        if not x.get("pure", 1): ctx.violation("operand-changed", "%s changed an operand" % c)
        ctx.distinct("%s/%.3f/%.3f" % (kind, t[0], t[1]))

ANS = re.compile(r"Answer: (.+?)\. .*Truth: frequency=(\S+), confidence=(\S+)")
def repeated(ctx, exe):
    """one statement, many inputs, all orders alike"""
    def go(i):
        r = random.Random("c12/%d/%d" % (ctx.seed, i))
        stmts = r.sample(["a", "b", "<a --> b>", "<c --> d>", "<(e * f) --> g>"], 2)
        ins = []
        for _ in range(r.randrange(2, 14)):
            s = r.choice(stmts)
            t = (round(r.choice([0.0, 1.0, r.random()]), 3), round(r.choice([0.9, 0.5, r.random() * 0.9 + 0.05]), 3))
            if sum(T.c2w(x[1][1]) for x in ins) + T.c2w(t[1]) < 80: ins.append((s, t, False))     # below the cap on confidence
        outs = []
        for o in range(2):
            if o: r.shuffle(ins)
            lines = []
            for s, t, ev_ in ins: lines.append("%s. {%s %s}" % (s, t[0], t[1]))
            lines += ["%s?" % s for s in stmts]
            res, rec = mon.session(exe, lines, timeout=120)
            outs.append((lines, res, ANS.findall(res.text())))
        exp = {}
        for s, t, e in ins:
            exp[s] = T.Revision(exp[s], t) if s in exp else t
        return stmts, ins, outs, exp
    for stmts, ins, outs, exp in core.pmap(go, range(ctx.scale(60, 600))):
        for lines, res, ans in outs:
            if mon.died(ctx, res, "\n".join(lines), "repeated"): continue
            got = [(float(f), float(c)) for _, f, c in ans]
            want = [exp[s] for s in stmts if s in exp]
            ctx.evaluations += 1
            if len(got) != len(want) or any(abs(g[0] - w[0]) > 2e-6 or abs(g[1] - w[1]) > 2e-6 for g, w in zip(got, want)):
                ctx.violation("repeated-evidence", "inputs %s: answers %s, pooled evidence %s" % (ins, got, want), {"script": "\n".join(lines)})
            ctx.distinct(str(got))

def run(ctx):
    drives(ctx, build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan"))
    repeated(ctx, build.monitor("mon", [], config=stress.CONFIGS["big"], name="mon-big"))
    plan = [("tiny", 12, 240), ("mid", 16, 280), ("big", 8, 320)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_rev.c"], ["Inference_RevisionAndChoice"], {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "rev")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = [stress.mixed("c12/%d/%s" % (ctx.seed, cfg), i, lines) for i in range(n)]
        # few statements, so that the same ones meet again and again
        scripts += [stress.history(random.Random("c12f/%d/%s/%d" % (ctx.seed, cfg, i)), lines, atoms=stress.fresh_atoms(None, 3), extreme=i % 2 == 0) for i in range(n // 2)]
        stress.run(ctx, m, scripts, ("C12",), cfg, timeout=400)
    ctx.sample({"first_lines": scripts[0][:5]})
    ctx.rule = "outcome of each meeting equals the model (pooled evidence, or the one stronger after projection); no belief loses confidence or changes otherwise"
    ctx.assumptions = ["ties of projected confidence closer than 1e-9 are not judged"]
