"""C30: when a hypothesis leads to the execution of an operation, exactly the functional equivalences it gives together with the
other hypotheses for the same operation and outcome are concluded, with their truth and evidence."""
import random
from vlib import build, core, stress, mon, nal, varintro as vi, truth as tr
from checks.c15 import skilled
from checks.c20 import chains
MIN = 1500
WRAPS = ["Decision_Execute", "Memory_AddEvent", "NAR_AddInputBelief"]
OPS = ["^left", "^right", "^pick", "^go", "^say", "^deactivate"]

def zipped(a, b):
    """evidence of both, alternating, at most ten"""
    return [s[i] for i in range(max(len(a), len(b))) for s in (a, b) if i < len(s)][:10]

def hasvar(t): return any(nal.is_var(x) for x in nal.atoms(t))
def sides(t): return (t[1], t[2]) if isinstance(t, tuple) and t[0] == "+" else None

def common_removed(p, q):
    """both conditions without the parts they share"""
    while True:
        a, b = sides(p), sides(q)
        if not a or not b: return p, q
        if a[0] == b[0]: p, q = a[1], b[1]
        elif a[1] == b[1]: p, q = a[0], b[0]
        else: return p, q

def conclusions(x):
    """what a record of an execution licenses: [(term, truth, evidence)]; also how many partners there were and what kept others"""
    imp = x["imp"]
    if not imp: return [], {}
    t = nal.dec(imp["t"])
    why = {}
    def no(k): why[k] = why.get(k, 0) + 1
    if hasvar(t): return [], {"general": 1}
    out = []
    links = {}
    for l in x["links"]:
        lt = nal.dec(l["t"])
        links.setdefault((lt[1], lt[2]), (l["f"], l["c"]))
    temporal = lambda a, b: tr.exp(links.get((a, b), (0.0, 0.0)))
    for m in x["table"]:
        u = nal.dec(m["t"])
        if hasvar(u): no("other_general"); continue
        if u == t: no("itself"); continue
        if u[2] != t[2]: no("other_consequence"); continue
        if not sides(u[1]) or not sides(t[1]): no("no_operation"); continue
        if sides(u[1])[1] != sides(t[1])[1]: no("other_operation"); continue
        p, q = nal.pre_without_op(t[1]), nal.pre_without_op(u[1])
        if p == q: no("same_condition"); continue
        p, q = common_removed(p, q)
        if nal.seq_len(p) != nal.seq_len(q): no("other_length"); continue
        if set(imp["s"]) & set(m["s"]): no("shared_evidence"); continue
        if temporal(p, q) > 0.5 or temporal(q, p) > 0.5: no("temporally_linked"); continue
        ev = zipped(imp["s"], m["s"])
        v, w = (imp["f"], imp["c"]), (m["f"], m["c"])
        before = {}
        no("partners")
        for k, (a, b, val) in enumerate([(p, q, tr.Induction(v, w)), (q, p, tr.Abduction(v, w))]):
            e = ("?", a, b)
            if not nal.fits(e): no("too_large"); continue
            out.append((e, val, ev))
            for side in (2, 1):
                g, ok = vi.intro_implication(e, True, side)
                if ok and hasvar(g):
                    if k and before.get(side) == g: no("same_general"); continue
                    before[side] = g
                    out.append((g, val, ev))
    return out, why

def judge(ctx, what, s, rec):
    cur, got, n = [], [], 0
    for x in rec:
        if not isinstance(x, dict): continue
        k = x.get("k")
        if k == "fe": cur.append((x, [])); n += 1
        elif k == "feq" and cur: cur[-1][1].append(x)
        elif k == "fend" and cur:
            e, calls = cur.pop()
            want, why = conclusions(e)
            for w, c in why.items(): ctx.count(w, c)
            ctx.count("executions_compared"); ctx.evaluations += 1
            ctx.count("equivalences", len(calls))
            rest = list(want)
            for c in calls:
                ev = c["e"]; t = nal.dec(ev["t"])
                hit = next((i for i, w in enumerate(rest) if w[0] == t and tr.teq(w[1], (ev["f"], ev["c"])) and set(w[2]) == set(ev["s"])), None)
                if hit is None:
                    ctx.violation(what + "-unlicensed", "executing because of %s at %d concluded %s (%.9g, %.9g) evidence %s, licensed were %s" % (e["imp"] and nal.show(nal.dec(e["imp"]["t"])), e["now"], nal.show(t), ev["f"], ev["c"], ev["s"], [(nal.show(w[0]), w[1], w[2]) for w in want if w[0] == t] or [nal.show(w[0]) for w in want][:6]), {"script": "\n".join(s)})
                    return
                rest.pop(hit)
                if (ev["ty"], ev["o"], c["p"], c["in"], c["l"], c["rev"]) != (".", e["now"], 1, 0, 0, 0) or c["now"] != e["now"]:
                    ctx.violation(what + "-event", "%s was concluded at time %d as %s" % (nal.show(t), e["now"], c), {"script": "\n".join(s)}); return
                ctx.distinct((c["e"]["t"],))
            if rest:
                ctx.violation(what + "-missing", "executing because of %s at %d did not conclude %s %s %s" % ((e["imp"] and nal.show(nal.dec(e["imp"]["t"])), e["now"], nal.show(rest[0][0])) + rest[0][1:]), {"script": "\n".join(s)})
                return
    return n

def rivals(r, n):
    """alternative conditions for the same operation and outcome; then the conditions and the outcomes as goals"""
    out = ["*motorbabbling=false"] if r.random() < 0.8 else ["*motorbabbling=0.1"]
    if r.random() < 0.5: out.append("*decisionthreshold=%s" % r.choice(["0.501", "0.55", "0.3", "0.7"]))
    ob = r.sample(["o1", "o2", "o3", "m", "n", "{t1}", "(m * n)"], r.choice([2, 3, 5]))
    pr = ["p", "q", "w"]
    flat = [o for o in ob if o[0] not in "({"] or ["m", "n"]
    def simple(parts=1):
        k = r.random()
        if parts > 2: k = r.choice([0, 0.9])
        a, b = [r.choice(ob if parts == 1 else flat) for _ in "ab"]
        if k < 0.25: return "<%s --> %s>" % (a, r.choice(pr))
        if k < 0.45: return "<%s --> [%s]>" % (a, r.choice(pr))
        if k < 0.80: return "<(%s * %s) --> %s>" % (a, b, r.choice(["at", "on"]))
        if k < 0.85: return "<%s <-> %s>" % (a, b)
        return r.choice(["a", "b", "c", "d", "(! a)"])
    common = {n: [simple(n) for _ in range(2)] for n in (2, 3)}
    def cond():
        k = r.random()
        if k < 0.45: return [simple()]
        m = 2 if k < 0.8 else 3
        return [r.choice(common[m]) if r.random() < 0.5 else simple(m) for _ in range(m)]
    conds = [cond() for _ in range(r.choice([3, 5, 9]))]
    if r.random() < 0.5: conds += [c[:1] for c in conds if len(c) > 1]
    if r.random() < 0.5: conds += [c[::-1] for c in conds if len(c) > 1]
    if r.random() < 0.4:
        a, b = simple(3), simple(3)
        conds += [x for c in (simple(3), simple(3)) for x in r.sample([[a, b, c], [c, a, b], [a, c, b]], 1) * 2 + [[a, b, c]]][:r.choice([3, 6])]
    if r.random() < 0.3: conds = [["<%s --> p>" % a, "<%s --> p>" % b] for a, b in [("m", "n"), ("n", "m"), ("o1", "m")]]
    goals = ["g", "<o1 --> [done]>", "h"][:r.choice([1, 2, 3])]
    ops = r.sample(OPS, 2) + ["<({SELF} * x) --> ^pick>", "<({SELF} * y) --> ^pick>", "<({SELF} * {t1}) --> ^go>"]
    ops = r.sample(ops, r.choice([1, 1, 2, 3]))
    seq = lambda c: c[0] if len(c) == 1 else "(%s &/ %s)" % (c[0], c[1]) if len(c) == 2 else "((%s &/ %s) &/ %s)" % tuple(c)
    def rule():
        c, o, g = r.choice(conds), r.choice(ops), r.choice(goals)
        k = r.random()
        if k < 0.12: return "<(%s &/ %s) =/> %s>.%s" % (r.choice(["<$1 --> p>", "<(m * $1) --> at>", "<$1 --> [q]>"]), r.choice(ops), r.choice(goals), stress.truthy(r))
        if k < 0.17: return "<(%s &/ (%s &/ %s)) =/> %s>." % ("a", r.choice(OPS), r.choice(OPS), g)
        return "<(%s &/ %s) =/> %s>.%s" % (seq(c), o, g, stress.truthy(r, r.random() < 0.2))
    for _ in range(r.choice([3, 6, 12])): out.append(rule())
    while len(out) < n:
        k = r.random()
        if k < 0.12: out.append(rule())
        elif k < 0.20:
            p, q = r.choice(conds), r.choice(conds)
            out.append("<%s =/> %s>.%s" % (seq(p), seq(q), stress.truthy(r)))
        elif k < 0.60: out += ["%s. :|:%s" % (x, stress.truthy(r) if r.random() < 0.2 else "") for x in r.choice(conds)]
        elif k < 0.92: out.append("%s! :|:%s" % (r.choice(goals), stress.truthy(r) if r.random() < 0.2 else ""))
        elif k < 0.94: out.append("*reset") if r.random() < 0.1 else out.append("%s. :|:" % r.choice(ops))
        else: out.append(str(r.randrange(1, 25)))
    return out

def run(ctx):
    plan = [("big", 80, 120), ("mid", 60, 120)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_fe.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "fe")
    for cfg, n, lines in plan:
        scripts = [rivals(random.Random("c30/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [[l for l in skilled(random.Random("c30s/%d/%s/%d" % (ctx.seed, cfg, i)), lines) if l[0] != "@"] for i in range(n // 5)]
        scripts += [chains(random.Random("c30c/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 5)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C30",), cfg, timeout=400):
            judge(ctx, cfg, s, rec)
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "an execution concludes the equivalences of its hypothesis with every other variable-free hypothesis for the same operation and outcome, of another condition of equal length, disjoint evidence and not linked in time, in both directions, and their generalisations, and nothing else"
