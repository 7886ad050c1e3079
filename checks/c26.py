"""C26: (a) matching with valued atoms: the running code's analogical unification vs the model (closeness-graded, same
quantity only); (b) sessions in which located values are observed: the comparative relation derived states the actual
order; (c) what *setvalue registers is what is compared."""
import random, re
from vlib import build, core, mon, nal, varintro as vi

MIN = 2000

def world(seed, i, n):
    r = random.Random("c26/%d/%d" % (seed, i))
    dist = r.choice([1.0, 0.5, 2.0, 10.0, 0.001, 100.0])
    quantities = ["size", "hue", "size2"]
    val = {}
    for k in range(12):
        q = r.choice(quantities)
        v = r.choice([0.0, 1.0, 0.5, round(r.uniform(-2, 2), 3), round(r.uniform(-2, 2) * dist, 4), 1e6])
        val["v%d" % k] = (v, q)
    atoms = list(val) + ["a", "b", "^op"]
    def numeric(a, b):
        if a in val and b in val and val[a][1] == val[b][1]:
            return max(0.0, 1.0 - abs(val[a][0] - val[b][0]) / dist)
        return None
    g = nal.TermGen(r, names=atoms, maxdepth=3)
    g.numbered = True
    cmds = ["@simdist\t%r" % dist] + ["@setvalue\t%s\t%r\t%s" % (a, v, q) for a, (v, q) in val.items()]
    cases = []
    for _ in range(n):
        g.maxdepth = r.choice([0, 1, 1, 2, 3])
        g.vars = r.random() < 0.3
        t = g.gen(stop=0.3)
        def near(x):
            if x is None or x == "@": return x
            if isinstance(x, str):
                if x in val and r.random() < 0.6:
                    return r.choice([a for a in val if val[a][1] == val[x][1]])
                return r.choice(atoms) if r.random() < 0.15 and not nal.is_var(x) else x
            return (x[0], near(x[1]), near(x[2]))
        s = near(t)
        tv = (round(r.random(), 3), r.choice([0.9, 0.5, 0.0, round(r.random() * 0.99, 3)]))
        mode = r.choice("aaau")
        cmds.append("@unify\t%s\t%s\t%s\t%r\t%r" % (mode, nal.enc(t), nal.enc(s), tv[0], tv[1]))
        w = vi.unify(t, s, False, numeric if mode == "a" and tv[1] != 0 else None)
        if w is not None and mode == "a" and tv[1] * _prod(w[1]) == 0 and w[1]:
            w = None
        cases.append((cmds[-1], t, s, tv, mode, w))
    return cmds, cases, (dist, val)

def _prod(l):
    p = 1.0
    for x in l: p *= x
    return p

def relations(seed, i):
    """one session: located values; returns (lines, expectations)"""
    r = random.Random("c26r/%d/%d" % (seed, i))
    quantity = r.choice(["size", "hue"])
    gran = r.choice([5, 10, 100, 1000])
    digits = 1 if gran <= 10 else 2 if gran <= 100 else 3
    v1, v2 = round(r.uniform(0, 3), digits), round(r.uniform(0, 3), digits)
    if r.random() < 0.25: v2 = v1
    n1, n2 = ("%s_%." + str(digits) + "f") % (quantity, v1), ("%s_%." + str(digits) + "f") % (quantity, v2)
    valued = r.random() < 0.85
    half = r.choice([0, 0, 0, 0, 1, 2])     # only the first or the second was measured: nothing to compare
    attr = r.choice(["shape", "attr"])
    a2 = attr if r.random() < 0.85 else "other"
    c1 = r.choice(["-->", "-->", "|->"])
    l1, l2 = r.choice(["loc1", "{loc1}"]), r.choice(["loc2", "{loc2}"])
    L = []
    if valued:
        for k, v in ((1, v1), (2, v2)):
            if half == 0 or half == k: L.append("*setvalue %.*f %d %s" % (digits, v, gran, quantity))
        if half and v1 == v2: n1, n2 = (n1, "some") if half == 1 else ("some", n2)
    before = r.choice([None, None, "here", "<mark --> [blue]>"])     # the comparison is made in the context of what came before, as well
    if before: L += ["%s. :|:" % before] + [str(r.randrange(1, 4))] * r.choice([0, 1])
    L += ["<(%s * %s) %s %s>. :|:" % (l1, n1, c1, attr)] + [str(r.randrange(1, 6))] * r.choice([0, 1]) + ["<(%s * %s) %s %s>. :|:" % (l2, n2, c1, a2)]
    sub = lambda x: ('"', x[1:-1], "@") if x[0] == "{" else x
    cop = ":" if c1 == "-->" else ","
    want = None
    if valued and not half and attr == a2:
        A, B = sub(l1), sub(l2)
        if v1 == v2: want = (cop, ("*", A, B), ("=", attr, "@"))
        elif v1 > v2: want = (cop, ("*", A, B), ("+", attr, "@"))
        else: want = (cop, ("*", B, A), ("+", attr, "@"))
    return L + ["@dump\tc"], want, (v1, v2), before

# printed derivations
REL = re.compile(r"^(?:Derived|Revised): (?:dt=\S+ )?(.*?)\. (?::\|: occurrenceTime=(\d+) )?Priority")

def frequencies(seed, i):
    """gradual properties: {x} |-> [p] with frequencies; the comparison states the actual order"""
    r = random.Random("c26f/%d/%d" % (seed, i))
    f1, f2 = r.choice([0.0, 1.0, 0.3, round(r.random(), 3)]), r.choice([0.0, 1.0, 0.3, round(r.random(), 3)])
    if r.random() < 0.2: f2 = f1
    L = ["<{x} |-> [p]>. {%s 0.9}" % f1, "<{y} |-> [p]>. {%s 0.9}" % f2, "3"]
    return L, (f1, f2)

def run(ctx):
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    worlds = [world(ctx.seed, i, 120) for i in range(ctx.scale(60, 1200))]
    for (cmds, cases, w), (res, rec) in zip(worlds, core.pmap(lambda w: mon.session(exe, w[0]), worlds)):
        if mon.died(ctx, res, "\n".join(cmds), "world"): continue
        rec = [x for x in rec if "k" not in x]
        if len(rec) != len(cases): raise RuntimeError("record count")
        for (cmd, t, s, tv, mode, want), x in zip(cases, rec):
            ctx.evaluations += 1
            d = "%s\nvalues %r" % (cmd, w)
            if "rej" in x: ctx.violation("rejected", d + " %r" % x); continue
            if bool(x["ok"]) != (want is not None):
                ctx.violation("match-by-value", "%s\ngot %r, model %r" % (d, x, want)); continue
            if want is not None and mode == "a":
                c = tv[1] * _prod(want[1])
                if abs(x["truth"]["c"] - c) > 1e-9 or abs(x["truth"]["f"] - tv[0]) > 1e-9:
                    ctx.violation("closeness", "%s\ngot %r, model confidence %r" % (d, x["truth"], c))
                if want[1]:
                    ctx.count("matched_by_value")
                    ctx.distinct(cmd + repr(w[0]))
            elif want is None:
                ctx.count("mismatches")
    ctx.sample(worlds[0][1][0][0])
    rel = [relations(ctx.seed, i) for i in range(ctx.scale(240, 3000))]
    for (L, want, vs, before), (res, rec) in zip(rel, core.pmap(lambda x: mon.session(exe, x[0]), rel)):
        if mon.died(ctx, res, "\n".join(L), "relations"): continue
        ctx.evaluations += 1
        shown = nal.show(want) if want else None
        seen = [nal.show(nal.dec(x["t"])) for x in rec if x.get("k") == "c"]
        comp = [t for t in seen if re.search(r"\((\+|=) (shape|attr)\)", t) and t.startswith("<(") and not re.search(r"=/>|&/|==>|<=>|&&", t)]
        if want is not None:
            ctx.count("comparisons_expected")
            if shown not in comp: ctx.violation("comparison-missing", "%r values %r: expected %s, derived %r" % (L, vs, shown, comp), {"script": "\n".join(L)})
            for t in comp:
                if t != shown: ctx.violation("comparison-wrong", "%r values %r: derived %s, actual order is %s" % (L, vs, t, shown), {"script": "\n".join(L)})
            ctx.distinct(repr(L))
            if before:
                ctx.count("comparisons_in_context")
                inside = [t for t in seen if "&/" in t and re.search(r"\((\+|=) (shape|attr)\)", t) and not re.search(r"=/>|==>|<=>|&&", t)]
                if "(%s &/ %s)" % (before, shown) not in inside: ctx.violation("context-missing", "%r values %r: expected %s after %s, derived %r" % (L, vs, shown, before, inside), {"script": "\n".join(L)})
                for t in inside:
                    if t != "(%s &/ %s)" % (before, shown): ctx.violation("context-wrong", "%r values %r: derived %s, expected %s after %s" % (L, vs, t, shown, before), {"script": "\n".join(L)})
        elif comp:
            ctx.violation("comparison-unlicensed", "%r: derived %r" % (L, comp), {"script": "\n".join(L)})
    ctx.sample(rel[0][0])
    fr = [frequencies(ctx.seed, i) for i in range(ctx.scale(60, 1000))]
    for (L, (f1, f2)), (res, rec) in zip(fr, core.pmap(lambda x: mon.session(exe, x[0]), fr)):
        if mon.died(ctx, res, "\n".join(L), "frequencies"): continue
        ctx.evaluations += 1
        seen = set(m.group(1) for m in map(REL.match, res.text().split("\n")) if m)
        g, l, e = "<({x} * {y}) --> (+ p)>", "<({y} * {x}) --> (+ p)>", ["<({x} * {y}) --> (= p)>", "<({y} * {x}) --> (= p)>"]
        bad = []
        if f1 != f2 and any(t in seen for t in e): bad.append("equal derived")
        if not f1 > f2 and g in seen: bad.append("x larger derived")
        if not f2 > f1 and l in seen: bad.append("y larger derived")
        if f1 > f2 and g not in seen: bad.append("x larger missing")
        if f2 > f1 and l not in seen: bad.append("y larger missing")
        if f1 == f2 and not all(t in seen for t in e): bad.append("equal missing")
        ctx.count("graded_properties_compared")
        if bad: ctx.violation("gradual-" + bad[0], "%r: %s; derived %r" % (L, bad, sorted(seen)[:20]), {"script": "\n".join(L)})
        ctx.distinct(repr(L))
    ctx.rule = "matching: random terms over 12 valued atoms of 3 quantities and unvalued ones, similarity distances 0.001..100; comparisons: sessions with two located values (equal, larger, smaller, unvalued, different attribute) and gradual properties; non-trivial: matched by value or a comparison was due"
