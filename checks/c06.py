"""C06: the rule table driven with premises instantiated from every rule (and altered copies) in both orders, and sessions in
which every inference step is recorded with its premises; the conclusions memory is given must be those an own interpreter of
the documented rules, reductions, filters and unification inferences gives, with their truth values and evidence."""
import random
from vlib import build, core, mon, nal, nalrules as N, stress, truth as T
MIN = 6000
WRAPS = ["RuleTable_Apply", "Memory_AddEvent", "Cycle_Perform"]

def metas(p, out):
    if N.metavar(p): out.add(p)
    elif isinstance(p, tuple):
        for x in p[1:]: metas(x, out)
    return out

def instantiate(r, pats, g):
    ms = set()
    for p in pats: metas(p, ms)
    k = r.random()
    if k < 0.55: env = {m: r.choice(g.names) for m in ms}
    elif k < 0.65: x = r.choice(g.names); env = {m: x if r.random() < 0.5 else r.choice(g.names) for m in ms}
    else: env = {m: g.gen(1 if r.random() < 0.7 else 2) for m in ms}
    if r.random() < 0.5: # some metavariables as whole statements or sets
        for m in ms:
            if r.random() < 0.4:
                env[m] = r.choice([(":", r.choice(g.names), r.choice(g.names)), ('"', r.choice(g.names), "@"), ("'", r.choice(g.names), "@"), ('"', r.choice(g.names), r.choice(g.names)),
                                   ("'", r.choice(g.names), r.choice(g.names)), (":", "$1", r.choice(g.names)), ("*", r.choice(g.names), r.choice(g.names)), ("!", (":", r.choice(g.names), r.choice(g.names)), "@"),
                                   (r.choice("/%\\#"), r.choice(g.names), r.choice(g.names)), (r.choice("/%"), r.choice(g.names), r.choice(g.names))])
    return [N.subst(p, env) for p in pats]

def rv(r):
    f = r.choice([0.0, 1.0, 1.0, 0.5, r.random(), r.random()])
    return (f, r.choice([0.9, 0.99, 0.5, 0.1, r.random() * 0.98]))

def pairs(seed, i, n):
    r = random.Random("c06/%s/%d" % (seed, i))
    g = nal.TermGen(r, names=["a", "b", "c", "d", "bird", "x1", "42"], maxdepth=3)
    g.numbered = True
    out = []
    for k in range(n):
        while True:
            if r.random() < 0.75:
                l, prem, c, f, intro = N.LIST[(i * n + k) % len(N.LIST)]
                ts = instantiate(r, prem, g)
                if r.random() < 0.25:
                    j = r.randrange(len(ts)); ts[j] = nal.mutate(ts[j], r)
                if len(ts) == 2 and r.random() < 0.5: ts.reverse()
            elif r.random() < 0.45:    # sets and junctions composed
                x = lambda: r.choice(g.names)
                st = lambda c: (c, x(), "@") if r.random() < 0.55 else (c, x(), x()) if r.random() < 0.8 else (c, (".", x(), x()), r.choice([x(), "@"]))
                c, m = r.choice("\"'"), r.choice([x(), ("&", x(), x()), ("|", x(), x()), ('"', x(), "@")])
                cop = r.choice(":::=")
                k2 = r.random()
                if k2 < 0.7:
                    a, b = st(c), st(c if r.random() < 0.9 else r.choice("\"'"))
                    ts = [(cop, a, m), (cop, b, m)] if r.random() < 0.5 else [(cop, m, a), (cop, m, b)]
                else:
                    y = [x(), (":", x(), x()), (r.choice(";_"), x(), x()), (r.choice(";_"), (":", x(), "d"), (r.choice(";_"), x(), x())), ("!", x(), "@")]
                    a, b = r.choice(y), r.choice(y)
                    im = r.choice("??^")
                    ts = [(im, a, m), (im, b, m)] if r.random() < 0.5 else [(im, m, a), (im, m, b)]
            elif r.random() < 0.5:
                a = instantiate(r, r.choice(N.LIST)[1], g) + instantiate(r, r.choice(N.LIST)[1], g)
                ts = [r.choice(a), r.choice(a)]
            else:
                ts = [g.gen(r.choice([1, 2, 3])) for _ in range(r.choice([1, 2]))]
            if len(ts) == 1 or r.random() < 0.03: ts = [ts[0], None]
            if all(t is None or nal.fits(t) for t in ts): break
        out.append((ts[0], ts[1], rv(r), rv(r), r.choice(["", "", "", "ok", "stale"]) if ts[1] is not None else ""))
    return out

def compare(ctx, x, want, where, script, stale=False, extra_only=False):
    """recorded conclusions against the licensed ones, both ways"""
    got = [(o["e"]["t"], (o["e"]["f"], o["e"]["c"])) for o in x["out"] if o["e"]]
    w = [(nal.enc(t), v, l) for t, v, l in want]
    d = "%s and %s" % (nal.show(nal.tree(nal.decp(x["t1"]), False)), nal.show(nal.tree(nal.decp(x["t2"]), False))) if x["d"] else nal.show(nal.tree(nal.decp(x["t1"]), False))
    full = x.get("full")
    if stale:
        if got: ctx.violation(where + "-stale", "%s: a conclusion is added although the concept it was derived from is gone: %s" % (d, got[:2]), {"script": script})
        return
    for t, v in got:
        m = [(a, b, l) for a, b, l in w if a == t]
        if not m: ctx.violation(where + "-unlicensed", "%s gives %s, which no rule licenses" % (d, nal.show(nal.tree(nal.decp(t), False))), {"script": script})
        elif not any(T.teq(v, b) for a, b, l in m):
            ctx.violation(where + "-truth", "%s with %s %s: %s is given truth %s, by [%s] it is %s" % (d, x["v1"], x["v2"], nal.show(nal.tree(nal.decp(t), False)), v, m[0][2], m[0][1]), {"script": script})
    if not full and not extra_only:
        for t, v, l in w:
            if not any(a == t and T.teq(b, v) for a, b in got):
                ctx.violation(where + "-lost", "%s with %s %s: missing %s %s by [%s]" % (d, x["v1"], x["v2"], nal.show(nal.tree(nal.decp(t), False)), v, l), {"script": script})
    for o in x["out"]:
        e = o["e"]
        if e is None:
            ctx.violation(where + "-deleted", "%s: an empty conclusion" % d, {"script": script}); continue
        if e["s"] != x["s"]: ctx.violation(where + "-stamp", "%s: conclusion %s has evidence %s instead of %s" % (d, e["t"], e["s"], x["s"]), {"script": script})
        if e["o"] != x["o"]: ctx.violation(where + "-time", "%s: conclusion %s is at time %s instead of %s" % (d, e["t"], e["o"], x["o"]), {"script": script})
        if e["dt"] != x["off"] or e["ty"] != "." or e["ct"] != x["now"] or o["fl"] != [0, 1, 0, 0]:
            ctx.violation(where + "-kind", "%s: conclusion %s handed on as %s" % (d, e, o["fl"]), {"script": script})
        if not T.close(o["p"], x["cp"] * x["pp"] * T.exp((e["f"], e["c"])), 1e-9): ctx.violation(where + "-priority", "%s: conclusion %s with priority %s" % (d, e["t"], o["p"]), {"script": script})
    return got

def judge(args):
    """(records, kind) -> per record: what is licensed (runs in worker processes)"""
    out = []
    for x, sp in args:
        t1, t2 = nal.tree(nal.decp(x["t1"]), False), (nal.tree(nal.decp(x["t2"]), False) if x["d"] else None)
        w = N.table(t1, t2, x["v1"], x["v2"], bool(x["d"]))
        if sp and x["d"]: w += N.special(t1, t2, x["v1"], x["v2"]) + N.special(t2, t1, x["v2"], x["v1"])
        out.append(w)
    return out

def licensed(xs, sp):
    chunk = [[(x, sp) for x in xs[i:i + 800]] for i in range(0, len(xs), 800)]
    return [w for part in core.ppmap(judge, chunk) for w in part]

def batch(a): return pairs(*a)

V = lambda v: "%.17g\t%.17g" % v

def block(r):
    """a few statements which meet each other: *reset, then inputs with steps in between"""
    at = r.sample(["a", "b", "c", "d", "e", "f"], r.choice([3, 4, 5]))
    g = nal.TermGen(r, names=at, maxdepth=2)
    g.numbered = True
    x = lambda: r.choice(at)
    inh = lambda s=None, p=None: "<%s --> %s>" % (s or x(), p or x())
    prop = lambda s: r.choice([inh(s), inh(s, "[%s]" % x()), "<(%s * %s) --> %s>" % (s, x(), x()), "<(%s * %s) --> %s>" % (x(), s, x())])
    rel = lambda a, b: "<(%s * %s) --> %s>" % (a, b, x())
    out = []
    tv = lambda: stress.truthy(r)
    moving = r.random() < 0.3           # events at different distances of each other, before and after
    for _ in range(r.choice([3, 5, 8, 12])):
        k = r.random()
        if k < (0.1 if moving else 0.25):
            l, prem, c, f, intro = r.choice(N.LIST)
            for t in instantiate(r, prem, g):
                if nal.fits(t) and nal.complexity(t) <= 20 and isinstance(t, tuple) and t[0] not in '"\'*|&-~/%\\#.' : out.append("%s.%s" % (nal.show(t), tv()))
        elif k < 0.40: out.append("<%s %s %s>.%s" % (prop("$1"), r.choice(["==>", "==>", "<=>"]), prop("$1"), tv()))
        elif k < 0.50: out.append("<(%s && %s) ==> %s>.%s" % (prop("$1"), r.choice([prop("$1"), prop(x()), rel("$1", "$2")]), r.choice([prop("$1"), rel("$1", "$2") if r.random() < 0.3 else prop("$1")]), tv()))
        elif k < 0.55: out.append("(%s && %s).%s" % (prop("#1"), prop("#1"), tv()))
        elif k < 0.60: out.append("<%s ==> (%s && %s)>.%s" % (prop("$1"), rel("$1", "#1"), prop("#1"), tv()))
        elif k < 0.65: out.append("<(%s && %s) ==> %s>.%s" % (rel("$1", "$2"), rel("$2", "$3"), rel("$1", "$3"), tv()))
        elif k < 0.70: out.append("<%s %s %s>.%s" % (r.choice([x(), inh()]), r.choice(["==>", "<=>"]), r.choice([x(), inh()]), tv()))
        elif k < 0.74: out.append("(%s && %s).%s" % (inh(), inh(), tv()))
        else: out.append("%s.%s%s" % (r.choice([prop(x()), rel(x(), x()), inh(), "(! %s)" % inh(), x(), "<%s <-> %s>" % (x(), x())]), r.choice(["", "", " :|:"] if not moving else ["", " :|:", " :|:"]), tv()))
        if moving and r.random() < 0.35: out.append("*currenttime=%d" % r.randrange(1, 70))
        elif moving and r.random() < 0.2: out.append(str(r.randrange(12, 30)))
        if r.random() < 0.3: out.append(str(r.randrange(1, 5)))
    return ["*reset"] + out + [str(r.randrange(1, 8))]

def run(ctx):
    exes = build.monitors("mon", ["w_rule.c"], WRAPS, {"big": stress.CONFIGS["big"], "mid": stress.CONFIGS["mid"], "tiny": stress.CONFIGS["tiny"]}, "rule")
    # the rule table alone
    batches = core.ppmap(batch, [(ctx.seed, i, 1500) for i in range(ctx.scale(24, 120))])
    def drive(b):
        cmds = ["@rt\t%s\t%s\t%s\t%s%s" % (nal.enc(t1), nal.enc(t2) if t2 is not None else "-", V(v1), V(v2), "\t" + val if val else "") for t1, t2, v1, v2, val in b]
        res, rec = mon.session(exes["big"], cmds, timeout=200)
        return b, cmds, res, [x for x in rec if isinstance(x, dict) and x.get("k") == "rt"]
    used = {}
    for b, cmds, res, rec in core.pmap(drive, batches):
        if mon.died(ctx, res, "\n".join(cmds[:len(rec) + 1][-3:]), "table") or len(rec) != len(b): 
            if not res.timeout and res.rc == 0: ctx.violation("table-records", "%d applications, %d records" % (len(b), len(rec)), {"script": "\n".join(cmds[-3:])})
            continue
        for (t1, t2, v1, v2, val), c, x, w in zip(b, cmds, rec, licensed(rec, False)):
            compare(ctx, x, w, "table", c, stale=val == "stale")
            ctx.evaluations += 1
            ctx.count("conclusions_compared", len(x["out"]))
            if w: ctx.count("applications_with_conclusions")
            for t, v, l in w: used[l] = used.get(l, 0) + 1
    ctx.count("rules_exercised", len(used))
    never = [l for l, p, c, f, i in N.LIST if l not in used]
    for l in used: ctx.distinct(l)
    # sessions
    plan = [("big", ctx.scale(40, 200), 12), ("mid", ctx.scale(16, 80), 12), ("tiny", ctx.scale(8, 40), 10)]
    for cfg, n, blocks in plan:
        scripts = []
        for i in range(n):
            r = random.Random("c06s/%d/%s/%d" % (ctx.seed, cfg, i))
            scripts.append(sum((block(r) for _ in range(blocks)), []))
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C06",), cfg, timeout=300):
            xs = [x for x in rec if isinstance(x, dict) and x.get("k") == "rt"]
            text = "\n".join(s)
            for x, w in zip(xs, licensed(xs, True)):
                got = compare(ctx, x, w, cfg, text, extra_only=bool(x["rec"]))
                ctx.evaluations += 1
                ctx.count("session_conclusions", len(x["out"]))
                for t, v, l in w:
                    if not l.count("|-"): ctx.count("unification: " + l)
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.sample({"rules_never_concluding": never})
    ctx.rule = "conclusions given to memory = conclusions licensed (term, truth within 1e-9, evidence, time, priority), both ways; premises are the selected belief and the concept's belief, and no partner is left out"
    ctx.assumptions = ["the documented rule set is the one of the pinned commit, transcribed", "conclusions are compared as a set: the same conclusion by two rules counts once"]
