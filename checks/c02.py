"""C02: random term ASTs are written in several documented notations, parsed by the reasoner, and compared with the
independently computed encoding; printed forms are parsed again; terms held after reasoning histories are printed and
parsed again; structurally mutated twins are checked to stay distinct."""
import random
from vlib import build, core, gen, mon, nal

MIN = 2000
PUNCT = {".": 0}
TENSES = [("", 0), (" :|:", 1), (" :\\:", 2), (" :/:", 3)]

def toomany(t):
    k = {"$": set(), "#": set(), "?": set()}
    for a in nal.atoms(t):
        if nal.is_var(a): k[a[0]].add(a)
    return any(len(v) > 9 for v in k.values())

def run(ctx):
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    r = ctx.rng
    g = nal.TermGen(r, maxdepth=5)
    cmds, exp, info = [], [], []
    n = ctx.scale(4000, 60000)
    terms = []
    while len(terms) < n:
        g.maxdepth = r.choice([0, 1, 2, 3, 4, 5, 6])
        t = g.gen(stop=r.choice([0.1, 0.35, 0.5]))
        if toomany(t):
            continue
        terms.append(t)
        if isinstance(t, tuple):
            m = nal.mutate(t, r)
            if not toomany(m):
                terms.append(m)
    for t in terms:
        fits = nal.fits(t)
        want = nal.enc(nal.norm(t)) if fits else None
        for _ in range(2 if fits else 1):
            s = nal.surface(t, r)
            if len(s) > 600:
                continue
            p = r.choice(".!?")
            te, ten = r.choice(TENSES)
            k = r.randrange(5)
            f, c = r.choice([0.0, 1.0, 0.5, round(r.random(), 4)]), r.choice([0.9, 0.0, 0.99, 0.5, round(r.random() * 0.99, 4)])
            tv, ef, ec = [("", 1.0, 0.9), (" {%s %s}" % (f, c), f, c), (" %%%s;%s%%" % (f, c), f, c), (" %%%s%%" % f, f, 0.9), (" {%g %g}" % (f, c), f, c)][k]
            dt, edt = "", 0.0
            if r.random() < 0.1:
                edt = r.choice([0.0, 1.0, 2.5, 17.0, 123.456, -3.25])
                dt = "dt=%s " % edt
            cmds.append("@parse\t%s%s%s%s%s" % (dt, s, p, te, tv))
            exp.append((want, p, ten, ef, ec, edt))
            info.append(t)
    rec = mon.drive(ctx, exe, cmds, what="parse")
    for cmd, (want, p, ten, ef, ec, edt), t, x in zip(cmds, exp, info, rec):
        ctx.evaluations += 1
        if x is None:
            continue
        if want is None:
            ctx.count("oversized")
            if "rej" not in x:
                ctx.violation("oversized-accepted", "a term beyond the size limit was accepted: %s -> %s" % (cmd, x))
            continue
        if "rej" in x:
            ctx.violation("rejected", "a well-formed sentence was rejected (%s): %s" % (x["rej"], cmd))
            continue
        if x["t"] != want:
            ctx.violation("encoding-%s" % (t[0] if isinstance(t, tuple) else "atom"), "parsed as another term: %s\n got %s\nwant %s" % (cmd, x["t"], want))
        if x["p"] != p or x["te"] != ten:
            ctx.violation("punctuation", "punctuation/tense of %s: %s" % (cmd, x))
        if abs(x["f"] - ef) > 1e-12 or abs(x["c"] - ec) > 1e-12 or abs(x["dt"] - edt) > 1e-12:
            ctx.violation("values", "truth or time offset of %s: %s" % (cmd, x))
        ctx.distinct(want)
    for t in terms[:3]: ctx.sample(nal.show(t))
    # printed form -> parsed again (normalised terms, as the system holds them)
    held = sorted(set(nal.enc(nal.norm(t)) for t in terms if nal.fits(t)))
    rec = mon.drive(ctx, exe, ["@print\t" + h for h in held], what="print")
    back = mon.drive(ctx, exe, ["@term\t" + (x[1] if x else "a") for x in rec], what="reparse")
    texts = {}
    for h, x, b in zip(held, rec, back):
        ctx.evaluations += 1
        ctx.count("printed_and_reparsed")
        if x is None or b is None: continue
        if b.get("t") != h:
            ctx.violation("roundtrip", "printed as %s which is parsed as %s, but the term is %s" % (x[1], b, h))
        if texts.setdefault(x[1], h) != h:
            ctx.violation("print-conflated", "two terms are printed alike: %s: %s and %s" % (x[1], h, texts[x[1]]))
    # terms held after reasoning
    def hist(i):
        q = random.Random("c02h/%d/%d" % (ctx.seed, i))
        g2 = gen.Grammar(q, depth=q.choice([2, 3]))
        L = ["*volume=0"]
        for _ in range(40):
            k = q.random()
            L.append(gen.sentence(q, g2) if k < 0.6 else g2.op() + ". :|:" if k < 0.7 else str(q.randrange(1, 6)) if k < 0.85 else "*setvalue %.1f 5 %s" % (q.random() * 5, q.choice(gen.ATOMS)))
        s, _ = L + ["@printall"], 0
        return s, mon.session(exe, s)
    pairs = {}
    for s, (res, rc) in core.pmap(hist, range(ctx.scale(48, 600))):
        if mon.died(ctx, res, "\n".join(s), "history"): continue
        ctx.count("histories")
        for a, b in zip(rc, rc[1:]):
            if isinstance(a, dict) and a.get("k") == "pa" and isinstance(b, tuple):
                pairs[a["t"]] = b[1]
    held = sorted(pairs)
    back = mon.drive(ctx, exe, ["@term\t" + pairs[h] for h in held], what="reparse2")
    for h, b in zip(held, back):
        ctx.evaluations += 1
        ctx.count("derived_reparsed")
        if b is None: continue
        try:
            want = nal.enc(nal.norm(nal.dec(h)))
        except nal.Orphan:
            ctx.violation("orphan-atoms", "a held term has atoms outside of its tree: %s printed %s" % (h, pairs[h]))
            continue
        if b.get("t") != want:
            ctx.violation("roundtrip-derived", "held term %s is printed as %s which is parsed as %s" % (h, pairs[h], b))
        ctx.distinct(h)
    ctx.rule = "random ASTs up to 64 positions (all copulas, sets, images, variables), 2 notational variants each with random punctuation, tense, truth format; mutated twins; terms held after histories; distinct = distinct encoded terms"
    ctx.assumptions += ["well-formed input: binary compounds, sets of at most two elements, copulas separated by blanks, atom names up to 31 characters"]
