"""C21: unification, substitution, normalisation and variable introduction of the running code on random terms, judged by
a reference matcher, by instantiating back, and by the model of vlib/varintro.py. Under ASan+UBSan."""
from vlib import build, mon, nal, varintro as vi

MIN = 5000

def run(ctx):
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    r = ctx.rng
    g = nal.TermGen(r, names=["a", "b", "c", "^op", "SELF", "bird"], maxdepth=4)
    g.vars = False
    def rt(d, stop=0.3):
        g.maxdepth = d
        while True:
            t = g.gen(stop=stop)
            if nal.fits(t): return t
    def generalise(t, n, kinds="$#?"):
        """replace some subterms by variables; equal subterms mostly by the same"""
        m = {}
        def w(x):
            if x in (None, nal.TERMINATOR): return x
            if x in m and r.random() < 0.9: return m[x]
            if r.random() < 0.25 and len(m) < n:
                v = r.choice(kinds) + str(r.randrange(1, 10))
                if v not in m.values() or r.random() < 0.1:
                    m[x] = v
                    return v
            return x if isinstance(x, str) else (x[0], w(x[1]), w(x[2]))
        return w(t)
    cmds, judge = [], []
    def add(c, f): cmds.append(c); judge.append(f)
    n = ctx.scale(5000, 100000)
    for _ in range(n):
        s = rt(r.choice([1, 2, 3, 4, 5]), r.choice([0.1, 0.3]))
        gen = generalise(s, r.choice([1, 2, 3, 9]))
        k = r.random()
        if k < 0.35: s2 = nal.mutate(s, r)               # near miss
        elif k < 0.5: s2 = generalise(s, 2)              # the specific side has variables too
        else: s2 = s
        if k > 0.9: gen = nal.mutate(gen, r)
        if not nal.fits(s2) or not nal.fits(gen): continue
        mode = r.choice("uuuq")
        want = vi.unify(gen, s2, mode == "q")
        def f(x, gen=gen, s2=s2, want=want, mode=mode):
            d = "%s against %s (%s)" % (nal.show(gen), nal.show(s2), mode)
            if "rej" in x: ctx.violation("unify-rejected", "%s: %r" % (d, x)); return
            if bool(x["ok"]) != (want is not None):
                ctx.violation("unify-complete" if want is not None else "unify-unsound", "%s: got %r, reference %r" % (d, x["ok"], want)); return
            if want is None: ctx.count("mismatches"); return
            ctx.count("matches")
            b = {v: nal.dec(t) for v, t in x["map"].items()}
            if b != want[0]: ctx.violation("bindings", "%s: bindings %r want %r" % (d, b, want[0]))
            if mode == "u" and x["t"] != nal.enc(s2): ctx.violation("apply", "%s: applying the substitution gives %s" % (d, x["t"]))
            if mode == "q" and (not x["sok"] or x["t"] != nal.enc(vi.substitute(gen, want[0]))): ctx.violation("apply", "%s: applying the substitution gives %s" % (d, x["t"]))
            if want[0]: ctx.distinct(nal.enc(gen) + "|" + nal.enc(s2))
        add("@unify\t%s\t%s\t%s" % (mode, nal.enc(gen), nal.enc(s2)), f)
        # substitution with arbitrary terms, also ones containing variables, also oversized results
        vs = sorted(set(a for a in nal.atoms(gen) if nal.is_var(a)))
        env = {v: (rt(r.choice([0, 0, 1, 2, 3])) if r.random() < 0.7 else r.choice(["$1", "#2", (":", "$3", "a")])) for v in vs if r.random() < 0.8}
        res = vi.substitute(gen, env)
        def f(x, gen=gen, env=env, res=res):
            fits = nal.fits(res)
            if "rej" in x: ctx.violation("subst-rejected", "%r" % x); return
            if bool(x["ok"]) != fits: ctx.violation("subst-fit", "%s with %r: %r" % (nal.show(gen), env, x))
            elif fits and x["t"] != nal.enc(res): ctx.violation("subst", "%s with %r: %s want %s" % (nal.show(gen), env, x["t"], nal.enc(res)))
            ctx.count("substitutions")
        add("@subst\t%s%s" % (nal.enc(gen), "".join("\t%s\t%s" % (v, nal.enc(t)) for v, t in env.items())), f)
        # normalisation
        m = {}
        for a in nal.atoms(gen):
            if nal.is_var(a) and a not in m: m[a] = a[0] + r.choice(["x", "yy", "1", "2", "3", "9", "7"])
        t = nal.rename(gen, m)
        per = {k: set(a for a in nal.atoms(t) if nal.is_var(a) and a[0] == k) for k in "$#?"}
        if all(len(v) <= 9 for v in per.values()):
            w = nal.enc(nal.norm(t))
            def f(x, t=t, w=w):
                if x.get("t") != w: ctx.violation("normalize", "%s: %r want %s" % (nal.show(t), x, w))
                ctx.count("normalised")
            add("@normalize\t%s" % nal.enc(t), f)
            def f(x, t=t, per=per):
                if (bool(x["i"]), bool(x["d"]), bool(x["q"])) != tuple(bool(per[k]) for k in "$#?") or bool(x["any"]) != any(per.values()):
                    ctx.violation("hasvar", "%s: %r" % (nal.show(t), x))
            add("@hasvar\t%s" % nal.enc(t), f)
    # variable introduction
    g2 = nal.TermGen(r, names=["a", "b", "c", "d", "SELF", "^op", "42"], maxdepth=3)
    g2.vars = False
    def statement():
        c = r.choice([":", ":", ":", "=", ",", "!"])
        a, b = side(), side()
        if c == "!": return ("!", (":", a, b), "@")
        return (c, a, b)
    def side():
        k = r.random()
        if k < 0.5: return r.choice(["a", "b", "c", "d", "42"])
        if k < 0.6: return (r.choice("\"'"), r.choice("abcd"), r.choice(["@", "@", r.choice("abcd")]))
        if k < 0.8: return (r.choice("*&|-~"), r.choice(["a", "b", "c", ('"', "a", "@")]), r.choice("abcd"))
        if k < 0.95: return (r.choice("/%\\#"), r.choice("abcd"), r.choice("abcd"))
        return r.choice(["$1", "#1"])
    def operation(): return r.choice(["^op", (":", ("*", ('"', "SELF", "@"), r.choice("abcd")), "^op")])
    def seq():
        el = [statement() for _ in range(r.choice([1, 1, 2]))] + [operation() for _ in range(r.choice([0, 0, 1, 2]))]
        s = el[0]
        for x in el[1:]: s = ("+", s, x)
        return s
    for _ in range(n // 2):
        k = r.random()
        if k < 0.6:
            c = r.choice("$?^")
            l = seq() if c == "$" else statement() if r.random() < 0.6 else (";", statement(), statement())
            t, kind = (c, l, statement()), "i"
        else:
            t, kind = (";", statement() if r.random() < 0.7 else (";", statement(), statement()), statement()), "c"
        if not nal.fits(t): continue
        for ext in (0, 1):
            w, ok = vi.intro_implication(t, ext) if kind == "i" else vi.intro_conjunction(t, ext)
            def f(x, t=t, w=w, ok=ok, ext=ext):
                d = "%s %s" % (nal.show(t), "extensional" if ext else "intensional")
                if "rej" in x: ctx.violation("intro-rejected", "%s %r" % (d, x)); return
                if bool(x["ok"]) != ok or x["t"] != nal.enc(w): ctx.violation("intro", "variables introduced in %s: %r, expected %s" % (d, x, nal.show(w)))
                # instantiate back, independent of the model
                p, q = nal.positions(t), nal.decp(x["t"])
                m, inv = {}, {}
                if set(p) != set(q): ctx.violation("intro-shape", "%s -> %s" % (d, x["t"])); return
                for i in p:
                    if p[i] != q[i]:
                        if not nal.is_var(q[i]) or q[i] in p.values() or m.setdefault(q[i], p[i]) != p[i] or inv.setdefault(p[i], q[i]) != q[i]:
                            ctx.violation("intro-back", "%s -> %s cannot be instantiated back" % (d, x["t"])); return
                for v, a in m.items():
                    if list(p.values()).count(a) < 2: ctx.violation("intro-once", "%s: %s replaced although it occurs once" % (d, a))
                    if a in q.values(): ctx.violation("intro-partial", "%s: %s not replaced everywhere: %s" % (d, a, x["t"]))
                ctx.count("introductions" if m else "no_introduction")
                if m: ctx.distinct(nal.enc(t) + str(ext))
            add("@intro\t%s\t%d\t%s" % (kind, ext, nal.enc(t)), f)
    for c, fn, x in zip(cmds, judge, mon.drive(ctx, exe, cmds, what="var")):
        ctx.evaluations += 1
        if x is not None: fn(x)
    for i in (0, 1, 2, len(cmds) - 1): ctx.sample(cmds[i])
    ctx.rule = "general terms made by generalising random terms, matched against the term, near misses and terms with variables; arbitrary substitutions; random implications/conjunctions for introduction; non-trivial: a variable was bound or introduced"
