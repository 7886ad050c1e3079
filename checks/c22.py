"""C22: Term_ExtractSubterm / Term_OverrideSubterm / equality / hash / complexity and the sequence decompositions of the
running code against a tree model, under ASan+UBSan, on random terms and positions within and beyond the size limit."""
from vlib import build, mon, nal

MIN = 5000

def run(ctx):
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    r = ctx.rng
    n = ctx.scale(3000, 60000)
    g = nal.TermGen(r, maxdepth=5)
    def rt(d=None):
        g.maxdepth = r.choice([0, 1, 2, 3, 4, 5]) if d is None else d
        while True:
            t = g.gen(stop=r.choice([0.05, 0.3, 0.5]))
            if nal.fits(t):
                return t
    cmds, judge = [], []
    def add(cmd, fn):
        cmds.append(cmd); judge.append(fn)
    for _ in range(n):
        t = rt(); p = nal.positions(t); e = nal.encp(p)
        # extract
        j = r.choice(sorted(p)) if r.random() < 0.85 else r.randrange(64)
        want = nal.at_pos(t, j)
        def f(x, want=want, e=e, c=(e, j)):
            w = nal.enc(want) if want is not None else ""
            if x.get("t") != w: ctx.violation("extract", "component of %s: got %r want %r" % (c, x, w))
            if x.get("orig") != e: ctx.violation("extract-impure", "extraction changed the term %s: %r" % (c, x))
        add("@extract\t%s\t%d" % (e, j), f)
        # override of a slot which is empty or atomic, or is covered by the new component
        s = rt(r.choice([0, 1, 2, 3, 4])); sp = nal.positions(s)
        cand = [i for i in p if 2 * i + 1 not in p and 2 * i + 2 not in p]
        k = r.random()
        if k < 0.3:     # hole below a copula: drop a component first
            i = r.choice(cand); p = dict(p); p.pop(i)
            if not p: p = {0: "*"}; i = 1
        elif k < 0.8:
            i = r.choice(cand)
        else:
            i = r.choice(sorted(p))
            for q in [q for q in p if q != i]:
                a = q
                while a > i: a = (a - 1) // 2
                if a == i: p.pop(q)
        img = {nal.rel(q, i): a for q, a in sp.items()}
        fit = all(q < 64 for q in img)
        want = None
        if fit:
            w = dict(p); w.update(img); want = nal.encp(w)
        cmd = "@override\t%s\t%d\t%s" % (nal.encp(p), i, nal.encp(sp))
        def f(x, want=want, cmd=cmd):
            if "rej" in x: ctx.violation("override-rej", "%s -> %r" % (cmd, x)); return
            if bool(x["ok"]) != (want is not None): ctx.violation("override-fit", "%s: %r, expected %s" % (cmd, x, "success" if want else "refusal"))
            elif want is not None and x["t"] != want: ctx.violation("override", "%s: got %s want %s" % (cmd, x["t"], want))
            ctx.count("override_refused" if want is None else "override_done")
        add(cmd, f)
        # equality, hash agreement, complexity
        u = t if r.random() < 0.4 else nal.mutate(t, r) if r.random() < 0.7 else rt()
        if nal.fits(u):
            a = r.choice(nal.atoms(t)) if r.random() < 0.5 else r.choice(g.names)
            def f(x, t=t, u=u, a=a):
                eq = t == u
                if any(bool(x[k]) != eq for k in ("eq", "sym", "dirty", "after")): ctx.violation("equal", "equality of %s and %s: %r" % (nal.show(t), nal.show(u), x))
                if not x["refl"]: ctx.violation("reflexive", "%s is not equal to itself" % nal.show(t))
                if not x["hd"] or not x["hs"] or (eq and not x["h"]): ctx.violation("hash", "hash disagrees with equality: %s %s %r" % (nal.show(t), nal.show(u), x))
                if x["ca"] != nal.complexity(t) or x["cb"] != nal.complexity(u): ctx.violation("complexity", "complexity of %s / %s: %r" % (nal.show(t), nal.show(u), x))
                if bool(x["has"]) != (a in nal.atoms(t)): ctx.violation("hasatom", "atom %s in %s: %r" % (a, nal.show(t), x))
                ctx.count("equal_pairs" if eq else "different_pairs")
            add("@cmp\t%s\t%s\t%s" % (nal.enc(t), nal.enc(u), a), f)
        # sequences and their operation parts
        ops = ["^op", "^left", (":", ("*", ('"', "SELF", "@"), r.choice(["a", "b", "$1"])), "^pick"), (":", ("*", "x", "y"), "^go")]
        el = [r.choice(ops) if r.random() < 0.5 else rt(r.choice([0, 0, 1])) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        s = el[0]
        for x in el[1:]: s = ("+", s, x)
        if r.random() < 0.2 and len(el) == 3: s = ("+", el[0], ("+", el[1], el[2]))
        if nal.fits(s):
            op = nal.op_part(s)
            if op is not None and not nal.fits(op): op = None
            def f(x, s=s, op=op):
                if x["w"] != nal.enc(nal.pre_without_op(s)): ctx.violation("precondition", "precondition without operation of %s: %r" % (nal.show(s), x))
                if x["o"] != (nal.enc(op) if op is not None else ""): ctx.violation("operation-part", "operation part of %s: %r" % (nal.show(s), x))
                if x["len"] != nal.seq_len(s): ctx.violation("sequence-length", "length of %s: %r" % (nal.show(s), x))
                if bool(x["isop"]) != nal.is_operation(s): ctx.violation("is-operation", "%s: %r" % (nal.show(s), x))
                ctx.count("sequences")
            add("@preop\t%s" % nal.enc(s), f)
    for c, fn, x in zip(cmds, judge, mon.drive(ctx, exe, cmds, what="term")):
        ctx.evaluations += 1
        if x is None: continue
        fn(x)
        ctx.distinct(c)
    ctx.sample(cmds[0]); ctx.sample(cmds[1]); ctx.sample(cmds[2])
    ctx.rule = "random terms (depth 0..5, up to 64 positions) x positions x components; twins for equality; random sequences with operations; distinct commands"
    ctx.assumptions.append("components are inserted at empty or atomic slots, as all callers do")
