"""C33: what a session printed - the dump of its memory, the sentences it derived, selected and answered - is put into a
fresh system: the same sentence with the same truth value, time, delay and evidence has to come out again. The tools
for saved output on the same logs."""
import os, re, collections, subprocess, sys
from vlib import build, core, gen, nal, stress

MIN = 1500
NUM = r"(-?[0-9.]+)"
SENT = re.compile(r"^(Input|Derived|Revised|Selected|Answer): (?:dt=" + NUM + r" )?(.*)([.!])( :\|: occurrenceTime=(-?[0-9]+))?(?: Priority=([0-9.]+))?(?: creationTime=(-?[0-9]+))?(?: Stamp=\[([0-9,]*)\])?(?: Priority=([0-9.]+))? Truth: frequency=([0-9.]+), confidence=([0-9.]+)$")
DUMP = re.compile(r"^(?:dt=" + NUM + r" )?(.*)\. \{([0-9.]+) ([0-9.]+)\}$")

REDUCIBLE = re.compile(r"\((.+) (&|\||&&|\|\|) \1\)|\(\{[^{}]*\} \| \{|\(\[[^\[\]]*\] & \[")

def canon(term):
    """variables by order of occurrence"""
    m, n = {}, collections.Counter()
    def f(x):
        v = x.group(0)
        if v not in m:
            n[v[0]] += 1; m[v] = v[0] + str(n[v[0]])
        return m[v]
    return re.sub(r"(?<![A-Za-z0-9_])[$#?][A-Za-z0-9_]+", f, term)

def tool(name, lines, *args):
    p = subprocess.run([sys.executable, os.path.join(build.REPO, name)] + list(args), input="".join(l + "\n" for l in lines).encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    return p.returncode, p.stdout.decode("latin-1").split("\n")[:-1], p.stderr.decode("latin-1")[-300:]

def session(exe, script, timeout=200):
    res = core.run([exe, "shell"], "".join(l + "\n" for l in script), timeout=timeout)
    if res.timeout: res = core.run([exe, "shell"], "".join(l + "\n" for l in script), timeout=4 * timeout)
    return res, res.text().split("\n")

def dumped(lines):
    """the last listing of concepts"""
    out, cur = [], None
    for l in lines:
        if l == "//*concepts": cur = []
        elif l == "//*done" and cur is not None: out, cur = cur, None
        elif cur is not None: cur.append(l)
    return out

def patterns(r):
    """something happens over and over again, so that it is learned"""
    ev = r.sample(["a", "b", "<(x * y) --> r>", "<p --> q>", "<{s} --> [t]>", "g"], 3)
    out = []
    for _ in range(r.randrange(2, 8)):
        out += [ev[0] + ". :|:"] + ([str(r.randrange(1, 4))] if r.random() < 0.5 else []) + (["^left. :|:"] if r.random() < 0.6 else []) + [ev[1] + ". :|:", "%d" % r.randrange(1, 25)]
        if r.random() < 0.3: out += [ev[2] + "! :|:", "3"]
    return out

def scripts(ctx):
    r = ctx.rng
    for i in range(ctx.scale(40, 600)):
        s = ["*volume=100", "*motorbabbling=%s" % r.choice(["false", "false", "0.2", "0.999999"])]
        if r.random() < 0.3: s += ["*setopname %d %s" % (r.randrange(1, 11), r.choice(["^foo", "^walk_to"]))]
        if r.random() < 0.3: s += ["*babblingops=%d" % r.randrange(1, 11), "*setoparg %d %d %s" % (r.randrange(1, 11), r.randrange(1, 4), r.choice(["x", "({SELF} * y)", "<a --> b>"]))]
        if r.random() < 0.3: s += ["*currenttime=%d" % r.choice([100, 4000000000, 123456])]
        body = patterns(r) if i % 3 == 1 else stress.history(r, r.randrange(8, 45), extreme=i % 3 == 2, ops=r.sample(["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate", "^deactivate"], 3))
        for _ in range(2): body.insert(r.randrange(len(body) + 1), "dt=%s <%s =/> %s>." % (r.choice(["%d" % r.randrange(-9, 30), "%.6f" % (r.random() * 100 - 30)]), r.choice(["a", "(a &/ ^left)", "(<x --> y> &/ ^deactivate)"]), r.choice("abg")))
        s += body + ["%s? :|:" % r.choice("abc"), "?1?", "<?1 --> ?2>?", "<?1 =/> ?2>?", "*opconfig", "*concepts"]
        yield [l for l in s if "*volume" not in l[1:]]

def run(ctx):
    exe, big = core.pmap(lambda c: build.build("plain", keep_main=True, config={"CONCEPTS_MAX": c}, name="plain-%d" % c), [512, 8192])
    r = ctx.rng
    ctx.rule = "every distinct sentence printed by a session (dump, input, derivation, selection, answer), put into a fresh system; distinct by text"
    alls = list(scripts(ctx))
    seen, jobs = set(), []
    def one(s):
        return s, session(exe, s)
    for s, (res, lines) in core.pmap(one, alls):
        text = "\n".join(s)
        if res.timeout or res.rc != 0 or not any(l == "//*concepts" for l in lines):
            ctx.violation("session", "the session ended with %s" % res.rc, {"script": text}); continue
        ctx.count("sessions")
        items = []
        for l in dumped(lines):
            m = DUMP.match(l)
            if l.startswith("//") or l == "": continue
            ctx.count("dumped")
            if not m:
                ctx.violation("dump-format", "the dump has a line which is no sentence: %r" % l, {"script": text}); continue
            items.append(("dump", m.group(1), m.group(2), ".", None, None, m.group(3), m.group(4), l))
        for l in lines:
            m = SENT.match(l)
            if not m: 
                continue
            k, dt, term, p, _, occ, _, _, stamp, _, f, c = m.groups()
            if k == "Input" and p == "!" and not occ: continue
            items.append((k, dt, term, p, occ, stamp, f, c, l))
        new = []
        for x in items:
            key = x[:8] if x[0] == "dump" else ("s",) + x[1:8]
            if key in seen: continue
            seen.add(key); new.append(x)
            ctx.distinct(str(key)); ctx.sample(x[8])
        if len(new) > 260: new = r.sample(new, 260)
        jobs.append((text, lines, new, [x for x in items if x[0] == "dump"], r.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0]), r.choice([1, 3, 10, 1000])))
    def judge(j):
        text, lines, new, dump, t, n = j
        reinsert(ctx, exe, text, new)
        whole(ctx, big, text, lines, dump)
        tools(ctx, text, lines, t, n)
    core.pmap(judge, jobs)

def reinsert(ctx, exe, text, items):
    for k in range(0, len(items), 90):
        part = items[k:k + 90]
        s = ["*motorbabbling=false"]
        for i, (kind, dt, term, p, occ, stamp, f, c, l) in enumerate(part):
            tv = " {%s %s}" % (f, c)
            s += ["//@ %d" % i, "*reset", "*volume=0"]
            if stamp: s.append("*stampimport=[%s]" % stamp)
            if occ: s.append("*currenttime=%s" % occ)
            s.append((l if kind == "dump" else (("dt=%s " % dt) if dt else "") + term + p + (" :|:" if occ else "") + tv))
            if p == ".": s.append(term + "?" + (" :|:" if occ else ""))
            s += ["*concepts", "//@ end"]
        res, out = session(exe, s)
        groups, cur = {}, None
        for l in out:
            if l.startswith("Comment: @ "):
                cur = l[11:]
                if cur != "end": groups[int(cur)] = []
            elif cur not in (None, "end"): groups[int(cur)].append(l)
        for i, x in enumerate(part):
            ctx.evaluations += 1
            kind, dt, term, p, occ, stamp, f, c, l = x
            ctx.count("reinserted-" + kind.lower())
            if stamp and "," in stamp: ctx.count("with-joint-evidence")
            if dt: ctx.count("with-delay")
            if re.search(r"[$#][0-9]", term): ctx.count("with-variable")
            if occ: ctx.count("events" if p == "." else "goals")
            if i == len(part) - 1 and ("Comment: @ end" not in out or i not in groups):
                pass
            g = groups.get(i)
            def bad(key, msg):
                ctx.violation(key, "%r: %s" % (l, msg), {"session": text, "script": "\n".join(s)})
            if g is None or (i == max(groups) and res.rc != 0):
                bad("refused", "the system printed it, but does not accept it (%s)" % " | ".join(out[-4:])); break
            ins = [m for m in map(SENT.match, g) if m and m.group(1) == "Input"]
            if float(c) < 0.01:
                ctx.count("below-minimum"); continue
            if REDUCIBLE.search(term):
                ctx.count("reducible"); continue #input is reduced, subgoals are not
            if re.match(r".* ==> ", term) and occ: ins = [z for z in ins if z.group(6)] #its eternal form is linked
            if not ins or len(set(z.group(0) for z in ins)) != 1: #an implication is reported when it is linked, and when it is buffered
                bad("not-input", "%d inputs are reported for it: %s" % (len(ins), g[:3])); continue
            m = ins[0]
            if canon(m.group(3)) != canon(term) or m.group(4) != p: bad("term", "it is taken as %r" % m.group(0))
            if (m.group(11), m.group(12)) != (f, c): bad("truth", "it is taken as %r" % m.group(0))
            if (m.group(6) or None) != (occ or None): bad("time", "it is taken as %r" % m.group(0))
            if stamp and m.group(9) != stamp: bad("evidence", "it is taken as %r" % m.group(0))
            if not re.match(r"[<(].* =/> ", term) and dt and float(dt) != 0: ctx.count("odd-delay")
            if dt and p == ".":
                d = [z for z in map(DUMP.match, dumped(g)) if z]
                if not any(z.group(1) == dt and canon(z.group(2)) == canon(term) and (z.group(3), z.group(4)) == (f, c) for z in d):
                    bad("redump-delay", "the dump after it has not the line, but %r" % [z.group(0) for z in d[:3]])
            elif kind == "dump":
                d = [z for z in map(DUMP.match, dumped(g)) if z]
                if not any(canon(z.group(2)) == canon(term) and (z.group(3), z.group(4)) == (f, c) for z in d):
                    bad("redump", "the dump after it has not the line, but %r" % [z.group(0) for z in d[:3]])
            if p == "." and not (" ==> " in term and occ): #the answer can be its eternal form
                a = [z for z in map(SENT.match, g) if z and z.group(1) == "Answer"]
                a = [z for z in a if canon(z.group(3)) == canon(term)]
                if not a:
                    bad("unanswered", "asked for it, the answer is %s" % [z for z in g if z.startswith("Answer")]); continue
                z = a[0]
                if (z.group(11), z.group(12)) != (f, c): bad("answer-truth", "the answer is %r" % z.group(0))
                if stamp and z.group(9) != stamp: bad("answer-evidence", "the answer is %r" % z.group(0))

def whole(ctx, exe, text, lines, items):
    """the complete dump, extracted by the tool, into one fresh system"""
    rc, got, err = tool("inspection_extract_importable_parts.py", lines)
    want, cur, ops, con = [], None, [], []
    for l in lines:
        if l == "//*opconfig": cur = ops = []
        elif l == "//*concepts": cur = con = []
        elif l == "//*done": cur = None
        if cur is not None: cur.append(l)
    if rc or got != ops + con:
        ctx.violation("extract", "the extracted dump is not the last one: %s %s" % (got[:3], err), {"script": text}); return
    res, out = session(exe, got + ["*opconfig", "*concepts"])
    ctx.evaluations += 1
    if res.rc != 0:
        ctx.violation("import", "the dump as a whole is refused: %s" % out[-4:], {"session": text, "script": "\n".join(got)}); return
    o2 = [l for l in out if l.startswith("*")]
    if o2 != ops[1:]: ctx.violation("opconfig", "the configuration after the import is %s" % o2, {"session": text, "script": "\n".join(got)})
    have = collections.defaultdict(list)
    for l in dumped(out):
        m = DUMP.match(l)
        if m: have[canon(m.group(2))].append((m.group(1), float(m.group(3)), float(m.group(4))))
    if sum('"usefulness": ' in l for l in out) >= 8192:
        ctx.count("memory-full"); return
    for kind, dt, term, p, occ, stamp, f, c, l in items:
        if float(c) < 0.01 or REDUCIBLE.search(term): continue
        ctx.count("imported")
        h = have.get(canon(term), [])
        if not any(x[2] >= float(c) - 2e-6 for x in h):
            ctx.violation("lost", "%r is not in the memory the dump was put into, %s is" % (l, h[:3]), {"session": text, "script": "\n".join(got)})

def tools(ctx, text, lines, t, n):
    rc, got, err = tool("derivation_priority_filter.py", lines, str(t))
    want = [l for l in lines if not re.search(r"Priority=", l) or float(re.search(r"Priority=([0-9.]+)", l).group(1)) >= t]
    ctx.evaluations += 1; ctx.count("tool-runs")
    if rc or got != want: ctx.violation("priority-filter", "threshold %s: %d lines instead of %d %s" % (t, len(got), len(want), err), {"script": text})
    rc, got, err = tool("misc/Python/printed_narsese_to_input.py", lines)
    want = []
    for l in lines:
        m = SENT.match(l)
        if l.startswith("Input: ") and "Truth: " not in l:
            want.append(l[7:])
        elif m and m.group(1) == "Input":
            want.append(((("dt=%s " % m.group(2)) if m.group(2) else "") + m.group(3) + m.group(4) + (" :|:" if m.group(6) else ""), m.group(11), m.group(12)))
    w = [x if isinstance(x, str) else "%s {%s %s}" % x for x in want]
    ctx.evaluations += 1; ctx.count("tool-runs"); ctx.count("converted", len(w))
    if rc or got != w:
        d = [(a, b) for a, b in zip(got, w) if a != b][:1]
        ctx.violation("to-input", "the input made from the printed input differs: %s %s" % (d or (len(got), len(w)), err), {"script": text})
    rc, got, err = tool("concept_usefulness_filter.py", lines, str(n))
    us = [float(re.search(r'"usefulness": ([0-9.]+)', l).group(1)) for l in lines if l.startswith("//") and '"usefulness": ' in l]
    g = [(re.match(r"//\{i=([0-9]+)\} (.*?): \{ \"priority\"", l), float(re.search(r'"usefulness": ([0-9.]+)', l).group(1))) for l in got if l.startswith("//{i=")]
    ctx.evaluations += 1; ctx.count("tool-runs")
    if rc or [x[1] for x in g] != sorted(us, reverse=True)[:n] or [int(x[0].group(1)) for x in g] != list(range(len(g))):
        ctx.violation("usefulness-filter", "the %d most useful concepts are not what it shows %s" % (n, err), {"script": text})
