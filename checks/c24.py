"""C24: every printed line against the grammar of records; every addition, selection and execution against what was printed for it;
the parser of misc/Python/NAR.py on every line against the reported item; echoes against the given input."""
import ast, json, os, random, re, shutil
from vlib import build, core, mon, nal, stress, truth as T
from checks.c15 import skilled, valued
from checks.c20 import chains
MIN = 8000
WRAPS = ["Memory_AddEvent", "Memory_AddInputEvent", "PriorityQueue_PopMax", "Decision_Execute", "Decision_Anticipate", "Inference_RevisionAndChoice"]
N = r"-?\d+\.\d{6}"
STAMP = r"Stamp=\[((?:-?\d+(?:,-?\d+)*)?)\]"
KNOW = re.compile(r"^(Input|Derived|Revised|Selected): (?:dt=(%s) )?(.+)([.!]) (?::\|: occurrenceTime=(-?\d+) )?Priority=(%s) %s Truth: frequency=(%s), confidence=(%s)$" % (N, N, STAMP, N, N))
ANSWER = re.compile(r"^Answer: (?:None\.|(.+)\. (?::\|: occurrenceTime=(-?\d+) )?creationTime=(\d+) %s Truth: frequency=(%s), confidence=(%s))$" % (STAMP, N, N))
QUESTION = re.compile(r"^Input: (.+)\?( :\|:| :\\:| :/:)?$")
DECISION = re.compile(r"^decision expectation=(%s) implication: (.+)\. %s Truth: frequency=(%s) confidence=(%s) dt=(%s) precondition: (.+)\. :\|: %s Truth: frequency=(%s) confidence=(%s) occurrenceTime=(-?\d+)$" % (N, STAMP, N, N, N, STAMP, N, N))
EXECUTED = re.compile(r"^(\^\S+) executed with args ?(.*)$")
STEPS = re.compile(r"^(performing (\d+) inference steps:|done with (\d+) additional inference steps\.)$")
COMMENT = re.compile(r"^Comment: ?(.*)$")
KINDS = [("knowledge", KNOW), ("answer", ANSWER), ("question", QUESTION), ("decision", DECISION), ("executed", EXECUTED), ("steps", STEPS), ("comment", COMMENT)]

def client():
    """the parsing functions of the repository's own Python client (without its process)"""
    src = open(os.path.join(build.REPO, "misc", "Python", "NAR.py")).read()
    tree = ast.parse(src)
    env = {"ast": ast}
    fns = [n for n in tree.body if isinstance(n, ast.FunctionDef) and n.name in ("parseTruth", "parseTask", "parseReason", "parseExecution")]
    exec(compile(ast.Module(fns, []), "NAR.py", "exec"), env)
    return env

def record(kind, t, ty, f, c, s, occ, dt, p):
    term = nal.show(nal.dec(t))
    return "%s: %s%s%s %sPriority=%f Stamp=[%s] Truth: frequency=%f, confidence=%f" % (kind, "dt=%f " % dt if nal.decp(t).get(0) == "$" else "", term, ty, ":|: occurrenceTime=%d " % occ if occ != -1 else "", p, ",".join(map(str, s)), f, c)

def evrec(kind, e, p): return record(kind, e["t"], e["ty"], e["f"], e["c"], e["s"], e["o"], e["dt"], p)

class Judge:
    def __init__(self, ctx, env, script):
        self.ctx, self.env, self.script, self.n = ctx, env, script, 0
    def bad(self, key, msg):
        self.ctx.violation(key, msg, {"script": "\n".join(self.script)})
    def seen(self, what, n=1):
        self.ctx.count(what, n); self.ctx.evaluations += n
    def client(self, line, e, f, c, s, occ, p, term, ty, dt):
        """what the Python client makes of a knowledge line"""
        self.seen("client_parses")
        try: M = self.env["parseTask"](line.split(": ", 1)[1])
        except Exception as x: self.bad("client-failed", "the client cannot read %r: %r" % (line, x)); return
        got = (re.sub(r"^dt=%s " % N, "", M["term"]) if dt else M["term"], M["punctuation"], M["occurrenceTime"], M.get("Stamp"), M["truth"]["frequency"], M["truth"]["confidence"], M.get("Priority"))
        want = (term, ty, str(occ) if occ != -1 else "eternal", list(s), "%f" % f, "%f" % c, "%f" % p)
        if got != want: self.bad("client-reads", "of %r the client reads %r, reported is %r" % (line, got, want))
    def addition(self, b, a, lines):
        e, I = b["e"], b["in"]
        root = nal.decp(e["t"]).get(0)
        impl = e["ty"] == "." and root in ("$", "?")
        self.seen("additions")
        on = b["pd"] and True
        fields = lambda e, p: self.client
        rep = I and "Input" or "Derived"
        et = (e["f"], e["c"]) if e["o"] == -1 else T.Eternalize((e["f"], e["c"]))
        p = b["p"] if I else a["p"] if a["buf"] and not b["dup"] else None
        def texts(p):
            """what may be printed for this addition with priority p"""
            out = {"event": [evrec(rep, e, p)] if not I else [evrec("Input", e, p)], "impl": [], "revised": []}
            if not I: out["event"].append(evrec("Revised", e, p))
            if impl:
                out["impl"].append(record(rep, e["t"], ".", et[0], et[1], e["s"], -1, e["dt"], p))
            if a["tab"]:
                m = a["tab"]; out["revised"].append(record("Revised", m["t"], ".", m["f"], m["c"], m["s"], -1, m["dt"], p))
            if a["bel"]:
                m = a["bel"]; out["revised"].append(evrec("Revised", m, p))
                if root == "?": out["impl"].append(record("Derived", m["t"], ".", m["f"], m["c"], m["s"], -1, m["dt"], p))
            return out
        parsed = []
        for l in lines:
            m = KNOW.match(l)
            if not m or m.group(1) == "Selected": self.bad("addition-prints", "an addition of %s prints %r" % (nal.show(nal.dec(e["t"])), l)); return
            parsed.append((l, m))
        # what is printed in between is this addition's event, implication, or what they were revised to
        count = {"event": 0, "impl": 0}
        for l, m in parsed:
            pp = float(m.group(6))
            allowed = texts(p if p is not None else 0)
            if p is None: allowed = {k: [re.sub(r"Priority=%s" % N, "Priority=" + m.group(6), x) for x in v] for k, v in allowed.items()}
            hit = next((k for k in ("event", "impl", "revised") if l in allowed[k]), None)
            # the table revises what was revised before; an entry in between is gone when it is looked at
            if hit is None and root == "?" and m.group(1) == "Revised" and m.group(3) == nal.show(nal.dec(e["t"])): hit = "revised"; self.seen("intermediate_revisions")
            if hit is None: self.bad("reports-other", "for %r (priority %r) %r is printed; allowed: %r" % (e, p, l, allowed)); continue
            if l in allowed["event"]: count["event"] += 1
            if l in allowed["impl"]: count["impl"] += 1
            self.seen("reported_" + m.group(1).lower())
            if hit == "event" and p is not None: self.client(l, e, e["f"], e["c"], e["s"], e["o"], p, nal.show(nal.dec(e["t"])), e["ty"], root == "$")
            if m.group(1) != "Input" and not (I and impl and m.group(1) == "Revised"):   # how an implication was revised by an input is part of its echo
                if not on or b["pth"] >= 1: self.bad("off-but-reported", "output is off and %r is printed" % l)
                elif pp < b["pth"] - 1e-6: self.bad("below-threshold", "%r is printed with output from %r on" % (l, b["pth"]))
        same = set(texts(0)["event"]) & set(texts(0)["impl"])
        if I:
            if not b["pin"]: return
            if e["c"] < 0.01 - 1e-12:
                if count["event"]: self.bad("echo-rejected", "the rejected %r is echoed" % (e,))
            elif e["ty"] == "!" or root != "$":
                ok = (1, 2) if same else (1,)
                self.seen("echoes")
                if count["event"] not in ok: self.bad("echo", "%r is echoed %d times: %r" % (e, count["event"], lines))
            elif a["moved"]:
                self.seen("echoes_implication")
                if count["impl"] != 1: self.bad("echo-implication", "the implication %r is echoed %d times: %r" % (e, count["impl"], lines))
        else:
            new = a["buf"] and not b["dup"]
            if new and on and a["p"] > b["pth"] + 1e-9:
                self.seen("new_derivations")
                ok = (1, 2) if same else (1,)
                if count["event"] not in ok: self.bad("derivation-reported", "the new derivation %r is reported %d times: %r" % (e, count["event"], lines))
            if b["dup"] and count["event"] and not same and not a["bel"]: self.bad("duplicate-reported", "%r was buffered before and is reported again: %r" % (e, lines))
            if b["dup"]: self.seen("duplicates")
    def selection(self, x, lines):
        self.seen("selections")
        sel = [l for l in lines if l.startswith("Selected: ")]
        if x["pd"] and x["p"] > x["pth"] + 1e-9:
            w = evrec("Selected", x["e"], x["p"])
            if sel != [w]: self.bad("selected", "selection of %r is printed as %r" % (w, sel))
            else: e = x["e"]; self.client(w, e, e["f"], e["c"], e["s"], e["o"], x["p"], nal.show(nal.dec(e["t"])), e["ty"], nal.decp(e["t"]).get(0) == "$")
        elif x["pth"] >= 1 or not x["pd"]:
            if sel: self.bad("off-but-selected", "output is off and %r is printed" % sel)
    def execution(self, x, lines):
        for l in lines:
            m = EXECUTED.match(l)
            if not m: continue
            self.seen("executions")
            op, args = nal.show(nal.dec(x["op"])), nal.show(nal.dec(x["args"])) if x["args"] else ""
            if m.group(1) != op or m.group(2).strip() != args: self.bad("executed", "execution of %s with %s is printed as %r" % (op, args, l))
            M = self.env["parseExecution"](l.strip())
            a = nal.dec(x["args"]) if x["args"] else None
            if M["operator"] != op: self.bad("client-execution", "of %r the client reads %r" % (l, M))
            if isinstance(a, tuple) and a[0] == "*" and nal.show(a[1]) == "{SELF}" and a[2] not in (None, nal.TERMINATOR) and "{SELF} * " not in nal.show(a[2]):
                if M["arguments"] != nal.show(a[2]): self.bad("client-execution", "of %r the client reads arguments %r" % (l, M["arguments"]))

def lines_of(res):
    for k, x in mon.stream(res):
        yield k, x

def judge(ctx, env, script, res):
    J = Judge(ctx, env, script)
    stack, cur, pend = [], None, None     # cur: lines of the innermost open addition or execution
    last_pop = None
    def flush():
        nonlocal last_pop
        if last_pop: J.selection(*last_pop); last_pop = None
    for k, x in mon.stream(res):
        if k == "rec":
            kind = x.get("k")
            if kind in ("ab", "pop", "xb", "nb", "line", "counts", "end", "mark"): flush()
            if kind == "ab": stack.append((x, []))
            elif kind == "ae":
                b, ls = stack.pop()
                if x["d"] == 0 or b["k"] == "ab": J.addition(b, x, ls)
            elif kind == "xb": stack.append((x, []))
            elif kind == "xe":
                b, ls = stack.pop()[:2]; J.execution(b, ls)
            elif kind == "nb": stack.append((x, [], set()))
            elif kind == "ne": stack.pop()
            elif kind == "rc" and stack and stack[-1][0]["k"] == "nb": stack[-1][2].add(evrec("Derived", x["e"], 1.0))
            elif kind == "pop": last_pop = (x, [])
            continue
        if k != "out": continue
        J.seen("lines")
        kinds = [n for n, rx in KINDS if rx.match(x)]
        if not kinds: J.bad("grammar", "%r is no record of the protocol" % x); continue
        ctx.count("lines_" + kinds[0])
        if kinds[0] == "knowledge":
            m = KNOW.match(x)
            try: nal_ok = x.isprintable()
            except Exception: nal_ok = False
            if not nal_ok: J.bad("grammar", "%r is not printable" % x)
            if m.group(1) == "Selected":
                if last_pop: last_pop[1].append(x)
                else: J.bad("selected-nothing", "%r is printed and nothing was selected" % x)
            elif stack and stack[-1][0]["k"] == "ab": stack[-1][1].append(x)
            elif stack and stack[-1][0]["k"] == "nb":
                J.seen("reported_anticipations")
                if x not in stack[-1][2]: J.bad("anticipation-reported", "%r is printed, anticipation made %r" % (x, list(stack[-1][2])[:5]))
                if not stack[-1][0]["pd"] or stack[-1][0]["pth"] >= 1: J.bad("off-but-reported", "output is off and %r is printed" % x)
            else: J.bad("unaccounted", "%r is printed and nothing was added" % x)
        elif stack: stack[-1][1].append(x)
        if kinds[0] == "answer" and not x.endswith("None."):
            m = ANSWER.match(x); J.seen("answers")
            M = env["parseTask"](x.split("Answer: ")[1])
            got = (M["term"], M["punctuation"], M["occurrenceTime"], M.get("Stamp"), M["truth"]["frequency"], M["truth"]["confidence"])
            want = (m.group(1), ".", m.group(2) or "eternal", [int(v) for v in m.group(4).split(",") if v], m.group(5), m.group(6))
            if got != want: J.bad("client-answer", "of %r the client reads %r" % (x, got))
        if kinds[0] == "decision":
            m = DECISION.match(x); J.seen("decisions")
            M = env["parseReason"](x)
            h, q = M["hypothesis"], M["precondition"]
            got = (M["desire"], h["term"], h["Stamp"], h["truth"]["frequency"], h["truth"]["confidence"], q["term"], q["Stamp"], q["truth"]["frequency"], q["truth"]["confidence"], q["occurrenceTime"])
            li = lambda s: [int(v) for v in s.split(",") if v]
            want = (m.group(1), m.group(2), li(m.group(3)), m.group(4), m.group(5), m.group(7), li(m.group(8)), m.group(9), m.group(10), m.group(11))
            if got != want: J.bad("client-reason", "of %r the client reads %r, not %r" % (x, got, want))
    flush()

def terms(r, d=2):
    """terms without reducible structure, in canonical form"""
    k = r.random()
    a = lambda: r.choice(["a", "b", "cat", "x1", "red_ball", "k9", "Z"])
    if d == 0 or k < 0.35: return a()
    if k < 0.5: return "(%s * %s)" % (a(), terms(r, d - 1))
    if k < 0.6: return "{%s}" % a()
    if k < 0.7: return "[%s]" % a()
    return "<%s --> %s>" % (a(), r.choice(["q", "[red]", "<(c * d) --> e>", "rel"]))

def echo_lines(r, n):
    """(line, expected echo)"""
    out = []
    for _ in range(n):
        s, p = r.choice(["a1", "b1", "(a * b)", "{x}", "(a * (b * c))", "((a * b) * c)", "<(k * l) --> m>"]), r.choice(["p", "[red]", "(c * d)", "rel", "<(u * v) --> w>"])
        t = r.choice(["<%s --> %s>" % (s, p), "<%s --> %s>" % (s, p), "<%s <-> p9>" % r.choice(["a1", "b1"])])
        kind = r.random()
        if kind < 0.25:
            tense = r.choice(["", " :|:", " :\\:", " :/:"])
            out.append(("%s?%s" % (t, tense), "Input: %s?%s" % (t, tense)))
        else:
            f, c = r.choice([1.0, 0.0, round(r.random(), 3)]), r.choice([0.9, 0.5, 0.99, round(0.02 + 0.95 * r.random(), 3)])
            goal = kind > 0.8
            ev = goal or r.random() < 0.5
            tv = "" if r.random() < 0.3 else " {%s %s}" % (f, c)
            if not tv: f, c = 1.0, 0.9
            out.append(("%s%s%s%s" % (t, "!" if goal else ".", " :|:" if ev else "", tv), (t, "!" if goal else ".", ev, f, c)))
    return out

DRIVER = """import json, sys, os
sys.stdout, keep = open(os.devnull, "w"), sys.stdout
sys.path.insert(0, os.getcwd())
import NAR
out = [NAR.AddInput(l, Print=False) for l in json.load(open(sys.argv[1]))]
NAR.NARproc.stdin.close(); NAR.NARproc.wait(10)
json.dump(out, keep); keep.flush(); os._exit(0)
"""

def live(ctx, exes):
    """the Python client with a live process behind it: what it returns for each line is what the shell prints for it"""
    nar = build.build("plain", (), (), stress.CONFIGS["mid"], keep_main=True, name="nar")
    def go(i):
        r = random.Random("c24l/%d/%d" % (ctx.seed, i))
        d = os.path.join(ctx.scratch, "live%d" % i)
        os.makedirs(os.path.join(d, "misc", "Python"))
        shutil.copy(os.path.join(build.REPO, "misc", "Python", "NAR.py"), os.path.join(d, "misc", "Python"))
        shutil.copy(nar, os.path.join(d, "NAR"))
        s = skilled(r, 80) if i % 2 else stress.mixed("c24l/%d" % ctx.seed, i, 80)
        lines = [l for l in s if not l.startswith(("@", "*stats", "*setopstdin")) and l not in ("quit", "") and not l.startswith("//")]
        for _ in range(8): lines.insert(r.randrange(len(lines)), r.choice(["<?1 --> ?2>?", "<?1 =/> ?2>?", "?1? :|:"]))
        with open(os.path.join(d, "lines.json"), "w") as f: json.dump(lines, f)
        with open(os.path.join(d, "misc", "Python", "drive.py"), "w") as f: f.write(DRIVER)
        a = core.run(["python3", "drive.py", os.path.join(d, "lines.json")], cwd=os.path.join(d, "misc", "Python"), timeout=120)
        b = core.run([nar, "shell"], "".join(l + "\n0\n" for l in ["*volume=100"] + lines), timeout=120)
        return lines, a, b
    zero = "done with 0 additional inference steps."
    for lines, a, b in core.pmap(go, range(ctx.scale(6, 40))):
        if a.timeout or b.timeout: ctx.inconclusive += 1; continue
        def bad(msg): ctx.violation("live-client", msg, {"script": "\n".join(lines)})
        try: out = json.loads(a.text())
        except ValueError: bad("the client failed: %s %s" % (a.text()[-300:], a.err.decode("latin-1")[-600:])); continue
        parts_ = [p.strip("\n").split("\n") for p in b.text().split(zero + "\n")][1:]
        for l, o, p in zip(lines, out, parts_):
            p = [x.strip() for x in p if x != ""][:-1]
            ctx.evaluations += 1; ctx.count("live_lines")
            if [x for x in o["raw"].split("\n") if x] != p: bad("for %r the client returns %r, the shell prints %r" % (l, o["raw"][:400], p[:5])); break
            n = {"input": "Input: ", "derivations": ("Derived: ", "Revised: "), "answers": "Answer: ", "executions": "^", "selections": "Selected: "}
            for k, pre in n.items():
                ls = [x for x in p if x.startswith(pre)]
                if len(ls) != len(o[k]): bad("for %r the client returns %d %s, the shell prints %d" % (l, len(o[k]), k, len(ls))); break
                for x, M in zip(ls, o[k]):
                    m = KNOW.match(x)
                    if not m: continue
                    w = (m.group(3), m.group(4), m.group(5) or "eternal", [int(v) for v in m.group(7).split(",") if v], m.group(8), m.group(9))
                    g = (re.sub(r"^dt=%s " % N, "", M["term"]), M["punctuation"], M["occurrenceTime"], M["Stamp"], M["truth"]["frequency"], M["truth"]["confidence"])
                    if w != g: bad("of %r the client reads %r" % (x, g))
            if bool(o["reason"]) != any(x.startswith("decision expectation=") for x in p): bad("for %r the client returns the reason %r: %r" % (l, o["reason"], p))

def run(ctx):
    plan = [("big", 8, 80), ("mid", 14, 110), ("tiny", 10, 110)]
    if ctx.thorough: plan = [(c, 6 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_out.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, l in plan}, "out")
    env = client()
    for cfg, n, length in plan:
        def go(i):
            r = random.Random("c24/%d/%s/%d" % (ctx.seed, cfg, i))
            k = i % 4
            s = skilled(r, length) if k == 0 else chains(r, length) if k == 1 else valued(r, length) if k == 2 else stress.mixed("c24/%d/%s" % (ctx.seed, cfg), i, length)
            out = [] if i % 3 == 2 else ["*volume=100"]
            for l in s:
                if l.startswith(("*stats", "*concepts", "*cycling", "*opconfig", "*inverted", "@", "*volume")) or l == "quit": continue
                if r.random() < 0.05: out.append(r.choice(["*volume=0", "*volume=100", "*volume=100", "*volume=%d" % r.randrange(101), "// a comment, Derived: nothing", "//", "3"]))
                out.append(l)
                if r.random() < 0.08: out.append(r.choice(["<?1 --> ?2>?", "<?1 --> ?2>? :|:", "<?1 =/> ?2>?", "<?1 ==> ?2>?", "?1? :\\:", "*query 0.3 <?1 --> ?2>?", "*query 0.0 ?1? :|:", "*query 0.4 <(?1 &/ ?2) =/> ?3>?", "a? :/:"]))
            if i % 5 == 4: out = stress.aged(out, [5000000000, 3000000000][i // 5 % 2])
            if i % 5 == 2: out = ["*currenttime=0"] + [l for l in out if l != "*concurrent"]
            return out, core.run([exes[cfg]], "".join(l + "\n" for l in out), timeout=300)
        for out, res in core.pmap(go, range(n)):
            if mon.died(ctx, res, "\n".join(out), "output"): continue
            judge(ctx, env, out, res)
            ctx.distinct("%s/%d" % (cfg, hash(res.out) if hasattr(res, "out") else len(res.text())))
    # echoes of given lines, and step, comment and answer records: one each per line
    def echo(i):
        r = random.Random("c24e/%d/%d" % (ctx.seed, i))
        es = echo_lines(r, 60)
        script, exp = ["@mark\tq", "*motorbabbling=false"], [None]
        for j, (l, w) in enumerate(es):
            script += ["@mark\t%d" % j, l]; exp.append(w)
            if r.random() < 0.2: n_ = r.choice([1, 2, 5, 0]); script += ["@mark\ts%d" % j, str(n_)]; exp.append(n_)
            if r.random() < 0.1: c = r.choice(["hello", " x", "Derived: y", "", "a. :|:"]); script += ["@mark\tc%d" % j, "//" + c]; exp.append("//" + c)
        res = core.run([exes["mid"]], "".join(l + "\n" for l in script + ["@mark\tend"]), timeout=120)
        return script, exp, res
    for script, exp, res in core.pmap(echo, range(ctx.scale(16, 100))):
        if mon.died(ctx, res, "\n".join(script), "echo"): continue
        marks = {}; cur = None
        for k, x in mon.stream(res):
            if k == "rec" and x.get("k") == "mark": cur = x["v"]; marks[cur] = []
            elif k == "out" and cur is not None: marks[cur].append(x)
        for (mk, line), w in zip([(script[q][6:], script[q + 1]) for q in range(0, len(script), 2)], exp):
            got = marks.get(mk, [])
            ctx.evaluations += 1; ctx.count("given_lines"); ctx.distinct(line)
            def bad(msg): ctx.violation("given-" + ("steps" if isinstance(w, int) else "comment" if isinstance(w, str) and w.startswith("//") else "question" if isinstance(w, str) else "echo"), msg, {"script": "\n".join(script)})
            if w is None: continue
            if isinstance(w, int):
                if [l for l in got if STEPS.match(l)] != ["performing %d inference steps:" % w, "done with %d additional inference steps." % w] or (got and (got[0][:10] != "performing" or got[-1][:4] != "done")): bad("%r prints %r" % (line, got[:3] + got[-2:]))
            elif isinstance(w, str) and w.startswith("//"):
                if got != ["Comment: " + w[2:].rstrip()]: bad("%r prints %r" % (line, got))
            elif isinstance(w, str):
                if got[:1] != [w] or len([l for l in got if l.startswith("Answer: ")]) != 1 or len(got) != 2: bad("%r prints %r" % (line, got))
            else:
                t, ty, ev, f, c = w
                ins = [KNOW.match(l) for l in got if l.startswith("Input: ")]
                if len(ins) != 1 or not ins[0]: bad("%r is echoed as %r" % (line, [l for l in got if l.startswith("Input: ")])); continue
                m = ins[0]
                if (m.group(3), m.group(4), m.group(5) is not None, m.group(8), m.group(9), m.group(6)) != (t, ty, ev, "%f" % f, "%f" % c, "1.000000"): bad("%r is echoed as %r" % (line, m.group(0)))
    live(ctx, exes)
    ctx.sample({"echo": script[1], "got": res.text()[:300]})
    ctx.rule = "distinct output transcripts and distinct given lines; each line matched to the addition, selection or execution it reports"
    ctx.assumptions = ["an implication between statements is reported as event and as the implication it is stored as", "the client keeps dt= of an implication in its term field; it is taken off before the comparison", "the assumed failure of a hypothesis never observed carries no evidence id"]
