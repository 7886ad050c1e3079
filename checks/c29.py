"""C29: sessions given line by line to the shell and call by call to the library give the same output and the same memory;
callbacks get what was executed and their answers (failure, substitution, result product) are respected."""
import random, re
from vlib import build, core, stress, mon, nal
from checks.c15 import skilled
from checks.c16 import stream as revisions
from checks.c20 import chains
MIN = 3000
DEFAULT_OPS = ["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate"]
SENT = re.compile(r"^(?:dt=(\S+) )?(.*)([.!])( :\|:)?(?: \{(\S+) (\S+)\})?$")

def host(lines, r, share=1.0):
    """the same session through the library"""
    init = ["@api\tinit"] + ["@api\top\t" + o for o in DEFAULT_OPS]
    out = list(init)
    argued = any(l.startswith(("*setop", "*reset")) for l in lines)
    for l in lines:
        if l == "*reset": out += init
        elif r.random() > share: out.append(l)
        elif not argued and r.random() < 0.02: out += ["@api\top\t" + r.choice(DEFAULT_OPS), l]
        elif re.match(r"^\d+$", l): out.append("@api\tcycles\t" + l)
        elif l.startswith("*query "): out.append("@api\tquery\t%s\t%s" % tuple(l.split(" ", 2)[1:]))
        elif l.startswith("*decisionthreshold="): out.append("@api\tdth\t" + l.split("=")[1])
        elif l.startswith("*motorbabbling="): out.append("@api\tbabble\t" + {"false": "0", "true": "0.2"}.get(l.split("=")[1], l.split("=")[1]))
        elif l.startswith(("*", "//", "@")) or l in ("", "quit"): out.append(l)
        else:
            m = SENT.match(l)
            if not m or r.random() < 0.15 or m.group(3) == "!" and not m.group(4): out.append("@api\tnarsese\t" + l)
            else:
                dt, term, punct, now, f, c = m.groups()
                if now and f is None and dt is None and r.random() < 0.7: out.append("@api\t%s\t%s" % ("goal" if punct == "!" else "belief", term))
                else: out.append("@api\tin\t%s\t%s\t%s\t%s\t%d\t%s" % (term, punct, f or "1.0", c or "0.9", 0 if now else 1, dt or "0"))
    return out

def printed(res):
    return [x for k, x in mon.stream(res) if k == "out" and not re.match(r"performing \d+ inf|done with \d+ add|//Operation result product", x)]

def memory(res):
    """what the final dump holds"""
    out = []; on = False
    for k, x in mon.stream(res):
        if k != "rec": continue
        if x.get("k") == "mark" and x.get("v") == "end": on = True; continue
        if on and x.get("k") not in ("line", "counts", "end"):
            x.pop("si", None)
            out.append(x)
    return out

def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i, x, y
    if len(a) != len(b):
        i = min(len(a), len(b))
        return i, (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)

def compare(ctx, key, sa, ra, sb, rb, what):
    files = {"script": "\n".join(sa), "other": "\n".join(sb)}
    d = first_difference(printed(ra), printed(rb))
    if d:
        ctx.violation(key + "-output", "%s: output %d is '%s' against '%s'" % ((what,) + d), files); return
    ma, mb = memory(ra), memory(rb)
    if not ma: ctx.inconclusive += 1; return
    d = first_difference(ma, mb)
    if d:
        a, b = str(d[1]), str(d[2])
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
        ctx.violation(key + "-memory", "%s: memory record %d differs at ...%s against ...%s" % (what, d[0], a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120]), files); return
    ctx.count("memory_records_equal", len(ma)); ctx.count("outputs_equal", len(printed(ra)))

def calls(ctx, s, res, seq):
    """what the calls returned and what the callbacks got"""
    cmds = iter([l for l in s if re.match(r"@api\t(in|belief|goal)\t", l)])
    shown = None; last = (1, 1)
    for k, x in mon.stream(res):
        if k == "out":
            m = re.match(r"(\^\S+) executed with args ?(.*)$", x)
            if m:
                if shown: ctx.violation("uncalled", "'%s' was printed, the registered callback was not called" % (shown,), {"script": "\n".join(s)}); return
                shown = (m.group(1), m.group(2).strip())
        elif k == "rec" and x.get("k") == "cb":
            got = (x["op"], nal.show(nal.dec(x["args"])) if x["args"] else "")
            if shown != got: ctx.violation("callback", "the callback got %s, printed was %s" % (got, shown), {"script": "\n".join(s)}); return
            shown = None; ctx.count("callbacks"); ctx.distinct(("cb",) + got)
        elif k == "rec" and x.get("k") == "ret":
            f = next(cmds).split("\t"); e = x["e"]
            if f[1] == "in": ty, tv, et, dt = f[3], (float(f[4]), float(f[5])), f[6] == "1", float(f[7])
            else: ty, tv, et, dt = ("!" if f[1] == "goal" else "."), (1.0, 0.9), False, 0.0
            want = {"ty": ty, "f": tv[0], "c": tv[1], "s": [x["b0"]], "o": -1 if et else x["t0"], "dt": dt, "ct": x["t0"], "in": 1}
            bad = {q: (e.get(q), v) for q, v in want.items() if e.get(q) != v} if e else "nothing"
            if bad: ctx.violation("returned", "%s returned %s at time %d, base %d: %s" % (f[1:], e, x["t0"], x["b0"], bad), {"script": "\n".join(s)}); return
            ctx.count("returned_events")
    if shown: ctx.violation("uncalled", "'%s' was printed, the registered callback was not called" % (shown,), {"script": "\n".join(s)})

# ---------------------------------------------------------------- answers of the callbacks
VALS = ["x", "y", "z", "(u * v)", "42"]
def sub(t, env):
    return re.sub(r"[$#]\d", lambda m: env.get(m.group(0), m.group(0)), t)

def plan(r, maxlen):
    """knowledge with a sequence of operations, and how the host answers each"""
    n = r.randrange(1, maxlen + 1)
    var = r.random() < 0.5
    k = r.choice(["m", "n", "7"])
    pre, goal = ("<$1 --> a>", r.choice(["<$1 --> g>", "<g --> [$1]>"])) if var else ("a", r.choice(["g", "<g --> h>"]))
    pool = ["#1", "#2", "#1", "x", "y"] + (["$1", "$1"] if var else [])
    names = r.sample(DEFAULT_OPS[:8], n)
    ops, env = [], ({"$1": k} if var else {})
    for i in range(n):
        q = r.random()
        args = None if q < 0.15 else r.choice(pool) if q < 0.6 else "(%s * %s)" % (r.choice(pool), r.choice(pool))
        ops.append((names[i], args))
    know = pre
    place = [] # variables are numbered by their position in the term, level by level
    for i, (o, a) in enumerate(ops):
        arg = ((2 << (n - 1 - i)) * 2 + 1) * 4 + 1
        vs = re.findall(r"[$#]?\w+", a or "")
        place += [(arg if len(vs) == 1 else 2 * arg + j, v) for j, v in enumerate(vs) if v[0] == "#"]
    seen = []
    for q, v in sorted(place):
        if v not in seen: seen.append(v)
    ops = [(o, a and re.sub(r"#\d", lambda m: "#%d" % (seen.index(m.group(0)) + 1), a)) for o, a in ops]
    for o, a in ops: know = "(%s &/ %s)" % (know, o if a is None else "<({SELF} * %s) --> %s>" % (a, o))
    known = "<%s =/> %s>." % (know, goal)
    expect, reg, products = [], [], []
    cur = [None if a is None else sub(a, env) for o, a in ops]
    dead = False
    for i, (o, a) in enumerate(ops):
        vs = sorted(set(re.findall(r"#\d", cur[i] or "")))
        mode = r.choice(["ok", "bind", "bind", "bind", "fail", "mismatch"]) if not dead else "ok"
        if mode == "bind" and not vs or mode == "mismatch" and cur[i] is None: mode = "ok"
        env2 = {}
        if mode in ("bind",):
            for v in vs:
                if r.random() < 0.85: env2[v] = r.choice(VALS)
        reg.append("@api\top\t%s\t%d\t0" % (o, mode in ("fail", "mismatch")) + "".join("\t%s\t%s" % (v, t) for v, t in env2.items()))
        if not dead:
            full = cur[i]
            done = sub(full, env2) if full else None
            expect.append((o, "" if full is None else "({SELF} * %s)" % full, None if mode in ("fail", "mismatch") else (o if done is None else "<({SELF} * %s) --> %s>" % (done, o))))
            products.append((o, mode, done))
            for j in range(i + 1, n): cur[j] = None if cur[j] is None else sub(cur[j], env2)
        if mode in ("fail", "mismatch"): dead = True
    return {"known": known, "pre": sub(pre, env), "goal": sub(goal, env), "ops": ops, "expect": expect, "reg": reg, "products": products}

def answers(ctx, exe, n, maxlen, what):
    plans = [plan(random.Random("c29p/%s/%d/%d" % (what, ctx.seed, i)), maxlen) for i in range(n)]
    jobs = []
    for p in plans:
        api = ["*motorbabbling=false", "@api\tinit"] + ["@api\top\t" + o for o in DEFAULT_OPS] + ["*setoparg %d 1 zz" % (DEFAULT_OPS.index(o) + 1) for o, a in p["ops"][:1]] + p["reg"] + \
              ["@api\tnarsese\t" + p["known"], "@api\tbelief\t" + p["pre"], "@api\tgoal\t" + p["goal"], "@mark\tend", "@dump\tsovmbg"]
        # through the shell: the result product comes on standard input, after the synchronisation line
        sh = ["*motorbabbling=false"]
        lines = []
        possible = True
        for o, mode, done in p["products"]:
            if done is None: possible = possible and mode == "ok"; continue
            sh.append("*setopstdin %d" % (DEFAULT_OPS.index(o) + 1))
            if mode in ("fail", "mismatch"): lines += ["0", "(no * such)" if "*" not in done else "other"]; possible = possible and "#" not in p["expect"][len(lines) // 2 - 1][1]
            else: lines += ["0", done]; possible = possible and "#" not in done
        if any(o[1] is None for o in p["ops"]) : possible = False
        sh += [p["known"], p["pre"] + ". :|:", p["goal"] + "! :|:"] + lines + ["@mark\tend", "@dump\tsovmbg"]
        jobs.append((p, api, sh if possible else None))
    def go(j):
        p, api, sh = j
        return j, mon.session(exe, api)[0], mon.session(exe, sh)[0] if sh else None
    for (p, api, sh), ra, rs in core.pmap(go, jobs):
        if mon.died(ctx, ra, "\n".join(api), what): continue
        for x in mon.records(ra):
            if isinstance(x, dict) and x.get("k") == "v": ctx.violation(x["key"], x["msg"], {"script": "\n".join(api)})
        got, fed, cur = [], [], None
        time = None
        for k, x in mon.stream(ra):
            if k == "rec" and x.get("k") == "cb":
                cur = len(got); got.append([x["op"], nal.show(nal.dec(x["args"])) if x["args"] else "", None])
            elif k == "out" and x.startswith("Input: ") and cur is not None and got[cur][2] is None:
                m = re.match(r"Input: (.*)\. :\|: occurrenceTime=\d+ Priority=\S+ Stamp=\S+ Truth: frequency=1\.000000, confidence=0\.900000$", x)
                got[cur][2] = m.group(1) if m else x
            elif k == "rec" and x.get("k") == "state": time = x["time"]
        want = [list(x) for x in p["expect"]]
        if got != want:
            ctx.violation(what + "-answer", "%s, host answers %s: executed and fed back was %s, expected %s" % (p["known"], p["reg"], got, want), {"script": "\n".join(api)})
        elif time != 1 + 3 + sum(1 for x in want if x[2]):
            ctx.violation(what + "-clock", "time is %s after 3 inputs and %d feedbacks" % (time, sum(1 for x in want if x[2])), {"script": "\n".join(api)})
        ctx.count("plans"); ctx.count("plan_callbacks", len(got)); ctx.evaluations += 1
        ctx.distinct((len(want), tuple(bool(x[2]) for x in want)))
        for x in p["products"]: ctx.count("answers_" + x[1])
        if rs is not None:
            if mon.died(ctx, rs, "\n".join(sh), what + "-stdin"): continue
            compare(ctx, what + "-stdin", sh, rs, api, ra, "result products on standard input against substitutions by the host")
            ctx.count("stdin_sessions")

def run(ctx):
    cfg = dict(stress.CONFIGS["mid"])
    exes = build.monitors("mon", ["w_api.c"], [], {"mid": cfg, "seq": dict(cfg, COMPOUND_TERM_SIZE_MAX=256, MAX_COMPOUND_OP_LEN=3, MAX_SEQUENCE_LEN=4)}, "api")
    n, L = ctx.scale(36, 200), ctx.scale(120, 300)
    jobs = []
    for i in range(n):
        r = random.Random("c29/%d/%d" % (ctx.seed, i))
        k = i % 4
        s = skilled(r, L) if k == 0 else chains(r, L) if k == 1 else revisions(r, L) if k == 2 else stress.mixed("c29m/%d" % ctx.seed, i, L)
        s = [l for l in s if not l.startswith("@")]
        if r.random() < 0.3: s.insert(r.randrange(len(s)), "*reset")
        for q in range(r.randrange(6)): s.insert(r.randrange(len(s)), r.choice(["a? :|:", "<a =/> ?1>?", "*query 0.4 <?1 --> ?2>?", "g?", "dt=3 <a =/> b>.", "dt=-2.5 <a =/> b>. {0.6 0.7}", "dt=2 <a =/> b>! :|:", "dt=1.5 g! :|: {0.9 0.8}", "a. :|: {1.0 0.5}"]))
        s = ["*motorbabbling=%s" % r.choice(["false", "0.3"])] + s
        end = ["@mark\tend", "@dump\tsovmbg"]
        jobs.append((s + end, host(s, r, r.choice([1.0, 1.0, 0.5])) + end, exes[("mid", "seq")[i % 2 if k == 0 else 0]]))
    def go(j):
        a, b, exe = j
        return j, mon.session(exe, a, timeout=200)[0], mon.session(exe, b, timeout=200)[0]
    for (a, b, exe), ra, rb in core.pmap(go, jobs):
        if mon.died(ctx, ra, "\n".join(a), "shell") or mon.died(ctx, rb, "\n".join(b), "host"): continue
        compare(ctx, "host", a, ra, b, rb, "shell against host")
        calls(ctx, b, rb, a)
        for x in mon.records(rb):
            if isinstance(x, dict) and x.get("k") == "v": ctx.violation(x["key"], x["msg"], {"script": "\n".join(b)})
        ctx.count("sessions"); ctx.evaluations += len(a)
        ctx.count("calls", sum(1 for l in b if l.startswith("@api")))
    answers(ctx, exes["mid"], ctx.scale(200, 1500), 1, "single")
    answers(ctx, exes["seq"], ctx.scale(300, 2500), 3, "sequence")
    ctx.sample({"plan": plan(random.Random("c29p/sequence/%d/0" % ctx.seed), 3)})
    ctx.rule = "same output and same memory (concepts, implications, queues, clock, parameters) from calls as from lines; returned event = the input; callback arguments = reported and substituted arguments; a failed operation has no feedback and ends its sequence"
    ctx.assumptions = ["the shell reduces terms by the reduction rules before input, the host in the harness calls the same reduction"]
