"""C11: every Answer line against an independent scan of memory made just before the question."""
import random, re
from vlib import build, core, mon, nal, stress, truth
MIN = 1500
ANS = re.compile(r"^Answer: (.*)\. (:\|: occurrenceTime=(\d+) )?creationTime=(\d+) Stamp=\[([\d,]*)\] Truth: frequency=([\d.]+), confidence=([\d.]+)$")

def statement(r, at):
    a = lambda: r.choice(at)
    k = r.random()
    if k < 0.45: return (":", a(), a())
    if k < 0.55: return ("=", a(), a())
    if k < 0.7: return (":", ("*", a(), a()), a())
    if k < 0.8: return (":", ('"', a(), "@"), ("'", a(), "@"))
    if k < 0.85: return (",", ('"', a(), "@"), ("'", a(), "@"))
    if k < 0.9: return ("!", (":", a(), a()), "@")
    return (":", r.choice([("&", a(), a()), ("|", a(), a()), ("*", a(), ("*", a(), a()))]), a())

def term(r, at, ops):
    k = r.random()
    s = lambda: statement(r, at)
    if k < 0.45: return s()
    if k < 0.55: return r.choice(at)
    if k < 0.65: return ("?", s(), s()) if r.random() < 0.7 else ("?", (";", s(), s()), s())
    if k < 0.68: return ("^", s(), s())
    if k < 0.72: return (";", s(), s())
    e = lambda: r.choice(at) if r.random() < 0.6 else s()
    if k < 0.8: return ("$", e(), e())
    if k < 0.9: return ("$", ("+", e(), r.choice(ops)), e())
    if k < 0.95: return ("+", e(), e())
    return r.choice(ops)

def question(r, t):
    n = r.choice([0, 1, 1, 1, 2, 2, 3])
    m = {}
    for _ in range(n):
        p = [x for x in nal.positions(t) if x > 0]
        if not p: break
        s = nal.at_pos(t, r.choice(p))
        if s in (None, nal.TERMINATOR) or nal.is_var(s): continue
        if s not in m: m[s] = "?%d" % (len(m) + 1)
        if r.random() < 0.9: t = replace(t, s, m[s])
        else: t = replace_one(t, s, m[s])
    return t

def replace(t, s, v):
    if t == s: return v
    if not isinstance(t, tuple): return t
    return (t[0], replace(t[1], s, v), replace(t[2], s, v))
def replace_one(t, s, v):
    if t == s: return v
    if not isinstance(t, tuple): return t
    l = replace_one(t[1], s, v)
    return (t[0], l, t[2] if l != t[1] else replace_one(t[2], s, v))

def script(r, n):
    at = ["a", "b", "c", "d", "e", "f", "cat", "dog", "red", "big"][:r.choice([3, 5, 10])]
    ops = r.sample(["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^activate", "^deactivate", "^deactivate"], r.choice([1, 3])) + [(":", ("*", ('"', "SELF", "@"), "x"), r.choice(["^go", "^deactivate"]))]
    out = ["*motorbabbling=false", "*volume=%s" % r.choice(["0", "0", "100"])]
    known = []
    valued = r.random() < 0.15
    if valued:
        out.append("*similaritydistance=%s" % r.choice([1, 3, 10]))
        for v in (1, 2, 4): out.append("*setvalue %d 10 m" % v)
        at = at + ["m_1.0", "m_2.0", "m_4.0"]
    if r.random() < 0.3: out.append("*questionpriming=%s" % r.choice(["0.0", "0.9", "0.01"]))
    while len(out) < n:
        k = r.random()
        tv = r.choice(["", "", "", " {%.3f %.3f}" % (r.random(), r.uniform(0.02, 0.98)), " {0.0 0.9}", " {1.0 0.5}", " {0.5 0.9}"])
        if k < 0.45 or not known:
            t = term(r, at, ops)
            if r.random() < 0.15: t = r.choice(known) if known else t
            if r.random() < 0.15 and not isinstance(t, str):
                # statements with variables
                x = nal.at_pos(t, r.choice([p for p in nal.positions(t)][1:]))
                if isinstance(x, str) and x not in ("@",) and not nal.is_cop(x): t = replace(t, x, r.choice(["$1", "#1"]))
            if not nal.fits(t): continue
            known.append(t)
            ev = isinstance(t, str) or r.random() < 0.4
            out.append("%s.%s%s" % (nal.show(t), " :|:" if ev and t[0] != "$" else "", tv))
        elif k < 0.52: out.append(str(r.choice([1, 2, 5, 20, 90])))
        else:
            t = r.choice(known) if r.random() < 0.8 else term(r, at, ops)
            q = question(r, t)
            if isinstance(q, tuple) and not nal.fits(q): continue
            tense = r.choice(["", "", "", " :|:", " :|:", " :\\:", " :/:"])
            line = "%s?%s" % (nal.show(q), tense)
            if r.random() < 0.25: line = "*query %s %s" % (r.choice(["0.0", "0.5", "0.6", "0.3", "0.9", "1.0", "%.3f" % r.random()]), line)
            out.append(line)
            if r.random() < 0.1: out.append(line)
    return out

def key(t, f, c, s, o, ct):
    return (t, "%f" % f, "%f" % c, tuple(s), o, ct)

def judge(ctx, script, res):
    n = 0
    cur, lines = None, []
    def close():
        if cur is None: return
        ctx.evaluations += 1
        d = "%s tense %d" % (nal.show(nal.dec(cur["q"])), cur["tense"])
        rep = {"script": "\n".join(script[:n + 1])}
        got = []
        none = 0
        for l in lines:
            if l == "Answer: None.": none += 1; continue
            m = ANS.match(l)
            if not m:
                if l.startswith("Answer"): ctx.violation("malformed", "%s answered by %r" % (d, l), rep)
                continue
            got.append((m.group(1), m.group(6), m.group(7), tuple(int(x) for x in m.group(5).split(",") if x), int(m.group(3)) if m.group(3) else -1, int(m.group(4))))
        items = [(key(nal.show(nal.dec(x["t"])), x["f"], x["c"], x["s"], x["o"], x["ct"]), x["e"], x["kind"]) for x in cur["items"]]
        kinds = {k for _, _, k in items}
        if cur["thr"] >= 0:
            ctx.count("queries")
            if none: ctx.violation("query-none", "%s printed a final answer" % d, rep)
            must = sorted(k for k, e, _ in items if e > cur["thr"] + 1e-9)
            may = [k for k, e, _ in items if abs(e - cur["thr"]) <= 1e-9]
            left = list(got)
            for k in must:
                if k in left: left.remove(k)
                else: ctx.violation("query-missing", "%s above %g misses %r" % (d, cur["thr"], k), rep); return
            for k in left:
                if k in may: may.remove(k)
                else: ctx.violation("query-extra", "%s above %g lists %r" % (d, cur["thr"], k), rep); return
            ctx.count("query_items", len(got))
            if got: ctx.distinct("%s%s%r" % (d, cur["thr"], got[0]))
            return
        if len(got) + none != 1: ctx.violation("answers", "%s got %d answers" % (d, len(got) + none), rep); return
        if not items:
            if got: ctx.violation("unmatched", "%s answered by %r although nothing matches" % (d, got[0]), rep)
            ctx.count("none"); return
        if none: ctx.violation("none", "%s not answered although %r matches" % (d, items[0]), rep); return
        best = max(e for _, e, _ in items)
        same = [(k, e, x) for k, e, x in items if k == got[0]]
        if not same:
            near = [k for k, e, _ in items if k[0] == got[0][0]]
            ctx.violation("not-held", "%s answered by %r, held: %r" % (d, got[0], near[:3] or items[:3]), rep); return
        if max(e for _, e, _ in same) < best - 1e-9: ctx.violation("not-best", "%s answered by %r although %r is better" % (d, got[0], max(items, key=lambda x: x[1])), rep); return
        if cur["tense"] and "imp" not in kinds and best == 0.5 and all(e == 0.5 for _, e, _ in items) and got[0][4] < max(k[4] for k, _, _ in items):
            ctx.violation("not-latest", "%s answered by %r although indistinguishable later events are known: %r" % (d, got[0], max(items, key=lambda x: x[0][4])), rep); return
        ctx.count("answered"); ctx.count("choices", len(items) - 1); ctx.distinct("%s%r" % (d, got[0]))
        ctx.count("tense_%d" % cur["tense"])
        for k in kinds: ctx.count("from_" + k)
    for k, x in mon.stream(res):
        if k == "rec":
            if x.get("k") == "ask": close(); cur, lines = x, []
            elif x.get("k") == "line": close(); cur = None; n += 1
        elif cur is not None: lines.append(x)

def run(ctx):
    plan = [("big", 40, 150), ("mid", 20, 200), ("tiny", 20, 200)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_ask.c"], [], {cfg: stress.CONFIGS[cfg] for cfg, n, l in plan}, "ask")
    for cfg, n, length in plan:
        scripts = [script(random.Random("c11/%d/%s/%d" % (ctx.seed, cfg, i)), length) for i in range(n)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C11",), cfg):
            ctx.evaluations -= sum(1 for x in rec if isinstance(x, dict) and x.get("k") == "line")
            judge(ctx, s, res)
    ctx.sample({"lines": scripts[0][-8:]})
    ctx.rule = "questions made by generalising what was told (and unrelated ones), of every tense, and queries with thresholds, in growing memories; non-trivial: distinct question and answer"
    ctx.assumptions = ["which of several equally good items is reported is not judged, except that of events too far away to be distinguished the latest one is"]
