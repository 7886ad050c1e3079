"""C23: complete state before and after every command against what the command names; listings against the state they list; *opconfig fed back."""
import json, math, random, re
from vlib import build, core, mon, nal, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
MIN = 1500
OPS, ARGS = 10, 10
CONFIGS = {"big": dict(stress.CONFIGS["big"], ATOMS_MAX=6000), "mid": stress.CONFIGS["mid"], "tiny": dict(stress.CONFIGS["tiny"], ATOMS_MAX=1500)}
LOCATION = {"anticipationconfidence": "ac", "decisionthreshold": "dth", "similaritydistance": "sd", "questionpriming": "qp", "motorbabbling": "mb"}

class State:
    """a complete dump"""
    def __init__(self, rec):
        self.s, self.ops, self.vals, self.rest = {}, {}, {}, []
        self.raw = rec
        for x in rec:
            if x["k"] == "state": self.s = {k: v for k, v in x.items() if k not in ("k", "sel")}
            elif x["k"] == "op": self.ops[x["i"] + 1] = {"t": x["t"], "si": x["si"], "a": x["a"], "args": list(x["args"])}
            elif x["k"] == "val": self.vals[x["name"]] = (x["v"], x["m"])
            elif x["k"] in ("c", "m", "b", "g"): self.rest.append(x)
    def diff(self, o):
        d = {}
        for k in set(self.s) | set(o.s):
            if repr(self.s.get(k)) != repr(o.s.get(k)): d["s." + k] = o.s.get(k)
        for i in set(self.ops) | set(o.ops):
            for k in ("t", "si", "a"):
                if self.ops[i][k] != o.ops[i][k]: d["op%d.%s" % (i, k)] = o.ops[i][k]
            for j in range(ARGS):
                if self.ops[i]["args"][j] != o.ops[i]["args"][j]: d["op%d.arg%d" % (i, j + 1)] = o.ops[i]["args"][j]
        for n in set(self.vals) | set(o.vals):
            if self.vals.get(n) != o.vals.get(n): d["val." + n] = o.vals.get(n)
        if json.dumps(self.rest) != json.dumps(o.rest):
            k = next((k for k in range(min(len(self.rest), len(o.rest))) if self.rest[k] != o.rest[k]), "length")
            d["memory"] = o.rest[k] if k != "length" else "%d records instead of %d" % (len(o.rest), len(self.rest))
        return d

def num(t):
    """what a C number parser reads at the start of t; None if nothing"""
    m = re.match(r"\s*[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)", t)
    return float(m.group(0)) if m else None

def integer(t):
    m = re.match(r"\s*[+-]?\d+", t)
    return int(m.group(0)) if m else None

def vname(name, v, g):
    return "%s%s%.*f" % (name, "_" if name else "", 1 if g <= 10 else 2 if g <= 100 else 3, v)

def setvalue(name, v, g):
    full = vname(name, v, g)
    return {"val." + full: (v, name)} if len(full) < 32 else None

def command(r, st, ops):
    """(line, expected changes | None where it has to be rejected, lenient: may also be rejected or ignored)"""
    fl = lambda: r.choice(["0", "1", "0.5", "0.25", "1e-3", ".75", "%.6f" % r.random(), "%.3f" % r.random(), "0.010", "1.0"])
    k = r.random()
    if k < 0.22:
        p = r.choice(sorted(LOCATION))
        t = fl()
        v = float(t)
        if p == "similaritydistance":
            t = r.choice([t, "10", "2.5", "1e6"]); v = float(t)
            if v <= 0: return "*%s=%s" % (p, t), None, False
        if p == "decisionthreshold" and r.random() < 0.2: t = r.choice(["1.5", "2", "100"]); v = float(t)
        if p in ("anticipationconfidence", "questionpriming", "motorbabbling") and r.random() < 0.08: return "*%s=%s" % (p, r.choice(["1.01", "-0.5", "7", "1e9"])), None, False
        if r.random() < 0.1: return "*%s=%s" % (p, r.choice(["", "abc", " ", "=", "x0.5"])), {}, True
        return "*%s=%s" % (p, t), {"s." + LOCATION[p]: v}, False
    if k < 0.26: return r.choice([("*motorbabbling=false", {"s.mb": 0.0}, False), ("*motorbabbling=true", {"s.mb": 0.2}, False)])
    if k < 0.33:
        n = r.choice([0, 1, 50, 99, 100, r.randrange(101)])
        return "*volume=%d" % n, {"s.pth": 1.0 - n / 100.0}, False
    if k < 0.38:
        n = r.choice([1, 2, 9, 10, 10, 0, 11, -1, 1000000])
        return "*babblingops=%d" % n, ({"s.bops": n} if 1 <= n <= OPS else None), False
    if k < 0.43:
        n = r.choice([0, 1, 5, 1000, 123456789, 10 ** 15, -1, -5, 2 ** 62])
        return "*currenttime=%d" % n, ({"s.time": n} if 0 <= n <= 10 ** 15 else None), False
    if k < 0.48:
        n = r.choice([1, 2, 500, 123456789, 10 ** 15, 0, -4, 2 ** 62])
        return "*stampid=%d" % n, ({"s.base": n} if 1 <= n <= 10 ** 15 else None), False
    if k < 0.55:
        ids = [r.choice([1, 2, 3, 77, 10 ** 9, r.randrange(1, 10 ** 6)]) for _ in range(r.choice([1, 2, 3, 10]))]
        return "*stampimport=[%s]" % r.choice([",", ",", ", "]).join(map(str, ids)), {"s.imp": ids}, False
    if k < 0.60: return r.choice([("*restrictedconceptcreation=true", {"s.restricted": 1}, False), ("*restrictedconceptcreation=false", {"s.restricted": 0}, False)])
    if k < 0.70:
        g = r.choice([1, 5, 10, 11, 50, 100, 101, 500, 1000]); n = r.choice(["size", "temp", "x", "a_b", "loooooooooooooooooong"])
        t = r.choice(["0", "1", "5.25", "-3.5", "100", "%.4f" % (r.random() * 10), "1e3"])
        if r.random() < 0.1: return "*setvalue %s %d %s" % (t, r.choice([0, -1, 1001, 10 ** 6]), n), None, False
        return "*setvalue %s %d %s" % (t, g, n), setvalue(n, float(t), g), False
    if k < 0.74:
        g = r.choice([1, 2, 5, 10, 20, 100]); n = r.choice(["pos", "deg"])
        if r.random() < 0.1: return "*space %d %s" % (r.choice([0, -1, 1001]), n), None, False
        ch = {}
        for i in range(g): ch.update(setvalue(n, float("%f" % (i / g)), g))
        return "*space %d %s" % (g, n), ch, False
    if k < 0.86:
        i = r.choice(list(range(1, 11)) + [1, 2, 3]); n = r.choice(["^left", "^right", "^walk", "^jump", "^go", "^deactivate", "^op%d" % r.randrange(5)])
        if r.random() < 0.08: return "*setopname %d %s" % (r.choice([0, -1, 11, 100]), n), None, False
        if st.s["nc"]: return "*setopname %d %s" % (i, n), None, False
        names = {j: ops[j] for j in ops}
        e = {}
        for j in range(1, 11):
            if names[j] == "0:" + n:
                for m in range(j, 11): names[m] = ""
        names[i] = "0:" + n
        return "*setopname %d %s" % (i, n), {"op%d.t" % j: names[j] for j in names if names[j] != ops[j]}, False
    if k < 0.95:
        i, j = r.randrange(1, 11), r.randrange(1, 11)
        t = r.choice(["a", "b", ("*", "a", "b"), ('"', "x", "@"), (":", "a", "b"), ("'", "red", "@"), ("*", ("*", "a", "b"), "c"), "$1", (":", ("*", "x", "y"), "at")])
        if r.random() < 0.08: return "*setoparg %d %d %s" % (r.choice([0, 11, -3]), j, nal.show(t)), None, False
        if r.random() < 0.08: return "*setoparg %d %d %s" % (i, r.choice([0, 11, -3]), nal.show(t)), None, False
        return "*setoparg %d %d %s" % (i, j, nal.show(t)), {"op%d.arg%d" % (i, j): nal.enc(t)}, False
    if k < 0.97:
        if st.s["time"] > 0: return "*concurrent", {"s.time": st.s["time"] - 1}, False
        return "*concurrent", None, False
    return "// " + r.choice(["comment", "*reset", "a. :|:", "<a --> b>?", "*volume=0"]), {}, False

def near(a, b, eps=6e-7):
    return a == b or (abs(a - b) <= eps + 1e-12 * max(abs(a), abs(b)))

def term(code):
    return nal.show(nal.dec(code)) if code else ""

class Listing:
    """judges what an inspection command printed against the dump before it"""
    def __init__(self, what, st, out, cfg):
        self.bad, self.n = [], 0
        getattr(self, what)(st, out, cfg)
    def want(self, ok, msg):
        self.n += 1
        if not ok: self.bad.append(msg)
    def opconfig(self, st, out, cfg):
        want = ["//*opconfig", "*motorbabbling=%f" % st.s["mb"], "*babblingops=%d" % st.s["bops"]]
        for i in range(1, 11):
            if st.ops[i]["t"]: want.append("*setopname %d %s" % (i, term(st.ops[i]["t"])))
            for j in range(ARGS):
                if st.ops[i]["args"][j]: want.append("*setoparg %d %d %s" % (i, j + 1, term(st.ops[i]["args"][j])))
        self.want(out == want, "*opconfig printed %r, the configuration is %r" % (out, want))
    def concepts(self, st, out, cfg):
        cs = [x for x in st.rest if x["k"] == "c"]
        ms = {}
        for x in st.rest:
            if x["k"] == "m" and x["op"] >= 0: ms.setdefault(x["cid"], []).append(x["m"])
        want = []
        self.want(out[:1] == ["//*concepts"] and out[-1:] == ["//*done"], "the listing of concepts is not enclosed in its markers")
        k = 1
        for c in cs:
            l = out[k] if k < len(out) else ""; k += 1
            m = re.match(r"^//(.*): (\{.*\})$", l)
            if not m: self.want(False, "no line for concept %s but %r" % (term(c["t"]), l)); return
            try: d = json.loads(m.group(2).replace("\\", "\\\\"))
            except ValueError: self.want(False, "the line of a concept is not readable: %r" % l); return
            self.want(m.group(1) == term(c["t"]), "concept %s is listed as %s" % (term(c["t"]), m.group(1)))
            for key, v in (("priority", c["pr"]), ("usefulness", c["q"]), ("useCount", c["uc"]), ("lastUsed", c["lu"]), ("frequency", c["b"]["f"] if c["b"] else None), ("confidence", c["b"]["c"] if c["b"] else None)):
                if v is None: continue
                self.want(near(d[key], v), "the %s of %s is listed as %r, it is %r" % (key, term(c["t"]), d[key], v))
            p = nal.decp(c["t"])
            for idx, (pos, link) in enumerate(zip((1, 2, 3, 4, 5, 6), (0, 1, 2, 3, 4, 5))):
                if pos not in p: self.want(d["termlinks"][link] in ("", "@"), "a link to a missing component of %s is listed: %r" % (term(c["t"]), d["termlinks"][link])); continue
                sub = {}
                def walk(a, b):
                    if a not in p or b >= 64: return
                    sub[b] = p[a]; walk(2 * a + 1, 2 * b + 1); walk(2 * a + 2, 2 * b + 2)
                walk(pos, 0)
                try: w = term(nal.encp(sub))
                except nal.Orphan: continue
                self.want(d["termlinks"][link] == w, "component %d of %s is listed as %r" % (pos, term(c["t"]), d["termlinks"][link]))
            if c["b"]:
                b = c["b"]; l = out[k] if k < len(out) else ""; k += 1
                w = "%s. %s{%f %f}" % (term(b["t"]), ":|: occurrenceTime=%d " % b["o"] if b["o"] != -1 else "", b["f"], b["c"])
                self.want(l == w, "the belief of %s is listed as %r, it is %r" % (term(c["t"]), l, w))
            for m in ms.get(c["id"], []):
                l = out[k] if k < len(out) else ""; k += 1
                w = "%s%s. {%f %f}" % ("dt=%f " % m["dt"] if nal.decp(m["t"]).get(0) == "$" else "", term(m["t"]), m["f"], m["c"])
                self.want(l == w, "an implication of %s is listed as %r, it is %r" % (term(c["t"]), l, w))
        self.want(k == len(out) - 1, "%d lines are listed for %d concepts which take %d" % (len(out) - 2, len(cs), k - 1))
    def events(self, st, out, kind, name):
        es = [x for x in st.rest if x["k"] == kind]
        self.want(out[:1] == ["//*" + name] and out[-1:] == ["//*done"], "the listing is not enclosed in its markers")
        self.want(len(out) - 2 == len(es), "%d events are listed, %d are buffered" % (len(out) - 2, len(es)))
        for l, x in zip(out[1:-1], es):
            m = re.match(r'^(.*): (\{.*?\}) Truth: frequency=([-0-9.]+), confidence=([-0-9.]+)$', l)
            if not m: self.want(False, "an event is listed as %r" % l); continue
            d = json.loads(m.group(2)); e = x["e"]
            self.want(m.group(1) == term(e["t"]) and near(d["priority"], x["q"]) and d["time"] == e["o"] and near(float(m.group(3)), e["f"]) and near(float(m.group(4)), e["c"]), "the event %s (priority %r, time %d, truth %r %r) is listed as %r" % (term(e["t"]), x["q"], e["o"], e["f"], e["c"], l))
    def cycling_belief_events(self, st, out, cfg): self.events(st, out, "b", "cycling_belief_events")
    def cycling_goal_events(self, st, out, cfg): self.events(st, out, "g", "cycling_goal_events")
    def inverted_atom_index(self, st, out, cfg):
        want, may = [], set()
        for c in st.rest:
            if c["k"] != "c": continue
            p = nal.decp(c["t"])
            for a in set(p[i] for i in p if i < 31):
                may.add("%s -> %s" % (nal.SURF.get(a, a), term(c["t"])))
                if not (nal.is_var(a) or nal.is_cop(a) or (len(a) == 1 and not a.isalnum())): want.append("%s -> %s" % (a, term(c["t"])))
        got = out[1:-1]
        # whether copulas and the like are indexed is not of interest: what is listed has to be so, and every plain atom be listed
        self.want(out[:1] == ["printing inverted atom table content:"] and out[-1:] == ["table print finish"], "the listing is not enclosed in its markers")
        self.want(len(got) == len(set(got)), "the index lists an entry twice")
        for g in got: self.want(g in may, "the index lists %r" % g)
        have = set(got)
        for x in want:
            self.want(x in have, "the index does not list %r" % x)
    def stats(self, st, out, cfg):
        d = {}
        for l in out:
            m = re.match(r"^([^:]+):\s+([-0-9.]+)$", l)
            if m: d[m.group(1)] = float(m.group(2))
        cs = [x for x in st.rest if x["k"] == "c"]; bs = [x for x in st.rest if x["k"] == "b"]; gs = [x for x in st.rest if x["k"] == "g"]
        self.want(out[:1] == ["//*stats"] and out[-1:] == ["//*done"], "the statistics are not enclosed in their markers")
        for key, v in (("currentTime", st.s["time"]), ("total concepts", len(cs)), ("current belief events cnt", len(bs)), ("current goal events cnt", len(gs))):
            self.want(d.get(key) == v, "the statistics say %s is %r, it is %r" % (key, d.get(key), v))
        def mean(key, xs, cap):
            s = sum(xs)
            self.want(key in d and any(near(d[key], s / n) for n in (cap, len(xs)) if n) or (not xs and d.get(key) in (0, None)), "the statistics say %s is %r, the sum is %r over %d items, capacity %d" % (key, d.get(key), s, len(xs), cap))
        full = lambda k, v: CONFIGS[cfg].get(k, v)
        mean("current average concept priority", [x["pr"] for x in cs], full("CONCEPTS_MAX", 16384))
        mean("current average concept usefulness", [x["q"] for x in cs], full("CONCEPTS_MAX", 16384))
        mean("current average belief event priority", [x["q"] for x in bs], full("CYCLING_BELIEF_EVENTS_MAX", 40))
        mean("current average goal event priority", [x["q"] for x in gs], full("CYCLING_GOAL_EVENTS_MAX", 400))
        m = "countConceptsMatched"
        self.want(all(m + x in d for x in ("Total", "Max", "Average")) and d[m + "Total"] >= d[m + "Max"] >= 0 and d[m + "Average"] == d[m + "Total"] // max(1, st.s["time"]), "the match counts do not fit: %r" % d)
LISTINGS = ["opconfig", "concepts", "cycling_belief_events", "cycling_goal_events", "inverted_atom_index", "stats"]

def parts(res):
    """{mark: (State, [printed lines up to the next mark])}; the dump comes directly after the mark"""
    out, cur, rec, text = {}, None, [], []
    def close():
        if cur is not None and any(x["k"] == "state" for x in rec): out[cur] = (State(rec), list(text))
    for k, x in mon.stream(res):
        if k == "rec" and x.get("k") == "mark": close(); cur, rec, text = x["v"], [], []
        elif k == "rec" and x.get("k") in ("state", "op", "val", "c", "m", "b", "g"): rec.append(x)
        elif k == "out": text.append(x)
    close()
    return out
DUMP = ["@dump\tsovmbg"]

def run(ctx):
    plan = [("big", 16, 50), ("mid", 24, 80), ("tiny", 24, 80)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", [], [], {cfg: CONFIGS[cfg] for cfg, n, l in plan}, "cmd")
    for cfg, n, length in plan:
        def go(i):
            r = random.Random("c23/%d/%s/%d" % (ctx.seed, cfg, i))
            exe = exes[cfg]
            # history, cut at random places by listings; commands after it, one process per script as the state decides what to expect
            k = i % 5
            hist = [] if k == 0 else skilled(r, length) if k == 1 else chains(r, length) if k == 2 else valued(r, length) if k == 3 else stress.mixed("c23/%d/%s" % (ctx.seed, cfg), i, length)
            hist = [l for l in hist if not l.startswith(("@", "*reset", "*currenttime=", "*concurrent", "*setopstdin")) and l != "quit"]
            base = []
            for j, l in enumerate(hist):
                base.append(l)
                if r.random() < 0.06: base += ["@mark\tL%d" % j] + DUMP + ["*" + r.choice(LISTINGS), "@mark\tE"]
                if r.random() < 0.06: base += ["@mark\tN%d" % j] + DUMP + [r.choice(["// something", "//", "*stats", "*concepts", "*opconfig", "*inverted_atom_index", "*cycling_goal_events"]), "@mark\tM%d" % j] + DUMP
            # commands: the state has to be known before each; setopname/setoparg/values are tracked from the previous expectation
            res = core.run([exe], "".join(l + "\n" for l in base + ["@mark\tend"] + DUMP), timeout=200)
            return r, cfg, exe, base, res
        for r, cfg_, exe, base, res in core.pmap(go, range(n)):
            if mon.died(ctx, res, "\n".join(base), "history"): continue
            p = parts(res)
            # inspection commands at many points of the history
            cmd_at = {l.split("\t")[1]: base[q + 2] for q, l in enumerate(base) if l.startswith(("@mark\tL", "@mark\tN"))}
            for m, (st, text) in p.items():
                if m.startswith("L"):
                    j = Listing(cmd_at[m][1:], st, text, cfg_)
                    ctx.evaluations += 1; ctx.count("listings"); ctx.count("listed_facts", j.n)
                    for b in j.bad[:2]: ctx.violation("listing-%s" % cmd_at[m][1:], b, {"script": "\n".join(base)})
                if m.startswith("N") and "M" + m[1:] in p:
                    d = st.diff(p["M" + m[1:]][0]); ctx.evaluations += 1; ctx.count("inspections")
                    if d: ctx.violation("inspection-changes", "%s changed %r" % (cmd_at[m], list(d.items())[:3]), {"script": "\n".join(base)})
            st = p["end"][0]
            # a series of commands; a rejected one ends the process, so it comes last
            def series(st0):
                script, exp, cur = [], [], st0
                s = State([]); s.s, s.vals, s.rest = dict(st0.s), dict(st0.vals), st0.rest
                s.ops = {i: dict(st0.ops[i], args=list(st0.ops[i]["args"])) for i in st0.ops}
                for q in range(40):
                    line, want, lenient = command(r, s, {i: s.ops[i]["t"] for i in s.ops})
                    if want is None and q < 25: continue
                    script += ["@mark\tp%d" % q] + DUMP + [line]; exp.append((q, line, want, lenient))
                    if want is None or lenient: break
                    for key, v in want.items():
                        if key.startswith("s."): s.s[key[2:]] = v
                        elif key.startswith("val."): s.vals[key[4:]] = v
                        else:
                            i, f = re.match(r"op(\d+)\.(.*)", key).groups()
                            if f == "t": s.ops[int(i)]["t"] = v
                            else: s.ops[int(i)]["args"][int(f[3:]) - 1] = v
                return script + ["@mark\tp%d" % (exp[-1][0] + 1 if exp else 0)] + DUMP, exp
            for _ in range(2):
                script, exp = series(st)
                full = [l for l in base if not l.startswith("@")] + script
                res2 = core.run([exe], "".join(l + "\n" for l in full), timeout=200)
                if res2.timeout: ctx.inconclusive += 1; continue
                p2 = parts(res2)
                for n_, (q, line, want, lenient) in enumerate(exp):
                    nxt = exp[n_ + 1][0] if n_ + 1 < len(exp) else q + 1
                    if "p%d" % q not in p2: ctx.violation("commands-ended", "the session ended before %r" % line, {"script": "\n".join(full)}); break
                    ctx.evaluations += 1; ctx.count("commands"); ctx.distinct(line)
                    ended = "p%d" % nxt not in p2
                    if want is None or lenient:
                        if ended: ctx.count("rejected"); break
                        d = p2["p%d" % q][0].diff(p2["p%d" % nxt][0])
                        if d: ctx.violation("accepted", "%r is invalid, and changed %r" % (line, list(d.items())[:3]), {"script": "\n".join(full)})
                        continue
                    if ended: ctx.violation("rejected-valid", "%r was rejected: %s" % (line, res2.text()[-200:]), {"script": "\n".join(full)}); break
                    d = p2["p%d" % q][0].diff(p2["p%d" % nxt][0])
                    for key, v in d.items():
                        if key.endswith(".a"): continue     # whether a procedure stands behind the operator
                        w = want.get(key, "nothing")
                        ok = key in want and (v == w or (isinstance(v, float) and isinstance(w, float) and near(v, w, 1e-15)) or (key.startswith("val.") and v and near(v[0], w[0], 1e-12) and v[1] == w[1]))
                        if not ok: ctx.violation("effect", "%r set %s to %r, not %r" % (line, key, v, w), {"script": "\n".join(full)})
                    new = p2["p%d" % nxt][0]
                    for key, w in want.items():
                        have = new.s.get(key[2:]) if key.startswith("s.") else new.vals.get(key[4:]) if key.startswith("val.") else None
                        if key.startswith("op"):
                            i, f = re.match(r"op(\d+)\.(.*)", key).groups()
                            have = new.ops[int(i)]["t"] if f == "t" else new.ops[int(i)]["args"][int(f[3:]) - 1]
                        same = have == w or (isinstance(w, (int, float)) and isinstance(have, (int, float)) and near(have, w, 1e-15)) or (key.startswith("val.") and have and near(have[0], w[0], 1e-12) and have[1] == w[1])
                        if not same: ctx.violation("no-effect", "after %r %s is %r, not %r" % (line, key, have, w), {"script": "\n".join(full)})
    # the listing of a configuration, fed to a reset system, makes the same configuration
    exe = exes["mid"]
    def names(st): return [st.ops[i]["t"] for i in range(1, 11)]
    def back(w):
        i, pre = w
        a = core.run([exe], "".join(l + "\n" for l in pre + ["@mark\ta"] + DUMP + ["*opconfig", "@mark\tE"]), timeout=60)
        pa = parts(a)
        if "a" not in pa: return i, pre, None, None, None
        listing = pa["a"][1]
        b = core.run([exe], "".join(l + "\n" for l in ["a. :|:", "*setvalue 3 10 size", "b. :|:", "*reset"] + listing + ["@mark\tb"] + DUMP + ["*opconfig", "@mark\tE"]), timeout=60)
        return i, pre, pa["a"][0], parts(b).get("b"), listing
    work = []
    for i in range(ctx.scale(120, 1500)):
        r = random.Random("c23r/%d/%d" % (ctx.seed, i))
        pool = ["^left", "^right", "^up", "^down", "^say", "^pick", "^drop", "^go", "^activate", "^deactivate"] + ["^new%d" % j for j in range(10)]
        ns = r.sample(pool, r.randrange(0, 11))
        pre = ["*setopname %d %s" % (j + 1, x) for j, x in enumerate(ns)]
        pre += ["*setoparg %d %d %s" % (r.randrange(1, 11), r.randrange(1, 11), r.choice(["a", "(a * b)", "{x}", "<a --> b>", "[red]", "(a * (b * c))"])) for _ in range(r.choice([0, 3, 12]))]
        pre += ["*babblingops=%d" % r.randrange(1, 11), r.choice(["*motorbabbling=false", "*motorbabbling=0.5", "*motorbabbling=%.6f" % r.random(), "*motorbabbling=true"])]
        work.append((i, pre))
    gap = ["*setopname 3 ^left", "*setopname 2 ^b"]
    work.append(("gap", gap))
    for i, pre, a, b, listing in core.pmap(back, work):
        ctx.evaluations += 1; ctx.count("fed_back")
        if a is None: ctx.violation("opconfig-ended", "no configuration after %r" % pre, {"script": "\n".join(pre)}); continue
        if b is None:
            ctx.violation("opconfig-rejected", "the listing %r was rejected" % listing, {"script": "\n".join(pre + ["*opconfig", "*reset"] + listing)}); continue
        b = b[0]
        same = names(a) == names(b) and all(a.ops[k]["args"] == b.ops[k]["args"] for k in a.ops) and near(a.s["mb"], b.s["mb"]) and a.s["bops"] == b.s["bops"]
        if i == "gap" and names(b) == ["", "", "0:^left"] + [""] * 7:
            ctx.violation("opconfig-gap-3left-2b", "after %r and feeding the listing %r to a reset system the operators are %r instead of %r" % (pre, listing, names(b), names(a)), {"script": "\n".join(pre + ["*opconfig", "*reset"] + listing + ["*opconfig"])})
        elif not same:
            ctx.violation("opconfig-back", "feeding the listing %r to a reset system gives operators %r instead of %r" % (listing, names(b), names(a)), {"script": "\n".join(pre + ["*opconfig", "*reset"] + listing + ["*opconfig"])})
    ctx.sample({"commands": [l for l in work[3][1]][:5]})
    ctx.rule = "distinct command lines whose complete state before and after was compared; each listing compared item by item with a dump of the state"
    ctx.assumptions = ["a rejected command ends the process, as every rejected input does"]
