"""C27: in restricted mode, the origin of every concept and buffered event that appears; and that the mode leaves nothing behind."""
import random
from vlib import build, core, mon, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
from checks.c16 import stream as hypotheses
MIN = 3000
WRAPS = ["Memory_AddEvent", "Memory_AddInputEvent", "Decision_Execute", "PriorityQueue_PopMax", "Cycle_Perform", "NAL_DerivedEvent"]
ON, OFF = "*restrictedconceptcreation=true", "*restrictedconceptcreation=false"

def switched(r, s, mode):
    s = [l for l in s if not l.startswith(("@", "*restricted", "*volume")) and l != "quit"]
    if mode == "all": return [ON] + s
    if mode == "late":
        k = r.randrange(len(s)); return s[:k] + [ON] + s[k:]
    for _ in range(r.choice([2, 4, 8])): s.insert(r.randrange(len(s) + 1), r.choice([ON, ON, OFF]))
    return s

def closed(r, n):
    """every statement over a small vocabulary is told, so derivations have concepts; then restricted"""
    at = ["a", "b", "c", "d", "e"][:r.choice([3, 4, 5])]
    s = ["<%s --> %s>. {%s 0.1}" % (x, y, r.choice(["1.0", "0.0", "0.5"])) for x in at for y in at if x != y]
    s += ["<%s <-> %s>. {0.5 0.1}" % (x, y) for x in at for y in at if x < y]
    s += ["<<$1 --> %s> ==> <$1 --> %s>>." % (r.choice(at), r.choice(at)) for _ in range(2)] + ["<(<$1 --> %s> &/ ^left) =/> <$1 --> %s>>." % (r.choice(at), r.choice(at)) for _ in range(3)]
    s += [ON]
    for _ in range(n):
        s.append(r.choice(["<%s --> %s>.", "<%s --> %s>. :|:", "<%s --> %s>! :|:", "<%s --> new%s>. :|:"]) % (r.choice(at), r.choice(at)))
        if r.random() < 0.3: s.append(r.choice(["^left. :|:", "3", "^pick. :|:"]))
    return s

def run(ctx):
    plan = [("big", 30, 120), ("mid", 20, 160), ("tiny", 20, 160)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_res.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, l in plan}, "res")
    for cfg, n, length in plan:
        scripts = []
        for i in range(n):
            r = random.Random("c27/%d/%s/%d" % (ctx.seed, cfg, i))
            k = i % 6
            s = skilled(r, length) if k == 0 else chains(r, length) if k == 1 else valued(r, length) if k == 2 else hypotheses(r, length) if k == 3 else closed(r, length // 2) if k == 4 else stress.mixed("c27/%d" % ctx.seed, i, length)
            scripts.append(switched(r, s, ["all", "late", "toggled"][i % 3]) if k != 4 else s)
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C27",), cfg):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    # the mode leaves nothing behind: switched on and off again it has no influence on what follows
    exe = exes["mid"]
    def go(i):
        r = random.Random("c27o/%d/%d" % (ctx.seed, i))
        s = [l for l in (stress.mixed("c27o/%d" % ctx.seed, i, 100) if i % 2 else chains(r, 100)) if not l.startswith(("@", "*restricted", "*motorbabbling", "*reset")) and l != "quit"]
        k = r.randrange(1, len(s))
        out = []
        for extra in ([], [ON, "//comment", OFF], [ON, "*reset"]):
            pre = ["*motorbabbling=false"] + (s[:k] if extra[-1:] != ["*reset"] else s[:k][:0])
            res = core.run([exe], "".join(l + "\n" for l in pre + extra + ["@mark\tgo"] + (s[k:] if extra[-1:] != ["*reset"] else s[:k]) + ["@dump\tsmbg"]), timeout=300)
            out.append((res, [x for x in res.text().split('"v":"go"}\n')[-1].split("\n") if not x.startswith(('@@{"k":"line"', '@@{"k":"counts"', "//")) and x]))
        res = core.run([exe], "".join(l + "\n" for l in ["*motorbabbling=false", "@mark\tgo"] + s[:k] + ["@dump\tsmbg"]), timeout=300)
        out.append((res, [x for x in res.text().split('"v":"go"}\n')[-1].split("\n") if not x.startswith(('@@{"k":"line"', '@@{"k":"counts"', "//")) and x]))
        return s, out
    for s, o in core.pmap(go, range(ctx.scale(12, 100))):
        if any(x.timeout for x, _ in o): ctx.inconclusive += 1; continue
        ctx.count("switched_back"); ctx.evaluations += len(o[0][1])
        for (x, a), (y, b), w in ((o[0], o[1], "off"), (o[3], o[2], "reset")):
            a, b = [[l.replace('"sel":1', '"sel":0') for l in z] for z in (a, b)]
            if a != b:
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                ctx.violation("left-behind-" + w, "after restricted mode ended (%s): %r, without it: %r" % (w, b[k:k + 1], a[k:k + 1]), {"script": "\n".join(s)})
    ctx.sample({"restricted": scripts[0][:6]})
    ctx.rule = "steps and inputs in restricted mode, each concept and buffered event that appears traced to an input, a temporal implication or sequence, or a concept that existed; derivations with concepts revise; non-trivial: sessions with distinct observation counts"
