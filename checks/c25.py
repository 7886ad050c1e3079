"""C25: usage, rank and priority of every concept and buffered event, followed through steps, additions and questions in full memory."""
import random
from vlib import build, core, mon, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
from checks.c16 import stream as hypotheses
from checks.c11 import script as asking
MIN = 6000
WRAPS = ["Memory_AddEvent", "Memory_AddInputEvent", "Memory_INIT", "Cycle_Perform", "RuleTable_Apply", "PriorityQueue_Push", "PriorityQueue_PopMax"]

def keepers(r, k, n):
    """k pieces of eternal knowledge first, then much that happens; none of it may displace the knowledge"""
    know = ["<k%d --> kind%d>" % (i, r.randrange(3)) for i in range(k)]
    s = ["*motorbabbling=false"] + [t + "." for t in know]
    while len(s) < n:
        i = r.randrange(10 * n)
        s.append(r.choice(["<e%d --> [on]>. :|:", "<(e%d * x) --> r>. :|:", "e%d. :|:", "<e%d --> [on]>. :|: {0.3 0.5}", "<e%d --> y>! :|:"]) % i)
        if r.random() < 0.1: s.append(str(r.choice([1, 5, 40])))
    return know, s

def run(ctx):
    plan = [("tiny", 26, 200), ("one", 6, 120), ("mid", 20, 160), ("big", 8, 120)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_fgt.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, l in plan}, "fgt")
    for cfg, n, length in plan:
        scripts = []
        for i in range(n):
            r = random.Random("c25/%d/%s/%d" % (ctx.seed, cfg, i))
            k = i % 6
            s = skilled(r, length) if k == 0 else chains(r, length) if k == 1 else asking(r, length) if k == 2 else hypotheses(r, length) if k == 3 else valued(r, length) if k == 4 else stress.mixed("c25/%d" % ctx.seed, i, length)
            s = [l for l in s if not l.startswith("@")]
            if r.random() < 0.2: s.insert(r.randrange(len(s)), r.choice(["*reset", "*currenttime=1", "*questionpriming=0", "*questionpriming=0.7", "*restrictedconceptcreation=true"]))
            scripts.append(s)
        scripts[0] = ["@usage\t%d\t%d" % (ctx.scale(20000, 400000), ctx.seed)] + scripts[0]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C25",), cfg):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    # eternal knowledge outlives what merely happens
    def go(i):
        r = random.Random("c25k/%d/%d" % (ctx.seed, i))
        cfg = "big"     # a step makes fewer new concepts than there is room besides the knowledge
        know, s = keepers(r, stress.CONFIGS[cfg]["CONCEPTS_MAX"] // r.choice([4, 6, 12]), ctx.scale(500, 3000))
        res, rec = mon.session(exes[cfg], s + ["@dump\tc"], timeout=600)
        return know, s, res, rec
    for know, s, res, rec in core.pmap(go, range(ctx.scale(8, 48))):
        mon.died(ctx, res, "\n".join(s), "keepers")
        if res.timeout: ctx.inconclusive += 1; continue
        have = [x for x in rec if isinstance(x, dict) and x.get("k") == "c"]
        terms = {x["t"]: x for x in have}
        for i, t in enumerate(know):
            a, b = t[1:-1].split(" --> ")
            key = "0::" + " 1:%s 2:%s" % (a, b)
            ctx.count("knowledge")
            ctx.evaluations += 1
            if key not in terms:
                ctx.violation("knowledge-lost", "%s was told, and forgotten in favour of what happened" % t, {"script": "\n".join(s)})
            elif terms[key]["uc"] < 1000000:
                ctx.violation("knowledge-unboosted", "%s was told, its use count is %d" % (t, terms[key]["uc"]), {"script": "\n".join(s)})
        for x in rec:
            if isinstance(x, dict) and x.get("k") == "v": ctx.violation("keepers-" + x["key"], x["msg"], {"script": "\n".join(s)})
    ctx.sample({"first_lines": scripts[-1][:8]})
    ctx.rule = "use count, last use, rank and priority of every concept and the priority of every buffered event after each step follow from what was added, processed, used as premise or asked; full memory evicts a concept of lowest rank"
