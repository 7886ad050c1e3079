"""C31: what each belief or goal added to memory changes in it: the information held about its statement, the implications about
its consequence, the buffer and the event index follow a model of holding information, and nothing else changes."""
import random
from vlib import build, core, stress, mon
from checks.c15 import skilled
from checks.c20 import chains
MIN = 5000
WRAPS = ["Memory_AddEvent", "Memory_AddInputEvent"]

def statements(r, n):
    """few statements, given again and again as eternal, present, past and future, with delays, through time jumps"""
    ob = r.sample(["a", "b", "c", "x", "y"], 2)
    base = ["<%s --> %s>" % (ob[0], ob[1]), "<%s --> [p]>" % ob[0], "<(%s * %s) --> r>" % (ob[0], ob[1]), "<%s <-> %s>" % (ob[0], ob[1]), ob[0], "(%s && %s)" % (ob[0], ob[1]), "(#1 && %s)" % ob[1], "<%s |-> [q]>" % ob[0], "<%s |-> [w]>" % ob[1], "<(%s * %s) |-> (+ s)>" % (ob[0], ob[1]), "(%s &/ ^left)" % ob[0], "^left", "^deactivate"]
    imps = ["<%s =/> %s>" % (r.choice(base[:7]), r.choice(base[:7])), "<(%s &/ ^left) =/> g>" % ob[0], "<(%s &/ <({SELF} * %s) --> ^go>) =/> g>" % (ob[0], ob[1]), "<(%s &/ <({OTHER} * %s) --> ^go>) =/> g>" % (ob[0], ob[1]), "<((%s &/ %s) &/ ^right) =/> g>" % (ob[0], ob[1]), "<<%s --> [p]> ==> <%s --> [q]>>" % (ob[0], ob[0]), "<<$1 --> p> ==> <$1 --> q>>", "<(%s &/ <({$1} * x) --> ^go>) =/> <$1 --> g>>" % ob[0], "<(%s &/ ^unknown) =/> g>" % ob[0]]
    pool = r.sample(base, r.choice([3, 6])) + r.sample(imps, r.choice([2, 5]))
    out = ["*motorbabbling=false"] if r.random() < 0.7 else []
    if r.random() < 0.1: out.append("*restrictedconceptcreation=true")
    t = 1
    while len(out) < n:
        k = r.random()
        s = r.choice(pool)
        if k < 0.55: out.append("%s.%s%s" % (s, r.choice(["", " :|:", " :|:"]) if "/>" not in s and "==>" not in s else "", stress.truthy(r, r.random() < 0.5)))
        elif k < 0.70 and "=/>" in s: out.append("dt=%s %s.%s" % (r.choice(["0", "1", "2.5", "7", "30", "1000", "-4.5"]), s, stress.truthy(r)))
        elif k < 0.76: out.append("*currenttime=%d" % r.choice([1, 5, r.randrange(1, 300), r.randrange(1, 60)]))
        elif k < 0.82: out.append("%s! :|:" % r.choice(base[:7]))
        elif k < 0.84: out.append(r.choice(["*restrictedconceptcreation=true", "*restrictedconceptcreation=false"]))
        elif k < 0.86: out.append("*stampimport=[%s]" % ",".join(str(x) for x in sorted(r.sample(range(100, 120), r.choice([1, 3])))))
        elif k < 0.95: out.append(str(r.randrange(1, 6)))
        else: out.append("%s?" % s)
    return out

def run(ctx):
    plan = [("big", 20, 140), ("mid", 24, 140), ("tiny", 16, 140), ("one", 8, 100)]
    if ctx.thorough: plan = [(c, 6 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_mem.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "mem")
    for cfg, n, lines in plan:
        scripts = [statements(random.Random("c31/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        scripts += [stress.mixed("c31m/%d/%s" % (ctx.seed, cfg), i, lines) for i in range(n // 2)]
        scripts += [chains(random.Random("c31c/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n // 6)]
        scripts += [[l for l in skilled(random.Random("c31s/%d/%s/%d" % (ctx.seed, cfg, i)), lines) if l[0] != "@"] for i in range(n // 6)]
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C31",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "after each addition the beliefs, prediction, implications, buffer and event index are those before it updated with exactly the added information"
    ctx.assumptions = ["where the addition made memory forget, what was forgotten is not required to be updated", "truth of an implication link revised as belief and link at once is not judged here"]
