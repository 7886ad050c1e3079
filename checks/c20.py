"""C20: during goal-rich sessions a monitor follows every selected goal: the subgoals it yields must be exactly those which the
implications held (or the first unfulfilled step of a sequence) license, computed by an own oracle from the memory at that
moment; each goes exactly one layer deeper and is not added if it is held or buffered already."""
import random
from vlib import build, core, stress
MIN = 3000
WRAPS = ["PriorityQueue_PopMax", "PriorityQueue_Rebuild", "RuleTable_Apply", "Cycle_Perform", "Decision_Suggest", "Memory_AddEvent"]

def chains(r, n):
    """goal chains through implications and sequences, with variables, with the steps fulfilled now and then"""
    st = ["s%d" % i for i in range(r.choice([4, 8, 14]))]
    rel = lambda a, b: "<(%s * %s) --> %s>" % (a, b, r.choice(["at", "on"]))
    ob = ["o1", "o2", "o3"]
    out = []
    if r.random() < 0.7: out.append("*motorbabbling=false")
    if r.random() < 0.2: out.append("*decisionthreshold=0.9")
    while len(out) < n:
        k = r.random()
        step = lambda: r.choice(st) if r.random() < 0.6 else "<%s --> [%s]>" % (r.choice(ob), r.choice(["p", "q"])) if r.random() < 0.5 else rel(r.choice(ob), r.choice(ob))
        gen = lambda: r.choice([step(), "<%s --> [%s]>" % (r.choice(["$1", "#1"]), r.choice(["p", "q"])), rel("$1", r.choice(ob)), rel("$1", "$2")])
        if k < 0.12: out.append("<%s =/> %s>.%s" % (gen(), gen(), stress.truthy(r)))
        elif k < 0.26: out.append("<(%s &/ %s) =/> %s>.%s" % (gen(), r.choice(["^left", "^deactivate", "<({SELF} * x) --> ^pick>", "<({SELF} * $1) --> ^go>"]), gen(), stress.truthy(r)))
        elif k < 0.32: out.append("<%s ==> %s>.%s" % (step(), step(), stress.truthy(r)))
        elif k < 0.36: out.append("<((%s &/ %s) &/ %s) =/> %s>." % (step(), step(), r.choice(["^left", "^up"]), step()))
        elif k < 0.55: out.append("%s. :|:%s" % (step(), stress.truthy(r)))
        elif k < 0.72: out.append("%s! :|:%s" % (step(), stress.truthy(r)))
        elif k < 0.90:
            m = r.choice([2, 2, 3, 4])
            s = [gen() if r.random() < 0.4 else step() for _ in range(m)]
            seq = s[0]
            for x in s[1:]: seq = "(%s &/ %s)" % (seq, x)
            if r.random() < 0.6: out += [x.replace("$1", "o1").replace("#1", "o2").replace("$2", "o3") + ". :|:" for x in s[:r.randrange(0, m + 1)]]
            out.append("%s! :|:%s" % (seq, stress.truthy(r) if r.random() < 0.3 else ""))
        else: out.append(str(r.randrange(1, 8)))
    return out

def run(ctx):
    plan = [("tiny", 10, 250), ("one", 4, 200), ("mid", 14, 260), ("big", 12, 300)]
    if ctx.thorough: plan = [(c, 5 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_goal.c"], WRAPS, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "goal")
    for cfg, n, lines in plan:
        exe = exes[cfg]
        scripts = [stress.mixed("c20/%d/%s" % (ctx.seed, cfg), i, lines, kinds=["goals", "mixed"][i % 2]) for i in range(n // 2)]
        scripts += [chains(random.Random("c20/%d/%s/%d" % (ctx.seed, cfg, i)), lines) for i in range(n)]
        if cfg == "mid": scripts += [["*restrictedconceptcreation=true" if i == 60 else x for i, x in enumerate(s)] for s in scripts[-3:]]
        for s, res, rec in stress.run(ctx, exe, scripts, ("C20",), cfg, timeout=400):
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts" and x.get("subgoals_checked", 0) + x.get("sequence_subgoals_checked", 0): ctx.distinct("%s/%d/%d" % (cfg, x.get("subgoals_checked", 0), x.get("sequence_subgoals_checked", 0)))
    ctx.sample({"first_lines": scripts[-1][:8]})
    ctx.rule = "subgoals derived = subgoals licensed (term, truth, time, evidence); layer + 1; nothing held or buffered added again"
    ctx.assumptions = ["between equally expected fulfilments of a sequence step with variables, either is accepted"]
