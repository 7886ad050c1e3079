"""C28: selections, matches, rule applications, nested steps and executed basic blocks of every step; and that work levels off."""
import random, concurrent.futures as cf
from vlib import build, core, mon, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
from checks.c16 import stream as hypotheses
from checks.c11 import script as asking
MIN = 6000
WRAPS = ["Cycle_Perform", "RuleTable_Apply", "PriorityQueue_PopMax", "Memory_Conceptualize", "Variable_Unify", "Decision_Execute", "Decision_Suggest", "Decision_Anticipate", "Memory_AddEvent"]
CONFIGS = dict(stress.CONFIGS, two={"CONCEPTS_MAX": 200, "ATOMS_MAX": 3000, "BELIEF_EVENT_SELECTIONS": 3, "GOAL_EVENT_SELECTIONS": 2, "BELIEF_CONCEPT_MATCH_TARGET": 7})
# basic blocks a single step may execute before it counts as not returning: some fifty times what the heaviest workload needs
LIMIT = 2000000000

def dense(r, n):
    """many statements about the same few atoms: every event relates to very many concepts"""
    s = []
    for i in range(n):
        x = "x%d" % i
        s.append(r.choice(["<%s --> hub>.", "<hub --> %s>.", "<%s --> hub>. :|:", "<(hub * %s) --> rel>.", "<%s <-> hub>.", "<<$1 --> %s> ==> <$1 --> hub>>.", "<<$1 --> hub> =/> <$1 --> %s>>.", "<hub --> [%s]>. :|:", "(<hub --> %s> && <hub --> k>).", "<%s --> hub>! :|:"]) % x)
        if r.random() < 0.2: s.append(r.choice(["<hub --> k>. :|:", "<k --> hub>.", "<hub --> k>! :|:", "<hub --> ?1>?", "5", "^left. :|:"]))
    return s

def hostile(r, n):
    """cyclic, self-referring and saturating knowledge"""
    at = ["a", "b", "c"]
    a = lambda: r.choice(at)
    s = ["*motorbabbling=%s" % r.choice(["0.5", "1.0", "false"]), "*volume=0"]
    for _ in range(n):
        k = r.random()
        if k < 0.2: s.append("<(%s &/ ^%s) =/> %s>." % (a(), r.choice(["left", "right", "pick"]), a()))
        elif k < 0.3: s.append("<%s =/> %s>." % (a(), a()))
        elif k < 0.4: s.append("<<$1 --> %s> ==> <$1 --> %s>>." % (a(), a()))
        elif k < 0.45: s.append("<<%s --> %s> <=> <%s --> %s>>." % (a(), a(), a(), a()))
        elif k < 0.55: s.append("<%s <-> %s>." % (a(), a()))
        elif k < 0.65: s.append("%s! :|:" % r.choice([a(), "(%s &/ %s)" % (a(), a()), "((%s &/ %s) &/ %s)" % (a(), a(), a())]))
        elif k < 0.8: s.append("%s. :|:" % r.choice([a(), "<%s --> %s>" % (a(), a()), "^left"]))
        elif k < 0.86: s.append("<<(%s * %s) --> %s> ==> %s>." % (a(), a(), a(), a()))
        elif k < 0.9: s.append("<(%s &/ %s) =/> (%s &/ %s)>." % (a(), a(), a(), a()))
        elif k < 0.94: s.append(str(r.choice([1, 5, 20])))
        else: s.append(r.choice(["*concurrent", "<?1 --> ?2>?", "*motorbabbling=0.9", "<(($1 &/ ^left) =/> $1>.", "<<$1 --> #2> ==> <#2 --> $1>>."][:5]))
    s = [l for l in s if not l.startswith("<(($1")]
    return [l for i, l in enumerate(s) if l != "*concurrent" or i > 5]

def run(ctx):
    plan = [("big", 14, 120), ("mid", 20, 160), ("tiny", 14, 160), ("two", 12, 120)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    with cf.ThreadPoolExecutor(4) as ex:
        fs = {cfg: ex.submit(build.monitor, "mon", ["w_work.c"], WRAPS, CONFIGS[cfg], extra_cflags=("-fsanitize-coverage=trace-pc-guard",), name="work-" + cfg) for cfg, n, l in plan}
        exes = {k: f.result() for k, f in fs.items()}
    top = 0
    for cfg, n, length in plan:
        scripts = []
        for i in range(n):
            r = random.Random("c28/%d/%s/%d" % (ctx.seed, cfg, i))
            k = i % 7
            s = skilled(r, length) if k == 0 else chains(r, length) if k == 1 else dense(r, length) if k == 2 else hypotheses(r, length) if k == 3 else hostile(r, length) if k == 4 else asking(r, length) if k == 5 else stress.mixed("c28/%d" % ctx.seed, i, length)
            scripts.append(["@limit\t%d" % LIMIT] + [l for l in s if not l.startswith("@")] + ["@work"])
        for s, res, rec in stress.run(ctx, exes[cfg], scripts, ("C28",), cfg, timeout=600):
            if res.timeout: ctx.inconclusive += 1
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
                if isinstance(x, dict) and x.get("k") == "work": top = max(top, x["max"])
    ctx.count("largest_step_kiloblocks", top // 1000)
    # the same things told again and again: once all stores are full, a round costs what it did before
    def go(i):
        r = random.Random("c28g/%d/%d" % (ctx.seed, i))
        cfg = ["mid", "tiny", "two"][i % 3]
        unit = [l for l in (hostile(r, 25) if i % 4 == 0 else chains(r, 40) if i % 4 == 1 else dense(r, 40) if i % 4 == 2 else stress.mixed("c28g/%d" % ctx.seed, i, 40)) if not l.startswith(("@", "*reset", "*currenttime", "*restricted", "quit"))]
        s = ["@limit\t%d" % LIMIT, "*volume=0"]
        rounds = ctx.scale(24, 100)
        for _ in range(rounds): s += unit + ["@work"]
        res, rec = mon.session(exes[cfg], s, timeout=900)
        return cfg, unit, s, res, rec, rounds
    for cfg, unit, s, res, rec, rounds in core.pmap(go, range(ctx.scale(12, 60))):
        mon.died(ctx, res, "\n".join(s), "rounds")
        if res.timeout: ctx.inconclusive += 1; continue
        for x in rec:
            if isinstance(x, dict) and x.get("k") == "v": ctx.violation("rounds-" + x["key"], x["msg"], {"script": "\n".join(s)})
        w = [x["max"] for x in rec if isinstance(x, dict) and x.get("k") == "work"]
        if len(w) < rounds: continue
        third = rounds // 3
        early, late = max(w[:third]), min(w[-third:])
        ctx.count("round_series"); ctx.evaluations += len(w)
        ctx.counts["largest_growth_percent"] = max(ctx.counts.get("largest_growth_percent", 0), int(100 * late / max(1, early)))
        if late > 3 * early + 1000000:
            ctx.violation("growth-" + cfg, "the heaviest step of a round of the same inputs took at most %d basic blocks in the first third of %d rounds, at least %d in the last" % (early, rounds, late), {"script": "\n".join(s)})
    ctx.sample({"first_lines": scripts[0][:8]})
    ctx.rule = "per step: selections within the limits, at most the match target of beliefs per event and each concept once, one step per input, nesting at most once, basic blocks within the limit and not growing over rounds of the same input"
