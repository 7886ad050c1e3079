"""Histories for the monitored sessions, and running them."""
from . import gen, mon, core

def truthy(r, extreme=False):
    k = r.random()
    if k < (0.3 if extreme else 0.6): return ""
    if extreme:
        return " {%s %s}" % (r.choice(["0.0", "1.0", "0.5", "1e-30", "0.999999999", "0.000001", "%.9f" % r.random()]), r.choice(["0.99", "0.0", "0.01", "0.999999", "0.9", "1e-9", "%.6f" % r.random()]))
    return " {%.3f %.3f}" % (r.choice([0.0, 1.0, r.random()]), r.choice([0.9, 0.5, 0.99, 0.05, r.random() * 0.98 + 0.01]))

def history(r, n, atoms=None, kinds=None, extreme=False, commands=(), maxstep=5, ops=("^left", "^deactivate", "^pick"), questions=True, goals=True):
    """n lines of well-formed input of mixed kinds"""
    atoms = atoms or ["a", "b", "c", "d", "e", "f", "g", "h"]
    g = gen.Grammar(r, atoms=list(atoms), ops=list(ops), depth=2)
    ev = list(atoms[:5])
    kinds = kinds or {"inh": 4, "hol": 2, "event": 4, "imp": 2, "stmt": 2, "seq": 1, "op": 1, "step": 1, "rel": 0.5, "q": 1, "goal": 1.5}
    ks, ws = list(kinds), list(kinds.values())
    out = []
    a = lambda: r.choice(atoms)
    for _ in range(n):
        k = r.choices(ks, ws)[0]
        t = truthy(r, extreme)
        if k == "inh": l = "<%s --> %s>.%s" % (a(), a(), t)
        elif k == "ev_inh": l = "<%s --> %s>. :|:%s" % (a(), a(), t)
        elif k == "hol": l = "%s.%s" % (g.hol(), t)
        elif k == "stmt": l = "%s.%s%s" % (g.statement(), r.choice(["", " :|:"]), t)
        elif k == "stmt_e": l = "%s.%s" % (g.statement(2), t)
        elif k == "event": l = "%s. :|:%s" % (r.choice(ev) if r.random() < 0.7 else g.event(), t)
        elif k == "seq": l = "%s. :|:%s" % (g.seq(r.choice([2, 2, 3])), t)
        elif k == "op": l = "%s. :|:" % g.op()
        elif k == "imp": l = "%s.%s" % ("<(%s &/ %s) =/> %s>" % (r.choice(ev), r.choice(ops), r.choice(ev)) if r.random() < 0.5 else "<%s =/> %s>" % (r.choice(ev), r.choice(ev)) if r.random() < 0.4 else g.timp(), t)
        elif k == "rel": l = "<(%s * %s) --> %s>.%s" % (a(), a(), a(), t)
        elif k == "goal": l = "%s! :|:%s" % (r.choice(ev) if r.random() < 0.8 else g.seq(2) if r.random() < 0.5 else g.statement(1), t)
        elif k == "q": l = "%s?%s" % (r.choice(["<%s --> %s>" % (a(), a()), "<?1 --> %s>" % a(), "<%s =/> ?1>" % r.choice(ev), r.choice(ev), "<?1 ==> ?2>", "?1", g.any()]), r.choice(["", "", " :|:", " :\\:", " :/:"]))
        elif k == "step": l = str(r.randrange(1, maxstep + 1))
        else: l = k
        if k == "q" and not questions: continue
        if k == "goal" and not goals: continue
        out.append(l)
        if commands and r.random() < 0.05: out.append(r.choice(commands))
    return out

def fresh_atoms(r, n, prefix="x"):
    return ["%s%d" % (prefix, i) for i in range(n)]

def flood(r, n, pool):
    """histories over a large vocabulary: overflows every store"""
    return history(r, n, atoms=r.sample(pool, min(len(pool), r.choice([6, 20, 60, len(pool)]))))

def aged(script, base):
    """the same session of a system which has been running for long"""
    return ["*currenttime=%d" % base] + ["*currenttime=%d" % (base + int(l[13:])) if l[:13] == "*currenttime=" and l[13:].isdigit() else l for l in script]

def run(ctx, exe, scripts, props, what, timeout=300, counts=True, age=True):
    """Runs each script as a session of a monitor executable; 'v' records of the given properties are violations."""
    scripts = [aged(s, [3000000000, 5000000000, 2147483640][i // 7 % 3]) if age and i % 7 == 6 else s for i, s in enumerate(scripts)]
    def go(s):
        res, rec = mon.session(exe, s, timeout=timeout)
        if res.timeout:
            res, rec = mon.session(exe, s, timeout=3 * timeout)
        return s, res, rec
    out = []
    for s, res, rec in core.pmap(go, scripts):
        text = "\n".join(s)
        lines = 0
        for x in rec:
            if not isinstance(x, dict): continue
            if x.get("k") == "v" and x["p"] in props:
                ctx.violation(x["key"] if x["key"] in ctx.known else what + "-" + x["key"], "%s (after %d lines)" % (x["msg"], lines), {"script": text})
            elif x.get("k") == "line":
                lines += 1
            elif x.get("k") == "counts" and counts:
                for k, v in x.items():
                    if k != "k": ctx.count(k, v)
        mon.died(ctx, res, text, what)
        ctx.evaluations += lines
        ctx.count("sessions")
        out.append((s, res, rec))
    return out

# configurations small enough that every store overflows in a few lines
CONFIGS = {
    "tiny": {"CONCEPTS_MAX": 24, "CONCEPTS_HASHTABLE_BUCKETS": 5, "ATOMS_MAX": 600, "ATOMS_HASHTABLE_BUCKETS": 37, "CYCLING_BELIEF_EVENTS_MAX": 8, "CYCLING_GOAL_EVENTS_MAX": 6, "CYCLING_GOAL_EVENTS_LAYERS": 4, "TABLE_SIZE": 3, "OCCURRENCE_TIME_INDEX_SIZE": 16},
    "one": {"CONCEPTS_MAX": 9, "CONCEPTS_HASHTABLE_BUCKETS": 1, "ATOMS_MAX": 400, "ATOMS_HASHTABLE_BUCKETS": 3, "CYCLING_BELIEF_EVENTS_MAX": 3, "CYCLING_GOAL_EVENTS_MAX": 2, "CYCLING_GOAL_EVENTS_LAYERS": 2, "TABLE_SIZE": 1, "OCCURRENCE_TIME_INDEX_SIZE": 4},
    "mid": {"CONCEPTS_MAX": 150, "CONCEPTS_HASHTABLE_BUCKETS": 31, "ATOMS_MAX": 2000, "ATOMS_HASHTABLE_BUCKETS": 211, "CYCLING_GOAL_EVENTS_MAX": 30, "OCCURRENCE_TIME_INDEX_SIZE": 64},
    "big": {"CONCEPTS_MAX": 512, "ATOMS_MAX": 4000},
}
EV = ["Stamp_make", "Stamp_checkOverlap"] + ["Inference_" + x for x in ("BeliefInduction", "BeliefIntersection", "RevisionAndChoice", "ImplicationRevision", "BeliefDeduction", "GoalDeduction", "GoalSequenceDeduction")] + ["Event_InputEvent", "RuleTable_Apply", "NAL_DerivedEvent", "Memory_AddEvent"]
PQ = ["PriorityQueue_INIT", "PriorityQueue_Push", "PriorityQueue_PopMax", "PriorityQueue_PopMin", "PriorityQueue_Rebuild", "Cycle_Perform"]

GOALS = {"imp": 3, "goal": 6, "event": 4, "op": 1.5, "seq": 1, "inh": 1, "step": 2, "q": 0.3}
ETERNAL = {"inh": 6, "rel": 1, "stmt_e": 2, "step": 1, "q": 0.5}
TEMPORAL = {"event": 6, "op": 2, "step": 1.5, "ev_inh": 1, "seq": 0.4}

def mixed(seed, i, n, extreme=None, kinds="any"):
    """the i-th history of a family: vocabulary size, kind mix and truth values vary with i"""
    import random
    r = random.Random("%s/%d" % (seed, i))
    atoms = r.sample(fresh_atoms(r, 300), r.choice([5, 8, 12, 20, 60, 250]))
    k = {"any": [None, None, GOALS, TEMPORAL, ETERNAL][i % 5], "goals": GOALS, "eternal": ETERNAL, "temporal": TEMPORAL, "mixed": None}[kinds]
    return history(r, n, atoms=atoms, kinds=k, extreme=(i % 4 == 1) if extreme is None else extreme)
