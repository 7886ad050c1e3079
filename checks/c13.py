"""C13: (a) the clock after every line against a model (sentences, steps, executions, clock commands); (b) the occurrence
times of inputs and conclusions and the projection of premises in the running reasoner; (c) projection driven directly."""
import random, re
from vlib import build, core, mon, stress, truth as T
from checks.c12 import ev
MIN = 3000
WR = ["Memory_AddInputEvent", "RuleTable_Apply", "NAL_DerivedEvent", "Memory_AddEvent", "Inference_BeliefIntersection", "Inference_BeliefDeduction", "Inference_GoalDeduction", "Inference_GoalSequenceDeduction"]
COMMANDS = ["*volume=100", "*concepts", "*stats", "*opconfig", "*cycling_belief_events", "//a comment", "*motorbabbling=0.9", "*motorbabbling=false", "*questionpriming=0.3", "*stampid=500", "*stampimport=[3]", "*concurrent", "*query 0.3 ?1?", "*cycling_goal_events", "*decisionthreshold=0.4", "*reset"]
INP = re.compile(r"Input: .*?([.!]) :\|: occurrenceTime=(-?\d+) ")

def clock(ctx, script, res):
    """(line number, message) of the first line after which the clock is wrong"""
    t, i, execs, inputs = 1, 0, 0, []
    lines = [l for l in script if not l.startswith("@")]
    for kind, x in mon.stream(res):
        if kind == "out":
            if " executed with args " in x: execs += 1
            m = INP.search(x)
            if m: inputs.append(int(m.group(2)))
        elif kind == "rec" and x.get("k") == "line":
            l = lines[i].strip()
            if l == "" or l.startswith("//"): d = 0
            elif l.isdigit(): d = int(l)
            elif l.startswith("*currenttime="): t, d = int(l.split("=")[1]), 0
            elif l == "*concurrent": d = -1
            elif l == "*reset": t, d = 1, 0
            elif l.startswith("*"): d = 0
            elif re.search(r"\?( :[|\\/]:)?$", l): d = 0
            else: d = 1
            want = t + d + execs
            if x["time"] != want:
                return i, "clock is %d after '%s', expected %d (%d executions)" % (x["time"], l, want, execs)
            ctx.count("clock_checks"); ctx.count("executions", execs); ctx.evaluations += 1
            # inputs of this line: the sentence itself occurs at its own step, feedback at the steps of their execution
            if d == 1 and not l.startswith("*") and ":|:" in l and inputs and inputs[0] != t:
                return i, "'%s' was input at %d but is reported to occur at %d" % (l, t, inputs[0])
            if any(not (t <= o < want) for o in inputs):
                return i, "events reported at %s during the steps %d..%d of '%s'" % (inputs, t, want - 1, l)
            ctx.count("input_times", len(inputs))
            t, execs, inputs, i = want, 0, [], i + 1
    return None

def run(ctx):
    plan = [("mid", 20, 260), ("big", 12, 300), ("tiny", 8, 200)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_time.c"], WR, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "time")
    for cfg, n, lines in plan:
        m = exes[cfg]
        scripts = []
        for i in range(n):
            s = stress.mixed("c13/%d/%s" % (ctx.seed, cfg), i, lines, kinds=["any", "goals", "temporal", "mixed"][i % 4])
            r = random.Random("c13c/%d/%s/%d" % (ctx.seed, cfg, i))
            for _ in range(25):
                s.insert(r.randrange(len(s)), r.choice(COMMANDS[:-1] + ["*currenttime=%d" % r.choice([5, 100, 1000, 77])]))
            if i % 5 == 0: s.insert(len(s) // 2, "*reset")
            scripts.append(["*motorbabbling=%s" % ["false", "0.3", "1.0"][i % 3]] + s)
        for s, res, rec in stress.run(ctx, m, scripts, ("C13",), cfg, timeout=400):
            bad = clock(ctx, s, res)
            if bad: ctx.violation(cfg + "-clock", bad[1], {"script": "\n".join(s[:bad[0] + 2])})
            for x in rec:
                if isinstance(x, dict) and x.get("k") == "counts": ctx.distinct(str(x))
    # direct: projection of events changes nothing but confidence and time
    exe = build.monitor("asan", ["fn.c"], config={"CONCEPTS_MAX": 256}, name="fn-asan")
    r, cmds, want = ctx.rng, [], []
    for _ in range(ctx.scale(3000, 30000)):
        t = (round(r.random(), 4), r.choice([0.9, 0.99, round(r.random() * 0.98, 5), 0.0]))
        occ = r.choice([-1, 0, 1, r.randrange(1, 500)]); to = max(0, (occ if occ > 0 else 50) + r.choice([0, 1, -1, 2, 5, -7, 20, 100, 1000, 2**16, 2**31, 2**32, 2**32 + 1, 2**33 + 3, 10**12]))
        cmds.append("@update\t%d\t%s" % (to, ev("0:a", t[0], t[1], occ, [1, 2])))
        want.append((t[0], t[1] if occ == -1 else t[1] * 0.8 ** abs(to - occ), to, occ))
    for c, w, x in zip(cmds, want, mon.drive(ctx, exe, cmds, what="update")):
        if x is None: continue
        ctx.evaluations += 1
        e = x["e"]
        if not T.close(e["f"], w[0]) or not T.close(e["c"], w[1]) or e["t"] != "0:a" or e["s"] != [1, 2] or (w[3] != -1 and e["o"] != w[2]):
            ctx.violation("projection", "%s -> %s, expected %s" % (c, x, w), {"command": c})
    ctx.sample({"first_lines": scripts[0][:6]})
    ctx.rule = "clock after each line; occurrence of each input event and conclusion; truth of each second premise after projection; eternal forms"
    ctx.assumptions = ["every executed operation of the built-in shell operators succeeds and yields one feedback event"]
