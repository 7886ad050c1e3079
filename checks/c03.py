"""C03: every truth value and priority held anywhere after every line, and every number printed, is finite and in range."""
import re
from vlib import build, stress
MIN = 3000
NUM = re.compile(r"(frequency|confidence|Priority|expectation|desire|usefulness|priority)(?:=|\":\s*)(\S+?)(?=[,\s}]|$)")
LIM = {"frequency": (0, 1), "confidence": (0, 0.9999999999), "Priority": (0, 1), "expectation": (0, 1), "desire": (0, 1), "usefulness": (0, 1), "priority": (0, 1)}
COMMANDS = ["*concepts", "*cycling_belief_events", "*cycling_goal_events", "*decisionthreshold=0.0", "*decisionthreshold=1.0", "*motorbabbling=1.0", "*motorbabbling=0.0", "*anticipationconfidence=0.0", "*anticipationconfidence=0.9", "*anticipationconfidence=0.999", "*questionpriming=1.0", "*questionpriming=0.0", "*similaritydistance=0.5"]

def run(ctx):
    plan = [("tiny", 16, 260), ("mid", 16, 300), ("big", 6, 320)]
    if ctx.thorough: plan = [(c, 4 * n, 3 * l) for c, n, l in plan]
    exes = build.monitors("mon", ["w_ev.c", "walk.c"], stress.EV, {cfg: stress.CONFIGS[cfg] for cfg, n, lines in plan}, "ev")
    for cfg, n, lines in plan:
        exe = exes[cfg]
        scripts = []
        for i in range(n):
            s = stress.mixed("c03/%d/%s" % (ctx.seed, cfg), i, lines, extreme=i % 4 != 3)
            for k in range(6): s.insert(ctx.rng.randrange(len(s)), ctx.rng.choice(COMMANDS))
            if i % 4 == 2:      # long revision chains of the same few statements
                r = ctx.rng
                s = ["<%s --> %s>.%s" % (r.choice("ab"), r.choice("ab"), stress.truthy(r, True)) if r.random() < 0.6 else "%s. :|:%s" % (r.choice("ab"), stress.truthy(r, True)) if r.random() < 0.7 else "%s! :|:%s" % (r.choice("ab"), stress.truthy(r, True)) for _ in range(lines)]
            scripts.append(s)
        for s, res, rec in stress.run(ctx, exe, scripts, ("C03",), cfg, timeout=400):
            for l in res.text().split("\n"):
                if l.startswith("@@"): continue
                for k, v in NUM.findall(l):
                    ctx.count("printed_numbers")
                    try: x = float(v)
                    except ValueError: x = float("nan")
                    lo, hi = LIM[k]
                    # six decimals are printed: 1.000000 may be a confidence just below 1
                    if not (lo <= x <= max(hi, 1.0)):
                        ctx.violation("printed-" + k, "printed %s=%s in: %s" % (k, v, l), {"script": "\n".join(s)})
                    ctx.distinct("%s%.2f" % (k, x))
        ctx.sample({"config": cfg, "first_lines": scripts[1][:5]})
    ctx.rule = "finite and in range: all concepts' beliefs, events, goals, tables, buffers, selections and ranks after every line; all events entering memory; all printed numbers"
    ctx.assumptions = ["printed confidences have six decimals, so 1.000000 in print is only judged by the stored value"]
