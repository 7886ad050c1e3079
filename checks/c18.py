"""C18: a session after *reset against the same session in a new process: printed output and complete dumps of the state."""
import random
from vlib import build, core, mon, stress
from checks.c15 import skilled, valued
from checks.c20 import chains
from checks.c16 import stream as hypotheses
MIN = 4000
PARAMS = ["*motorbabbling=false", "*decisionthreshold=%s", "*anticipationconfidence=%s", "*similaritydistance=%s", "*questionpriming=%s", "*babblingops=%s", "*volume=%s"]
KEPT = ("dth", "ac", "mb", "bops", "sd", "qp", "pth", "pi")
INSPECT = ["*stats", "*opconfig", "*inverted_atom_index", "*concepts", "*cycling_belief_events", "*cycling_goal_events"]

def params(r):
    return ["*motorbabbling=false", "*decisionthreshold=%s" % r.choice([0.501, 0.501, 0.6, 0.3]), "*anticipationconfidence=%s" % r.choice([0.01, 0.1]),
            "*similaritydistance=%s" % r.choice([1, 0.5, 10]), "*questionpriming=%s" % r.choice([0.1, 0.1, 0.5]), "*babblingops=%d" % r.choice([10, 3]), "*volume=%s" % r.choice(["100", "100", "100", "50", "0"])]

def session(r, i, n, tag):
    k = i % 6
    if k == 0: s = skilled(r, n)
    elif k == 1: s = chains(r, n)
    elif k == 2: s = valued(r, n)
    elif k == 3: s = hypotheses(r, n)
    else: s = stress.mixed(tag, i, n)
    return [l for l in s if not l.startswith("@") and not l.startswith(("*volume", "*motorbabbling")) and l != "quit"]

def prefix(r, i, n):
    s = session(r, r.randrange(6), n, "c18p%d" % i)
    extra = ["*stampimport=[7,9,11]", "*stampid=%d" % r.choice([5, 100, 9000]), "*currenttime=%d" % r.choice([1, 77, 5000]), "*concurrent", "*restrictedconceptcreation=true", "*setvalue 5 10 size", "*setvalue 42 100 temp", "*space 10 size", "*space 1000 pos",
             "*setopname 1 ^other", "*setoparg 1 1 x1", "*setoparg 3 2 (a * b)", "*setopstdin 2", "*babblingops=2", "*decisionthreshold=0.9", "*similaritydistance=2", "*questionpriming=0.9", "*volume=0", "*anticipationconfidence=0.3", "<size_5.0 --> q>. :|:", "a. :|:", "a! :|:", "*stats", "3", "*reset", "*query 0.1 ?1?"]
    for _ in range(r.choice([0, 2, 10])): s.insert(r.randrange(len(s) + 1), r.choice(extra))
    for _ in range(r.choice([0, 1, 3])): s.append(r.choice(extra[:-2])) # what comes right before the reset
    if r.random() < 0.3: s = ["*setopname %d %s" % (k + 1, o) for k, o in enumerate(["^walk", "^jump", "^go"])] + s
    return [l for l in s if not l.startswith("*setopstdin")]

def after(res, mark):
    """printed lines, and records, following the mark"""
    on, out, rec = False, [], []
    for k, x in mon.stream(res):
        if k == "rec" and x.get("k") == "mark" and x.get("v") == mark: on = True
        elif on and k == "rec":
            if x.get("k") == "line": x = dict(x, n=0)
            if x.get("k") not in ("counts",): rec.append(x)
        elif on: out.append(x)
    return out, rec

def run(ctx):
    plan = [("big", 30, 110), ("mid", 30, 130), ("tiny", 30, 130), ("one", 10, 80)]
    if ctx.thorough: plan = [(c, 8 * n, 2 * l) for c, n, l in plan]
    exes = build.monitors("mon", [], [], {cfg: stress.CONFIGS[cfg] for cfg, n, l in plan}, "reset")
    for cfg, n, length in plan:
        work = []
        for i in range(n):
            r = random.Random("c18/%d/%s/%d" % (ctx.seed, cfg, i))
            pre, par = prefix(r, i, r.choice([3, 30, length, 2 * length])), params(r)
            suf = session(r, i, length, "c18s%s" % cfg) + INSPECT
            resets = ["*reset"] * r.choice([1, 1, 2, 3])
            work.append((pre, resets, par, suf))
        def go(w):
            pre, resets, par, suf = w
            tail = ["@mark\tzero", "@dump\tsmovbg"] + par + ["@mark\tgo"] + suf + ["@dump\tsmovbg"]
            a = core.run([exes[cfg]], "".join(l + "\n" for l in pre + ["@mark\tbefore", "@dump\ts"] + resets + tail), timeout=300)
            b = core.run([exes[cfg]], "".join(l + "\n" for l in tail), timeout=300)
            return w, a, b
        for (pre, resets, par, suf), a, b in core.pmap(go, work):
            text = "\n".join(pre + resets + par + suf)
            if a.timeout or b.timeout: ctx.inconclusive += 1; continue
            if '"v":"go"' not in a.text(): ctx.count("ended_before_reset"); continue
            if a.rc != b.rc: ctx.violation("status-" + cfg, "status %s after a reset, %s in a new process: %s" % (a.rc, b.rc, a.text()[-300:]), {"script": text}); continue
            ctx.count("sessions")
            before = [x for x in after(a, "before")[1] if x.get("k") == "state"]
            za, zb = [x for x in after(a, "zero")[1]], [x for x in after(b, "zero")[1]]
            if not za or not zb or not before: continue
            # parameters survive, everything else is as at the start
            sa, sb = dict(za[0]), dict(zb[0])
            sa.pop("sel"); sb.pop("sel") # of the step in progress, none here
            for k in KEPT:
                if sa.get(k) != before[0].get(k): ctx.violation("parameter-%s" % k, "%s was %s before the reset and is %s after it" % (k, before[0].get(k), sa.get(k)), {"script": text})
                sa.pop(k, None); sb.pop(k, None)
            if sa != sb: ctx.violation("state-after-reset", "after the reset: %s, at the start: %s" % ({k: v for k, v in sa.items() if sb.get(k) != v}, {k: v for k, v in sb.items() if sa.get(k) != v}), {"script": text})
            for what in ("op", "val", "c", "m", "b", "g"):
                xa, xb = ([x for x in z[:z.index(next(y for y in z if y.get("k") == "line"))] if x.get("k") == what] for z in (za, zb))
                if xa != xb: ctx.violation("left-%s" % what, "%d records of kind %s after the reset, %d at the start: %r" % (len(xa), what, len(xb), [x for x in xa if x not in xb][:2] or [x for x in xb if x not in xa][:2]), {"script": text})
            (oa, ra), (ob, rb) = after(a, "go"), after(b, "go")
            ctx.evaluations += len(oa)
            ctx.count("records_compared", len(ra)); ctx.count("lines_before_reset", len(pre)); ctx.distinct(hash(tuple(oa)))
            k = next((k for k in range(min(len(oa), len(ob))) if oa[k] != ob[k]), None)
            if k is not None or len(oa) != len(ob):
                k = min(len(oa), len(ob)) if k is None else k
                ctx.violation("output-" + cfg, "printed after the reset: %r; by a new process: %r" % (oa[k:k + 1], ob[k:k + 1]), {"script": text}); continue
            k = next((k for k in range(min(len(ra), len(rb))) if ra[k] != rb[k]), None)
            if k is not None or len(ra) != len(rb):
                k = min(len(ra), len(rb)) if k is None else k
                ctx.violation("final-state-" + cfg, "state after the reset and the session: %r; of a new process: %r" % (ra[k:k + 1], rb[k:k + 1]), {"script": text})
            if ctx.samples == []: ctx.sample({"before_reset": pre[-5:], "resets": len(resets), "after": suf[:5]})
    ctx.rule = "printed lines of generated sessions after a history and *reset equal those of a new process, and so do complete dumps of concepts, tables, queues, operators, values, clock, ids; parameters survive the reset; non-trivial: distinct outputs"
    ctx.assumptions = ["motor babbling is off in the compared sessions (its pseudo-random sequence continues by design)"]
