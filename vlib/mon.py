"""Running monitor executables and reading their records."""
import json, re, os
from . import core

def loads(t):
    """A record; C prints non-finite numbers in a way JSON does not know."""
    try:
        return json.loads(t)
    except json.JSONDecodeError:
        if isinstance(t, bytes): t = t.decode("latin-1")
        return json.loads(re.sub(r"(?<=[:\[, ])(-?)(inf|nan)(?=[,\]} \n]|$)", lambda m: m.group(1).replace("-", "-" if m.group(2) == "inf" else "") + {"inf": "Infinity", "nan": "NaN"}[m.group(2)], t))

def records(res):
    """JSON records and printed terms in order; ('P', text) for printed terms"""
    out = []
    for l in res.text().split("\n")[:-1]: # what follows the last newline is cut off
        if l.startswith("@@P "):
            out.append(("P", l[4:]))
        elif l.startswith("@@{"):
            out.append(loads(l[2:]))
    return out

def session(exe, lines, timeout=120, **kw):
    """All lines in one process. Returns (Result, records)."""
    res = core.run([exe], "".join(l + "\n" for l in lines), timeout=timeout, **kw)
    return res, records(res)

def stream(res):
    """('out', line) and ('rec', record) in order of appearance"""
    all = res.text().split("\n")
    for i, l in enumerate(all):
        if l.startswith("@@{"):
            if i == len(all) - 1: break # cut off when the process ended
            yield "rec", loads(l[2:])
        elif l.startswith("@@P "):
            yield "P", l[4:]
        elif l != "":
            yield "out", l

def drive(ctx, exe, cmds, chunk=4000, timeout=200, what="fn"):
    """Sends independent function drives, one record each; chunks run in parallel. Returns a list of records
    (None where the process died; that is reported as a violation of its own)."""
    parts = [cmds[i:i + chunk] for i in range(0, len(cmds), chunk)]
    def go(p):
        res, rec = session(exe, p, timeout=timeout)
        rec = [x for x in rec if not (isinstance(x, dict) and x.get("k") in ("end", "counts"))]
        return p, res, rec
    out = []
    for p, res, rec in core.pmap(go, parts):
        if res.timeout:
            res, rec = session(exe, p, timeout=3 * timeout)
            rec = [x for x in rec if not (isinstance(x, dict) and x.get("k") in ("end", "counts"))]
        if len(rec) != len(p) or res.rc != 0:
            bad = p[len(rec)] if len(rec) < len(p) else "?"
            ctx.violation("died-%s-%s" % (what, core.san_key(res.err)), "the process ended with %s at: %s\n%s" % (res.rc, bad, res.err.decode("latin-1")[:3000]), {"command": bad})
            rec = rec[:len(p)] + [None] * (len(p) - len(rec))
        out += rec
    return out

def died(ctx, res, script, what):
    """For sessions: anything but a normal end is a violation. Returns True if it died."""
    if res.timeout:
        ctx.inconclusive += 1
        return True
    if res.rc != 0:
        tail = res.text()[-600:]
        ctx.violation("session-died-%s-%s" % (what, core.san_key(res.err) if res.err else "rc%s" % res.rc),
                      "a well-formed session ended with status %s: %s %s" % (res.rc, tail[-300:], res.err.decode("latin-1")[:2500]), {"script": script})
        return True
    return False
