"""C19: the UDP server under ThreadSanitizer and with delays in every gap: what reached the reasoner (commands, ticks, in order) is
compared with what was sent and is given again to the single-threaded shell, which has to produce the same output and memory."""
import os, random, re, socket, subprocess, time
from vlib import build, core, stress, mon
from checks.c15 import skilled
from checks.c29 import first_difference
MIN = 400
WRAPS = ["NAR_Cycles", "Shell_ProcessInput", "Shell_NARInit", "UDP_ReceiveData", "pthread_cond_wait"]
END = ["@mark\tend", "@dump\tsovmbg"]

def plan(r, n, slow):
    """a server session: commands in bursts from several senders, resets, restarts, stops with pending commands"""
    out, sent = [], []
    for part in range(r.choice([1, 1, 2, 3])):
        ts = r.choice([0, 20000, 200000, 2000000, 10000000])
        out.append("@udp\tstart\t%d\t%d\t%d\t%d" % (ts, r.choice([0, 50, 300]), r.random() < 0.5, r.random() < 0.8))
        mine = [[] for _ in range(4)]
        lines = stress.mixed("c19/%s" % r.random(), r.randrange(5), n) if r.random() < 0.6 else [l for l in skilled(r, n) if not l.startswith("@")]
        lines = [l for l in lines if l != "quit" and not l.startswith("*concurrent")]
        senders = r.choice([1, 1, 2, 4])
        pending = 0
        for i, l in enumerate(lines):
            s = r.randrange(senders)
            k = r.random()
            if k < 0.06:
                size = r.choice([2, 500, 1023, 1024, 2000, 2145, 2146, 2147, 2148, 2149, 3000, 9000])
                out.append("@udp\tlong\t%d\t%d" % (s, size)); mine[s].append(("//" + chr(97 + size % 26) * (size - 2))[:2147])
            elif k < 0.09: out.append("@udp\tsend\t%d\t\t0" % s); mine[s].append("")
            elif k < 0.11: out.append("@udp\tsend\t%d\t*reset\t0" % s); mine[s].append("*reset")
            if len(l) > 1000: continue
            out.append("@udp\tsend\t%d\t%s\t%d" % (s, l, r.random() < 0.3)); mine[s].append(l)
            pending += 1
            k = r.random()
            if pending > 30 or k < 0.05: out.append("@udp\twait"); pending = 0
            elif k < 0.3: out.append("@udp\tpause\t%d" % r.choice([10, 100, 1000, 5000]))
            elif k < 0.33: out.append("@udp\tidle\t%d" % r.choice([1, 3]))
        whole = r.random() < 0.6
        if whole: out.append("@udp\twait")
        out.append("@udp\tstop")
        sent.append((ts, mine, whole))
    return out + END, sent

def merge(got, queues, whole):
    """is got an interleaving of (prefixes of) the queues? Equal lines make the choice ambiguous, so all positions are tracked"""
    states = {tuple([0] * len(queues))}
    for i, g in enumerate(got):
        nxt = set()
        for st in states:
            for q in range(len(queues)):
                if st[q] < len(queues[q]) and queues[q][st[q]] == g: nxt.add(st[:q] + (st[q] + 1,) + st[q + 1:])
        if not nxt: return "command %d '%s' was not due; due were %s" % (i, g[:200], [queues[q][min(st[q], len(queues[q]) - 1)][:80] for q in range(len(queues)) if queues[q]])
        states = nxt
    if whole and not any(all(st[q] == len(queues[q]) for q in range(len(queues))) for st in states):
        return "only %d of %d commands were processed" % (len(got), sum(map(len, queues)))

def races(ctx, res, script):
    """ThreadSanitizer reports; the wake-up of the receiver by closing its socket is by design"""
    for rep in re.split(r"(?==================\nWARNING: ThreadSanitizer)", res.err.decode("latin-1")):
        if "WARNING: ThreadSanitizer" not in rep: continue
        if "file descriptor" in rep and "recvfrom" in rep and re.search(r"#0 (close|shutdown)\b", rep):
            ctx.count("descriptor_closed_to_wake_receiver"); continue
        fn = [m for m in re.findall(r"#\d+ (\w+) [^\n]*/src/", rep)]
        ctx.violation("race-%s" % (fn[0] if fn else "unknown"), rep[:3500], {"script": script})

def again(ctx, recs, text):
    """the script of the same order for one thread"""
    out = []
    for x in recs:
        k = x.get("k")
        if k == "start": out.append("@udp\tagain\t%d" % x["pd"])
        elif k == "tick": out.append("@udp\ttick")
        elif k == "in": out.append(x["line"])
        elif k == "stop": out.append("*stats")
    return out + END

def judge(ctx, what, s, sent, res):
    text = "\n".join(s)
    res.out = res.out.replace(b"//UDPNAR started!\n", b"")
    races(ctx, res, text)
    try: recs = [x for x in mon.records(res) if isinstance(x, dict)]
    except ValueError: # records are printed by whoever is in the reasoner
        ctx.violation(what + "-garbled", "outputs of two threads are mixed within a line", {"script": text}); return
    for x in recs:
        if x.get("k") == "v": ctx.violation("%s-%s" % (what, x["key"]), x["msg"], {"script": text})
        if x.get("k") == "counts":
            for k, v in x.items():
                if k != "k": ctx.count(k, v)
    if mon.died(ctx, res, text, what): return
    part, got, prev, want_init, tock, order = -1, [], None, False, None, []
    for x in recs:
        k = x.get("k")
        if k == "start": part += 1; got = []; want_init = True; tock = None
        elif k == "init":
            if not want_init: ctx.violation(what + "-reset", "initialised without being told", {"script": text}); return
            want_init = False; ctx.count("initialisations")
        elif k in ("in", "tick") and want_init:
            ctx.violation(what + "-reset", "%s between a reset and its initialisation" % k, {"script": text}); return
        elif k == "in":
            got.append(x["line"]); want_init = x["line"] == "*reset"; ctx.count("commands"); order.append("c")
        elif k == "tick":
            order.append("t"); ctx.count("ticks")
            if x["n"] != 1: ctx.violation(what + "-tick", "a timer tick advanced time by %d" % x["n"], {"script": text}); return
            if tock is not None and x["at"] - tock < sent[part][0] * 0.98:
                ctx.violation(what + "-early", "the timer ticked %d ns after the last tick, the step is %d" % (x["at"] - tock, sent[part][0]), {"script": text}); return
        elif k == "tock": tock = x["at"]
        elif k == "stop":
            bad = merge(got, sent[part][1], sent[part][2])
            if bad: ctx.violation(what + "-commands", "server run %d: %s" % (part, bad), {"script": text}); return
            ctx.count("runs")
    ctx.distinct("".join(order)); ctx.evaluations += len(order)
    return again(ctx, recs, text)

def same(ctx, what, s, res, exe, script):
    one, _ = mon.session(exe, script, timeout=200)
    if mon.died(ctx, one, "\n".join(script), what + "-again"): return
    def view(r):
        out, mem, on = [], [], False
        for k, x in mon.stream(r):
            if k == "out" and x not in ("//*stats", "//*done"): out.append(x[:300] if x.startswith("Comment:") else re.sub(r"(?<=: )-nan\b", "nan", x))
            elif k == "rec" and x.get("k") == "mark": on = True
            elif k == "rec" and on and x.get("k") not in ("line", "counts", "end"): mem.append(x)
        return out, mem
    (oa, ma), (ob, mb) = view(res), view(one)
    for q, a, b in (("output", oa, ob), ("memory", ma, mb)):
        d = first_difference(a, b)
        if d:
            ctx.violation("%s-%s" % (what, q), "%s %d of the server is %.600s, of the shell given the same order %.600s" % (q, d[0], d[1], d[2]), {"script": "\n".join(s), "other": "\n".join(script)}); return
    ctx.count("outputs_equal", len(oa)); ctx.count("memory_records_equal", len(ma))

def program(ctx, exe, i):
    """the program itself, told by datagrams, ended by a key"""
    r = random.Random("c19e/%d/%d" % (ctx.seed, i))
    ip = "127.%d.%d.2" % (1 + os.getpid() % 250, 1 + i)
    port = r.randrange(20000, 60000); pd = i % 2
    p = subprocess.Popen([exe, "UDPNAR", ip, str(port), str(r.choice([100000, 3000000])), "true" if pd else "false"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    os.set_blocking(p.stdout.fileno(), False)
    buf = [b""]
    def until(x, secs=30):
        t = time.time()
        while x not in buf[0] and time.time() - t < secs and p.poll() is None:
            try: buf[0] += p.stdout.read() or b""
            except Exception: pass
            time.sleep(0.002)
        return x in buf[0]
    try:
        if not until(b"press any key"): ctx.violation("program-start", "the server did not start: %s" % buf[0][-300:]); return
        so = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        lines = ["<a --> b>.", "<b --> c>.", "*volume=%d" % r.choice([0, 100]) if False else "<c --> d>."] + ["<e%d --> f%d>. :|:" % (j, r.randrange(9)) for j in range(20)]
        for l in lines:
            so.sendto(l.encode(), (ip, port))
            if r.random() < 0.3: until(b"Input: " + l.split(". ")[0].rstrip(".").encode())
        if not until(b"Input: " + lines[-1].split(". ")[0].encode()):
            ctx.violation("program-commands", "no echo of '%s'" % lines[-1]); return
        time.sleep(0.05)
        p.stdin.write(b"\n"); p.stdin.flush()
        until(b"\0never", 40)
        if p.poll() is None: ctx.violation("program-stop", "the server did not end within 40 s of the key"); return
        os.set_blocking(p.stdout.fileno(), True)
        buf[0] += p.stdout.read() or b""
        out = buf[0].decode("latin-1")
        echoes = [m for m in re.findall(r"Input: (<.*?>)\.", out)]
        if echoes != [l.split(". ")[0].rstrip(".") for l in lines]: ctx.violation("program-commands", "sent %s, echoed %s" % (lines, echoes)); return
        if p.returncode != 0 or "Statistics" not in out: ctx.violation("program-stop", "status %s, ending with %s" % (p.returncode, out[-300:])); return
        if ("Derived: " in out) != bool(pd): ctx.violation("program-derivations", "printDerivations=%s, and derivations were%s printed" % (bool(pd), "" if "Derived: " in out else " not")); return
        ctx.count("programs"); ctx.evaluations += len(lines)
    finally:
        p.kill(); p.wait(); p.stdout.close(); p.stdin.close()

def run(ctx):
    cfg = stress.CONFIGS["tiny"]
    ctx_exes = {}
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(build.monitor, "tsan", ["w_udp.c"], WRAPS, cfg, name="udp-tsan")
        f2 = ex.submit(build.monitor, "mon", ["w_udp.c"], WRAPS, cfg, name="udp-mon")
        f3 = ex.submit(build.build, "mon", keep_main=True, config=stress.CONFIGS["mid"], name="udp-main")
        tsan, fast, prog = f1.result(), f2.result(), f3.result()
    jobs = []
    for i in range(ctx.scale(80, 400)):
        jobs.append(("tsan", tsan) + plan(random.Random("c19t/%d/%d" % (ctx.seed, i)), ctx.scale(40, 80), True))
    for i in range(ctx.scale(80, 600)):
        jobs.append(("fast", fast) + plan(random.Random("c19f/%d/%d" % (ctx.seed, i)), ctx.scale(90, 150), False))
    stuck = []
    def go(j):
        if len(stuck) > 6: return j, None
        res = core.run([j[1]], "".join(l + "\n" for l in j[2]), timeout=90, env={"TSAN_OPTIONS": "halt_on_error=0 exitcode=0 report_thread_leaks=1"})
        if res.timeout: stuck.append(j)
        return j, res
    for (what, exe, s, sent), res in core.pmap(go, jobs):
        if res is None: continue
        if res.timeout: races(ctx, res, "\n".join(s)); continue
        script = judge(ctx, what, s, sent, res)
        if script: same(ctx, what, s, res, fast, script)
        ctx.count("sessions_" + what)
    if len(stuck) > 6: ctx.violation("stuck", "server sessions which take a second did not end in 90 s", {"script": "\n".join(stuck[0][2])})
    else: ctx.inconclusive += len(stuck)
    for i in range(ctx.scale(6, 20)): program(ctx, prog, i)
    ctx.rule = "no race reported, no overlap; commands processed = commands sent, per sender in order, whole; timer ticks of one cycle, at least the step apart; output and memory = the shell's on the recorded order; stop ends both threads"
    ctx.assumptions = ["datagrams are not lost: bursts stay below the socket buffer", "closing the socket to wake the receiver is by design (documented in UDPNAR_Stop)", "longer datagrams than the line limit are cut at it"]
