"""C01-C05, C07: the whole server on the simulated kernel, under many schedules and faults."""
import json, os, re, subprocess, shutil, time
from concurrent.futures import ThreadPoolExecutor
from lib import Check, CheckError, NCPU, hx, mccfg
import httpx

EINTR, EAGAIN, ENOMEM, EMFILE, ENFILE = 4, 11, 12, 24, 23
RECOVERABLE = [EINTR, 103, EMFILE, ENFILE, 105, ENOMEM, 71]        # interrupted, aborted, exhausted, protocol error
GET = {0: "h", 1: "s", 2: "m", 3: "n", 5: "e", 6: "r", 7: "t", 8: "p"}


# ------------------------------------------------------------------ running the simulation
def _shard(c, runs, tag):
    d = os.path.join(c.work, "sim-" + tag)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "script"), "w") as f:
        for r in runs:
            f.write("run\n" + "\n".join(r) + "\n")
    env = dict(os.environ, TZ="UTC0", ASAN_OPTIONS="detect_leaks=0:exitcode=97:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:log_path=" + os.path.join(d, "asan"))
    p = subprocess.run([os.path.join(c.bin, "sim"), "script", "out"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    recs = open(os.path.join(d, "out"), errors="replace").read().split("\n") if os.path.exists(os.path.join(d, "out")) else []
    recs = [l for l in recs if l]
    if p.returncode != 0 or len(recs) != len(runs):
        raise CheckError("simulation: rc=%s, %d of %d runs\n%s" % (p.returncode, len(recs), len(runs), p.stderr[-1000:]))
    out = []
    for l in recs:
        try:
            json.loads(l)
        except ValueError:             # a record cut off by the death of its process
            head, _, tail = l.rpartition(',{"e":"')
            ev = Check._salvage(l)
            ev = [e for e in ev if e.get("e") not in ("crash", "hang")] + [{"e": "crash", "rc": 1}]
            l = json.dumps({"id": 0, "ev": ev}, separators=(",", ":"))
        out.append(l)
    for fn in os.listdir(d):
        if fn.startswith("asan."):
            c.notes.setdefault("crash_output", open(os.path.join(d, fn), errors="replace").read()[:1500])
    shutil.rmtree(d, ignore_errors=True)
    return out


def simulate(c, runs):
    c.build()
    n = NCPU if len(runs) > 16 else 1
    parts = [runs[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda k: _shard(c, parts[k], "%d-%d" % (id(runs) & 0xffff, k)), range(n)))
    return [(parts[k][j], r) for k in range(n) for j, r in enumerate(res[k])]


def check_runs(c, runs, what):
    t = time.time()
    pairs = simulate(c, runs)
    t1 = time.time()
    bad = c.validate("PipelineTrace", pairs, rerun=lambda r: simulate(c, [r]))
    if os.environ.get("TIMING"):
        print("  [%s: %d runs simulated in %.1fs, judged in %.1fs]" % (what, len(runs), t1 - t, time.time() - t1))
    k = c.rng.randrange(len(pairs))
    c.samples.append({"kind": what, "script": [l[:200] for l in pairs[k][0][:8]], "trace": pairs[k][1][:500]})
    for k, rec in bad[:3]:
        c.violation(what, pairs[k][0], rec, "PipelineTrace")
    kinds = {}
    for _, r in pairs:
        for e in re.findall(r'\{"e":"(\w+)"', r):
            kinds[e] = kinds.get(e, 0) + 1
    tot = c.notes.setdefault("events", {})
    for k, v in kinds.items():
        tot[k] = tot.get(k, 0) + v
    return pairs


# ------------------------------------------------------------------ random runs
def conn(r, k, good=False, kind=None, slot=None, size=None, hold=0, plan=None, seg=None, chop=None):
    """One client: kind k (stays until it is answered), e (leaves), r (resets), a (gives up before it is accepted)."""
    kind = kind or (r.choice("kkkkkera") if not good else "k")
    slot = slot if slot is not None else r.choice([0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 8])
    size = size if size is not None else r.choice([0, 1, 20, 60, 200, 200, 700])
    if slot == 5 and size == 0:
        size = 5
    if slot == 4:
        body = b"a=1&b=%d" % k if r.random() < .5 else r.randbytes(r.choice([0, 3, 30]))
        t = httpx.request(b"POST", b"/h/%d" % k, [(b"Content-Type", b"application/x-www-form-urlencoded")] if b"&" in body else [], body)
    else:
        t = httpx.request(b"GET", b"/%s/%d" % (GET[slot].encode(), k), r.choice([[], [], [], [(b"Host", b"x")], [(b"Range", b"bytes=%d-%s" % (r.randrange(9), r.choice([b"", b"3", b"40", b"x"])))]]))
    x = r.random()
    if not good and x < .12:
        t = r.choice([b"garbage\r\n\r\n", b"\r\n\r\n", b"GET /" + b"y" * 600 + b" HTTP/1.1\r\n\r\n"])
    elif not good and x < .2:
        t = httpx.request(b"GET", b"/nowhere/%d" % k)
    if kind in "er" and r.random() < .5:
        t = t[:r.randrange(len(t) + 1)]
    segs = seg or httpx.cut(r, t, r.choice([0, 0, 1, 2]))
    if plan is None:
        plan = r.choice([[100000], [100000], [50], [20, 100000], [1, 7, 30], [4095], [100, 1]])
        if size > 1000 and max(plan) < 4000:
            plan = [1500, 4000, 100000]
    return "conn %s %d %d %d %d %s %s" % (kind, slot, size, hold, r.randrange(len(segs) + 1), ",".join(map(str, plan)), " ".join(hx(s) for s in segs))


def strategy(r, workers):
    k = r.random()
    s = ["seed=%d" % r.randrange(1 << 30)]
    if k < .35:
        s.append("fine=%d" % r.choice([0, 0, 2, 8]))
    elif k < .65:
        s += ["pct=%d" % r.choice([3, 10, 40]), "fine=%d" % r.choice([0, 0, 3])]
    elif k < .75:
        s += ["starve=%d" % r.randrange(1, workers + 3), "fine=%d" % r.choice([0, 5])]
    elif k < .85:
        s.append("burst=%d" % r.choice([3, 10]))
    else:
        s += ["first=1", "fine=%d" % r.choice([0, 0, 4])]
    if r.random() < .3:
        s.append("bb=%d" % r.choice([2, 10, 50, 300]))       # turns may change at every basic block
    return s


def random_run(r, n=None, workers=None, caps=None, faults=True, good=False, sizes=None, hold=.1):
    workers = workers or r.choice([1, 1, 2, 2, 3, 4])
    n = n or r.choice([1, 2, 3, 4, 5, 6])
    c0, c1 = caps or (r.choice([1, 2, 3, 10]), r.choice([1, 1, 2, 3, 10]))
    o = ["workers=%d" % workers, "cap0=%d" % c0, "cap1=%d" % c1, "nf=%d" % r.choice([0, 0, 1, 3, 2]), "window=%d" % r.choice([0, 0, 2])] + strategy(r, workers)
    if r.random() < .12:
        o.append("fd0=%d" % r.choice([1, 2]))
    if faults and r.random() < .25:
        o.append("fdlimit=%d" % r.randrange(1, 4))
    lines = ["opt " + " ".join(o)]
    held = 0
    for k in range(n):
        h = 0
        if k > 0 and r.random() < hold:
            h, held = (1, held + 1) if held < workers + 1 and r.random() < .6 else (2, held)
        lines.append(conn(r, k, good=good, size=r.choice(sizes) if sizes else None, hold=h))
    lines.append(conn(r, n, good=True, size=10, hold=2))             # somebody always comes late
    if faults:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            call = r.choice([0, 0, 1, 2, 2, 3, 4])
            lines.append("fault %d %d %d" % (call, r.randrange(1, 2 * n + 2), r.choice(RECOVERABLE) if call == 0 else EINTR))
    return lines


# ------------------------------------------------------------------ the design and its behaviours
def design(c, props, quick=True):
    inv = "TypeOK OneOwner ClosedOnce CleanOnce WholeResponse"
    K = dict(N=3, W=2, CapA=1, CapH=1, Slices="{1, 2}", Faults=1, Mode='"fixed"')
    c.mc("Pipeline", mccfg(inv, "Turns Finishes", "Spec", **K), "Pipeline: 3 clients, 2 workers, queues of 1")
    if not c.quick:
        K2 = dict(K, Slices="{1, 2, 3}", CapH=2, Faults=2)
        c.mc("Pipeline", mccfg(inv, "Turns Finishes", "Spec", **K2), "Pipeline: 3 clients, 2 workers, queues of 1 and 2, up to 3 writes, 2 faults")
        K3 = dict(K, N=4, Slices="{1, 2}", Faults=1)
        c.mc("Pipeline", mccfg(inv, "Turns", "Safe", **K3), "Pipeline: 4 clients, 2 workers (safety)", timeout=700)


def scripted(c, count, what, **consts):
    """Behaviours of the design, drawn by TLC, replayed on the code as schedules."""
    K = dict(N=3, W=2, CapA=1, CapH=1, Slices="{1, 2, 3}", Faults=1, Mode='"fixed"')
    K.update(consts)
    out = c.mc("PipelineGen", mccfg("Emit", init="GInit", next="GNext", **K), "PipelineGen (simulation)",
               extra=("-simulate", "num=%d" % (count * 3), "-depth", "120", "-seed", str(c.seed)), workers=1)
    gens, seen = [], set()
    for l in out.split("\n"):
        if l.startswith('"GEN '):
            if l not in seen:
                seen.add(l)
                gens.append(json.loads(json.loads(l)[4:]))
    gens = gens[:count]
    if len(gens) < count // 4:
        raise CheckError("PipelineGen produced only %d behaviours" % len(gens))
    c.notes["generated_histories"] = c.notes.get("generated_histories", 0) + len(gens)
    runs = []
    for g in gens:
        h = g["h"]
        toks, faults, nput = [], [], {1: 0, 2: 0}
        writes, left, size = {}, {}, {}
        for a, x, y, *_ in h:
            if a in "CDL" and x not in ("accept",):
                toks.append("%s%d" % (a, x - 1))
                if a == "L":
                    left[x] = True
                continue
            who, e = ("A", x) if a == "A" else ("R", x) if a == "R" else ("W%d" % (x - 1), y)
            q = 1 if who == "A" else 2
            if e in ("put", "putfail"):
                nput[q] += 1
                if e == "putfail":
                    faults.append("fault %d %d %d" % (q, nput[q], EINTR))
            toks.append(who + ":" + ("put" if e == "putfail" else e))
            if who == "R" and e == "send":
                writes[y] = writes.get(y, 0) + 1
        runs.append((toks, faults, writes, left))
    res = []
    for n, (toks, faults, writes, left) in enumerate(runs):
        lines = ["opt workers=%d cap0=%d cap1=%d seed=%d" % (K["W"], K["CapA"], K["CapH"], n)]
        for k in range(1, K["N"] + 1):
            w = max(1, writes.get(k, 1))
            lines.append("conn %s %d %d 0 0 %s %s" % ("e" if k in left else "k", c.rng.choice([0, 0, 1, 2]), 30, ",".join(["20"] * (w - 1) + ["100000"]),
                                                       hx(b"GET /%s/%d HTTP/1.1\r\n\r\n" % (b"h", k - 1))))
        lines += faults + ["sched " + " ".join(toks)]
        res.append(lines)
    pairs = check_runs(c, res, what)
    f = sum(int(x) for _, r in pairs for x in re.findall(r'"followed":(\d+)', r))
    d = sum(int(x) for _, r in pairs for x in re.findall(r'"diverged":(\d+)', r))
    c.notes["design_steps_followed"] = c.notes.get("design_steps_followed", 0) + f
    c.notes["design_steps_not_possible"] = c.notes.get("design_steps_not_possible", 0) + d


def common(c, n_script, n_rand):
    design(c, None)
    scripted(c, n_script, "schedules drawn from the design")
    r = c.rng
    check_runs(c, [random_run(r) for _ in range(n_rand)], "random schedules, clients and faults")


def C01(c):
    common(c, 150 if c.quick else 2500, 1600 if c.quick else 8000)
    r = c.rng
    check_runs(c, [random_run(r, n=r.choice([3, 5, 8, 12]), good=True, faults=False, sizes=[300, 5000, 9000]) for _ in range(20 if c.quick else 200)], "long responses, no faults")
    check_runs(c, [random_run(r, n=n, workers=r.choice([1, 3, 8]), good=True, faults=False, sizes=z, hold=0, caps=(10, 10)) for n, z in
                   ((33, [5, 50]), (70, [5]), (130, [5]), (4, [40000, 70000]), (2, [140000])) * (1 if c.quick else 6)], "many connections, responses of many slices")


def C02(c):
    common(c, 150 if c.quick else 2500, 1400 if c.quick else 8000)
    c.check_traces("HttpTrace", httpx.exchanges(c, 150 if c.quick else 3000), "exchanges of every outcome")


def C03(c):
    common(c, 120 if c.quick else 2000, 1600 if c.quick else 8000)
    c.check_traces("HttpTrace", httpx.exchanges(c, 120 if c.quick else 3000), "exchanges of every outcome")


def C04(c):
    common(c, 120 if c.quick else 2000, 1200 if c.quick else 8000)
    r = c.rng
    runs = [random_run(r, n=r.choice([5, 8, 12, 20, 30]), workers=r.choice([1, 2, 4, 8]), caps=r.choice([(1, 1), (2, 1), (1, 2), (10, 10), (3, 3)]), good=r.random() < .5) for _ in range(60 if c.quick else 800)]
    runs += [random_run(r, n=n, workers=r.choice([1, 2, 4, 8]), caps=r.choice([(1, 1), (10, 10), (3, 2)]), good=g, sizes=[5, 100]) for n in (64, 130) for g in (True, False) for _ in range(1 if c.quick else 8)]
    check_runs(c, runs, "many connections, small queues")
    runs = []
    for e in RECOVERABLE + [100, 101, 112, 113, 110, 11, 1, 92, 64]:      # everything accept(2) lists as recoverable
        for nth in (1, 2, 3):
            o = random_run(r, n=2, faults=False, good=True)
            runs.append(o + ["fault 0 %d %d" % (nth, e)] + (["fault 0 %d %d" % (nth + 1, e)] if r.random() < .4 else []))
    check_runs(c, runs, "failing accepts")


def C05(c):
    common(c, 150 if c.quick else 2500, 900 if c.quick else 6000)
    r = c.rng
    runs = []
    for _ in range(70 if c.quick else 1200):
        n = r.choice([2, 3, 4, 6, 9])
        runs.append(random_run(r, n=n, caps=r.choice([(10, 10), (10, 10), (3, 5), (10, 2)]), faults=False, good=True, sizes=[10, 150, 700, 4200, 9000], hold=0))
    for z in ([40000, 90000], [10, 70000, 131072], [10, 300000]):
        runs += [random_run(r, n=r.choice([2, 3, 4]), caps=r.choice([(10, 10), (10, 3)]), faults=False, good=True, sizes=z, hold=0) for _ in range(1 if c.quick else 6)]
    check_runs(c, runs, "mixes of short and long responses")
    c.check_traces("HttpTrace", httpx.exchanges(c, 60 if c.quick else 1500, sizes=[0, 4000, 4096, 4097, 8192, 12289]), "slices of single responses")


def C07(c):
    design(c, None)
    r, runs = c.rng, []
    for w in range(1, 7):
        for f in ["fsock=1", "fbind=1", "flisten=1", "fmq=1", "fmq=2"] + ["fthread=%d" % k for k in range(1, w + 3)]:
            for _ in range(1 if c.quick else 8):
                o = ["workers=%d" % w, "port=%d" % r.choice([80, 8080, 65535]), f] + strategy(r, w)
                if r.random() < .3:
                    o.append("stale=%d staleq=%d" % (r.choice([1, 10]), r.choice([1, 2, 3])))
                runs.append(["opt " + " ".join(o)])
    check_runs(c, runs, "every failing start-up call")
    runs = []
    for _ in range(60 if c.quick else 900):
        w = r.choice([1, 2, 3, 4, 5, 8])
        n = r.choice([0, 1, w, w + 1, w + 3])
        o = ["workers=%d" % w, "port=%d" % r.randrange(1, 65536), "nf=%d" % r.choice([0, 1, 3])] + strategy(r, w)
        if r.random() < .6:
            o.append("stale=%d staleq=%d" % (r.choice([1, 2, 9, 10]), r.choice([1, 2, 3])))
        if r.random() < .15:
            o.append("fd0=%d" % r.choice([1, 2]))
        lines = ["opt " + " ".join(o)]
        for k in range(n):
            lines.append(conn(r, k, good=True, hold=1 if r.random() < .9 else 0))
        lines.append(conn(r, n, good=True, hold=2))
        runs.append(lines)
    check_runs(c, runs, "successful starts: port, workers, application, left-over queues")
