"""Runner shared by all checks: builds the drivers from /repo, runs cases on the real code,
has TLC judge the recorded traces against the TLA+ specification, writes evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


def mccfg(invs="", props="", spec="Spec", init=None, next=None, constraint=None, symmetry=None, **consts):
    """A TLC configuration; constants are given as TLA+ text or Python ints."""
    o = ["INIT %s\nNEXT %s" % (init, next) if init else "SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if invs:
        o.append("INVARIANTS " + invs)
    if props:
        o.append("PROPERTIES " + props)
    if constraint:
        o.append("CONSTRAINT " + constraint)
    if symmetry:
        o.append("SYMMETRY " + symmetry)
    if consts:
        o.append("CONSTANTS")
        o += ["  %s = %s" % (k, v) if not str(v).startswith("<-") else "  %s %s" % (k, v) for k, v in consts.items()]
    return "\n".join(o) + "\n"


class CheckError(Exception):
    pass


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.states = self.trans = self.traces = 0
        self.events = 0
        self.mc_runs = []
        self.samples = []
        self.violations = []
        self.notes = {}
        self.assumptions = []
        self.exhaustive = []
        self.built = False
        self.driver = None
        self.pool = {}
        self.ran_after, self.preceded = {}, {}
        self.recycle = False

    # ---------------------------------------------------------------- building
    def build(self):
        if self.built:
            return
        self.bin = os.path.join(self.work, "bin")
        r = subprocess.run(["bash", os.path.join(VERIF, "harness", "build.sh"), self.bin],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, REPO=REPO))
        if r.returncode != 0:
            raise CheckError("build of the drivers failed:\n" + r.stdout[-3000:])
        self.built = True

    def build_py(self):
        self.bin = os.path.join(self.work, "bin")
        r = subprocess.run(["bash", os.path.join(VERIF, "harness", "buildpy.sh"), self.bin],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, REPO=REPO))
        if r.returncode != 0:
            raise CheckError("build of the shared library failed:\n" + r.stdout[-3000:])
        self.built = True
        self.driver = ["/usr/bin/python3", os.path.join(VERIF, "harness", "pydrv.py")]

    # ---------------------------------------------------------------- running cases on the code
    def _run_shard(self, cases, tag, secs):
        """cases: list of list-of-lines. Returns list of records (dict with 'ev')."""
        d = os.path.join(self.work, "run-" + tag)
        os.makedirs(d, exist_ok=True)
        script, out = os.path.join(d, "script"), os.path.join(d, "out")
        with open(script, "w") as f:
            for c in cases:
                f.write((c[0] if c[0].startswith("case par") else "case\n" + c[0]) + "\n" + "\n".join(c[1:]) + "\n")
        if os.path.exists(out):
            os.unlink(out)
        recs, start, crashes, hangs = [], 0, 0, 0
        env = dict(os.environ, DRV_CASE_SECS=str(secs), TZ="UTC0", REPO=REPO, LD_LIBRARY_PATH=self.bin, PYTHONDONTWRITEBYTECODE="1",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2048:%slog_path=" %
                   ("quarantine_size_mb=0:thread_local_quarantine_size_kb=0:" if self.recycle else "") + os.path.join(d, "asan"))
        while start < len(cases):
            p = subprocess.run((self.driver or [os.path.join(self.bin, "apidrv")]) + [script, out, str(start)], cwd=d, env=env,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            with open(out, "rb") as f:
                lines = f.read().split(b"\n")
            n_full = len(lines) - 1          # the last element is "" or an unfinished record
            if p.returncode == 0:
                break
            crashes += 1
            if p.returncode == 2 and b"unknown command" in p.stderr:
                raise CheckError("driver: " + p.stderr.decode(errors="replace")[-500:])
            # the record of case number n_full is incomplete: close it with a crash event
            # (an endless rendering may have recorded a great deal: keep the beginning)
            frag = lines[-1][:400000].decode(errors="replace")
            why = {99: "hang", 98: "spin"}.get(p.returncode, "crash")
            ev = self._salvage(frag)
            ev.append({"e": why, "rc": p.returncode if p.returncode >= 0 else 1000 - p.returncode})
            rec = {"id": n_full, "ev": ev}
            with open(out, "wb") as f:
                f.write(b"\n".join(lines[:-1]) + (b"\n" if n_full else b"") + json.dumps(rec, separators=(",", ":")).encode() + b"\n")
            said = p.stderr.decode(errors="replace")[:500]
            for fn in os.listdir(d):
                if fn.startswith("asan."):
                    said += open(os.path.join(d, fn), errors="replace").read()[:1500]
                    os.unlink(os.path.join(d, fn))
            self.notes.setdefault("crash_output", said)
            start = n_full + 1
            hangs += why != "crash"
            if crashes >= 12 or hangs >= 2:
                break
        with open(out, "rb") as f:
            data = f.read().split(b"\n")
        recs = [l.decode() for l in data if l]
        shutil.rmtree(d, ignore_errors=True)
        return recs

    @staticmethod
    def _salvage(frag):
        m = re.match(r'^\{"id":\d+,"ev":\[', frag)
        if not m:
            return []
        body, dec, ev, pos = frag[m.end():], json.JSONDecoder(), [], 0
        while pos < len(body):
            if body[pos] == ",":
                pos += 1
                continue
            try:
                o, pos = dec.raw_decode(body, pos)
            except ValueError:
                break
            if isinstance(o, dict):
                ev.append(o)
        return ev

    def run_cases(self, cases, secs=10, shards=None):
        """Runs the cases (lists of script lines) and returns (case, record-json) pairs, in order.
        After many crashes in a shard the rest of the shard is not run and not returned."""
        self.build()
        n = shards or (NCPU if len(cases) > 40 else 1)
        parts = [cases[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda k: self._run_shard(parts[k], "%d-%d" % (id(cases) & 0xffff, k), secs), range(n)))
        out = []
        for k in range(n):
            for j, r in enumerate(res[k]):
                out.append((parts[k][j], r))
                if n > 1 or len(cases) > 1:
                    self.ran_after[id(parts[k][j])] = (parts[k], j)
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=None, timeout=800, extra=(), xss="256m", xmx="8g", props=()):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(d, "m.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss" + xss, "-Xmx" + xmx, *props,
               "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", JAR + ":" + CM, "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers or NCPU), "-config", cfgp, "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=dict(os.environ, **(env or {})), errors="replace")
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            rc = -1
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    @staticmethod
    def stats(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            return 0, 0
        g, s = m[-1]
        return int(s.replace(",", "")), int(g.replace(",", ""))

    def mc(self, module, cfg, name=None, timeout=800, workers=None, extra=(), expect="ok", env=None):
        """Design-level model checking: must end without an error."""
        rc, out = self.tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, env=env)
        s, g = self.stats(out)
        if "-simulate" in extra:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            g = s = int(m[-1].replace(",", "")) if m else 0
        bad = "Error:" in out or rc not in (0,)
        if bad:
            raise CheckError("model %s: rc=%s\n%s" % (name or module, rc, out[-4000:]))
        self.states += s
        self.trans += g
        self.mc_runs.append({"model": name or module, "distinct_states": s, "states_generated": g})
        return out

    def generate(self, module, cfg, name=None, timeout=600):
        """Behaviours enumerated by TLC from the specification, printed as JSON by the invariant Emit."""
        out = self.mc(module, cfg, (name or module) + " (generation)", timeout=timeout)
        gen = [json.loads(json.loads(l)[4:]) for l in out.split("\n") if l.startswith('"GEN ')]
        gen.sort(key=lambda g: json.dumps(g, sort_keys=True))
        if not gen:
            raise CheckError("%s generated nothing" % module)
        self.notes["generated_histories"] = self.notes.get("generated_histories", 0) + len(gen)
        return gen

    def validate(self, module, pairs, extra_const="", workers=None, timeout=800, confirm=True, count=True, rerun=None):
        """TLC decides for each recorded history whether it is a behaviour of the specification.
        Returns the indices of the rejected ones (after confirming them by a second run of code and model)."""
        if not pairs:
            raise CheckError("no records to validate")
        rej, acc, s, g = self._validate(module, [r for _, r in pairs], extra_const, workers, timeout)
        if count:
            self.states += s
            self.trans += g
            self.traces += len(pairs)
            self.events += sum(r.count('{"e":') for _, r in pairs)
        confirmed = []
        for k in rej[:5] if confirm else rej:
            case = pairs[k][0]
            before = self.ran_after.get(id(case[0] if isinstance(case, tuple) else case))
            again = (rerun or (lambda c: self.run_cases([c], shards=1)))(case)
            r2, _, _, _ = self._validate(module, [again[0][1]], extra_const, 1, timeout)
            if r2:
                confirmed.append((k, again[0][1]))
            elif before and '{"e":"hang"' not in pairs[k][1]:
                # does it take what the process did before?  the shortest such history that we find
                part, j = before
                for m in [x for x in (1, 2, 4, 8, 16, 32, 64, 128, 256) if x < j] + [j]:
                    rec = self._run_shard(part[j - m:j + 1], "again", 20)[-1]
                    rec = rec.split("\x1e")[case[1]] if isinstance(case, tuple) and "\x1e" in rec else rec
                    r2, _, _, _ = self._validate(module, [rec], extra_const, 1, timeout)
                    if r2:
                        self.preceded[id(case[0] if isinstance(case, tuple) else case)] = part[j - m:j]
                        confirmed.append((k, rec))
                        break
            if not r2:
                self.notes["not_reproduced"] = self.notes.get("not_reproduced", 0) + 1
        return confirmed

    def _validate(self, module, recs, extra_const, workers, timeout, depth=0, verbose=False):
        d = tempfile.mkdtemp(prefix="tr-", dir=self.work)
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            f.write("\n".join(recs) + "\n")
        cfg = ('INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nINVARIANT Accept\nVIEW Place\nCONSTANT Prop = "%s"\n%s\n' % (self.prop, extra_const))
        rc, out = self.tlc(module, cfg, env={"TRACE": p, "VERBOSE": "1" if verbose else "0"}, workers=workers, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        if verbose:
            return out
        if rc == -1:
            raise CheckError("trace validation with %s timed out" % module)
        s, g = self.stats(out)
        acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
        if rc != 0 or "Model checking completed" not in out:
            # an evaluation error: isolate the records that cause it
            if len(recs) == 1:
                self.notes.setdefault("tlc_eval_error", out[-2500:])
                if depth == 0:
                    raise CheckError("TLC failed on %s:\n%s\n...\n%s" % (module, out[max(0, out.find("Error")):][:1500], out[-1500:]))
                return [0], set(), s, g
            if depth == 0 and ("Parsing or semantic analysis failed" in out or "TLC threw an unexpected exception" in out and "ndJson" in out):
                raise CheckError("TLC failed on %s:\n%s\n...\n%s" % (module, out[max(0, out.find("Error")):][:1500], out[-1500:]))
            rej, S, G = [], 0, 0
            n = 4 if len(recs) >= 8 else len(recs)
            step = (len(recs) + n - 1) // n
            any_ok = False
            for a in range(0, len(recs), step):
                r, ac, s1, g1 = self._validate(module, recs[a:a + step], extra_const, workers, timeout, depth + 1)
                any_ok |= bool(ac)
                rej += [a + x for x in r]
                acc |= {a + x for x in ac}
                S += s1
                G += g1
                if len(rej) >= 3:
                    break
            if depth == 0 and not any_ok:
                raise CheckError("TLC failed on %s:\n%s\n...\n%s" % (module, out[max(0, out.find("Error")):][:1500], out[-1500:]))
            return rej, acc, S, G
        rej = [k for k in range(len(recs)) if (k + 1) not in acc]
        return rej, acc, s, g

    def explain(self, module, rec, extra_const=""):
        """How far the specification could follow a rejected record."""
        out = self._validate(module, [rec], extra_const, 1, 300, verbose=True)
        m = [int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', out)]
        return max(m) if m else 0

    # ---------------------------------------------------------------- outcome
    def violation(self, what, case=None, rec=None, module=None, extra_const="", env=None):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "violation-%d.json" % (len(self.violations) + 1))
        info = {"property": self.prop, "what": what, "script": case, "seed": self.seed, "tier": self.tier}
        if id(case) in self.preceded:
            info["cases_before_it_in_the_same_process"] = self.preceded[id(case)]
        if self.recycle:
            info["ASAN_OPTIONS"] = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        if rec is not None:
            info["record"] = json.loads(rec) if isinstance(rec, str) else rec
            if module:
                at = self.explain(module, rec if isinstance(rec, str) else json.dumps(rec), extra_const)
                info["module"] = module
                info["first_unexplained_event_index"] = at
                ev = info["record"]["ev"]
                if 1 <= at <= len(ev):
                    info["first_unexplained_event"] = ev[at - 1]
        info["crash_output"] = self.notes.get("crash_output")
        with open(p, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("  " + what)
        if "first_unexplained_event" in info:
            print("  first event the specification does not allow (#%d): %s" % (info["first_unexplained_event_index"], json.dumps(info["first_unexplained_event"])[:400]))
        sys.stdout.flush()

    def check_traces(self, module, cases, what, extra_const="", timeout=800, secs=10, sample=True, workers=None):
        pairs = self.run_cases(cases, secs=secs)
        t = time.time()
        bad = self.validate(module, pairs, extra_const, timeout=timeout, workers=workers)
        if os.environ.get("TIMING"):
            print("  [%s: %d traces judged in %.1fs]" % (what, len(pairs), time.time() - t))
        if sample and pairs:
            k = self.rng.randrange(len(pairs))
            self.samples.append({"kind": what, "script": [l[:300] for l in pairs[k][0][:12]], "trace": pairs[k][1][:600]})
        for k, rec in bad[:3]:
            self.violation(what, pairs[k][0], rec, module, extra_const)
        if module in self.PARALLEL and not self.driver:
            fit = [p for p in cases if sum(map(len, p)) < 20000 and all(l.split(" ", 1)[0] in self.REENTRANT for l in p)]
            for some, n in (([p for p in fit if sum(map(len, p)) < 3000], 60 if self.quick else 800),
                            ([p for p in fit if sum(map(len, p)) >= 3000], 4 if self.quick else 30)):
                if some:
                    self.pool.setdefault((module, extra_const), []).extend(self.rng.sample(some, min(n, len(some))))
        return pairs

    # commands whose cases can run side by side: no shared streams, no scripted connection, no files but those made beforehand
    PARALLEL = {"TextTrace", "TmplTrace", "VectorTrace", "DictTrace", "SparseArrayTrace", "HttpTrace"}
    SHOWS = {"TmplTrace": ("several threads render the same contexts", ("render", "page")),
             "HttpTrace": ("several connections to the same application at a time", ("xchg", "static", "page"))}
    FILES = ("mkfile", "rmfile", "mkdir", "mkfifo", "mksock")
    REENTRANT = set("hdr cookie urldec strnstr endswith fnv range preq form ctx addstr addint addarr addsub filt astr aint asub tbase render tfree "
                    "mkfile vnew vapp vptr vget vrev vnull vfree dnew dset dget dstats dfree snew sset sget sdrop sfree "
                    "resp route notfound fkeys xchg mkdir mkfifo mksock static page defer".split())

    def parallel_pass(self):
        """A sample of the cases of this run once more, several at a time."""
        for (module, extra), cases in self.pool.items():
            self.rng.shuffle(cases)
            if not self.violations:                   # freed memory is handed out again at once
                self.recycle = True
                pairs = self.run_cases(cases, shards=min(4, len(cases)))
                for k, rec in self.validate(module, pairs, extra)[:3]:
                    self.violation("memory is recycled at once", pairs[k][0], rec, module, extra)
                self.recycle = False
            if not self.violations:
                self.check_parallel(module, cases, "several threads at a time", extra)
            if not self.violations and module in self.SHOWS:
                self.check_shared(module, cases, self.SHOWS[module][0], extra)

    def check_shared(self, module, cases, what, extra_const=""):
        """What was built once (contexts; an application and its files) is used by several threads: none notices the others."""
        r, groups = self.rng, []
        for p in cases:
            word = [l.split(" ", 1)[0] for l in p]
            build = [l for l, w in zip(p, word) if w not in self.SHOWS[module][1] + ("tfree", "tbase")]
            shows = [l for l, w in zip(p, word) if w in self.SHOWS[module][1]]
            first = next((k for k, w in enumerate(word) if w in self.SHOWS[module][1] + ("tfree",)), len(p))
            if not shows or not build or len(build) != len([w for w in word[:first] if w != "tbase"]):
                continue           # contexts or files that change in between
            if "page" in word and "defer" not in word:
                continue           # a context is for one page only
            g = ["case par %d %d" % (r.randrange(1, 1 << 30), r.choice([0, 0, 2, 5, 20]))] + ["* " + l for l in build]
            for t in range(r.choice([2, 3])):
                g += ["%d %s" % (t, r.choice(shows)) for _ in range(r.choice([1, 2, 3] if c_big(shows) else [2, 5, 10]))]
            groups.append(g)
        if groups:
            self.judge_groups(module, groups, what, extra_const)

    def check_parallel(self, module, cases, what, extra_const="", secs=10, ways=(2, 2, 3)):
        """The same kind of cases, several at a time: each in a thread of its own, turns changing at basic blocks of
        the code under test as drawn from the seed.  Every thread's history has to be one the specification allows."""
        r, groups = self.rng, []
        cases = [p for p in cases if not any(l.startswith(self.FILES) for l in p)]
        while cases:
            k = min(r.choice(ways), len(cases))
            parts, cases = cases[:k], cases[k:]
            groups.append(["case par %d %d" % (r.randrange(1, 1 << 30), r.choice([0, 0, 2, 5, 20, 100]))] + ["%d %s" % (t, l) for t, p in enumerate(parts) for l in p])
        return self.judge_groups(module, groups, what, extra_const, secs) if groups else []

    def judge_groups(self, module, groups, what, extra_const="", secs=10):
        pairs = [((g, t), h) for g, rec in self.run_cases(groups, secs=secs) for t, h in enumerate(rec.split("\x1e"))]
        def again(x):
            h = self.run_cases([x[0]], shards=1)[0][1].split("\x1e")
            return [(x, h[min(x[1], len(h) - 1)])]
        t = time.time()
        bad = self.validate(module, pairs, extra_const, rerun=again)
        if os.environ.get("TIMING"):
            print("  [%s: %d traces judged in %.1fs]" % (what, len(pairs), time.time() - t))
        self.notes["parallel_histories"] = self.notes.get("parallel_histories", 0) + len(pairs)
        for k, rec in bad[:3]:
            self.violation(what + " (thread %d)" % pairs[k][0][1], pairs[k][0][0], rec, module, extra_const)
        return pairs

    def finish(self, level="model_checking"):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "models": self.mc_runs, "samples": self.samples[:6]}
        cov.update({k: v for k, v in self.notes.items() if k not in ("crash_output", "tlc_eval_error")})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            return 1
        print("%s ok: %d states, %d traces, %d events, %.1fs" % (self.prop, self.states, self.traces, self.events, time.time() - self.t0))
        return 0


def hx(b):
    if b is None:
        return "-"
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "."


def c_big(lines):
    return sum(map(len, lines)) > 400 * len(lines)


def known_findings(prop):
    p, out = os.path.join(VERIF, "known-findings.txt"), []
    for line in open(p):
        m = re.match(r"known: property=(\S+) script=(.*) :: (.*)$", line)
        if m and m.group(1) == prop:
            out.append({"property": prop, "script": m.group(2).split("; "), "what": m.group(3)})
    return out
