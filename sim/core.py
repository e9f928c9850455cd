"""Simulation core: recorded choices, seeded runs, minimiser, replay files,
evidence.  One seed is one execution: every decision of a run (scenario,
schedule, delays, faults) goes through Source.choose and is recorded; a replay
file is the recorded choice list.  Choice 0 is always the quiet default (first
runnable, no fault), so a shorter or zeroed list is a simpler run."""
import collections, hashlib, json, multiprocessing, os, random, signal, sys, time, traceback

REPO = os.environ.get("BBSIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
real_time = time.time
CLEANUP = []        # run before the process ends

class Violation(Exception):
    """The property is broken.  kind: short class of the failure (kept fixed
    by the minimiser); key: what identifies it for the known-findings file."""
    def __init__(self, kind, detail, key=None):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind, self.detail, self.key = kind, detail, key or kind

class HarnessError(Exception):
    """The simulator cannot judge: never reported as a violation."""

class Source:
    """Recorded source of every decision in one run."""
    def __init__(self, seed=0, choices=None, keep_log=False):
        self.seed = seed
        self.replay = list(choices) if choices is not None else None
        self.rng = random.Random(seed)
        self.choices = []
        self.labels = []
        self.faults = collections.Counter()
        self.count = collections.Counter()
        self.states = set()
        self.h = hashlib.blake2b(digest_size=8)
        self.keep_log = keep_log
        self.log = []
        self.simtime = 0.0
        self.interesting = False
        self.note = {}
        self.on_phase = None

    def phase(self, name):
        """"baseline": the fault-free reference part; a run that is too slow
        there is inconclusive, not a violation."""
        if self.on_phase: self.on_phase(name)

    def _next(self, n, draw):
        i = len(self.choices)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n: v = v % n
        else:
            v = draw()
        self.choices.append(v)
        return v

    def choose(self, n, label=""):
        """Uniform in [0, n)."""
        if n <= 1: return 0
        v = self._next(n, lambda: self.rng.randrange(n))
        if self.keep_log: self.labels.append((label, v, n))
        return v

    def weighted(self, weights, label=""):
        n = len(weights)
        if n <= 1: return 0
        def draw():
            x = self.rng.random() * sum(weights)
            for i, w in enumerate(weights):
                x -= w
                if x < 0: return i
            return n - 1
        v = self._next(n, draw)
        if self.keep_log: self.labels.append((label, v, n))
        return v

    def chance(self, p, label=""):
        return bool(self.weighted([1 - p, p], label)) if p > 0 else False

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def int(self, lo, hi, label=""):
        return lo + self.choose(hi - lo + 1, label)

    def subseed(self, label=""):
        """Seed for a bulk generator (one recorded choice)."""
        return self.choose(1 << 30, label)

    def fault(self, kind, n=1):
        if not n: return
        self.faults[kind] += n
        self.interesting = True

    def ev(self, *args):
        s = "|".join(map(str, args))
        self.h.update(s.encode()); self.h.update(b"\n")
        if self.keep_log and len(self.log) < 100000: self.log.append(s)

    def state(self, *args):
        if len(self.states) < 4000:
            self.states.add(int.from_bytes(hashlib.blake2b(repr(args).encode(), digest_size=6).digest(), "big"))

    def digest(self):
        return self.h.hexdigest()

def execute(fn, src):
    """Runs one simulation; returns (violation or None, harness_error or None)."""
    try:
        fn(src)
        return None, None
    except Violation as v:
        return v, None
    except HarnessError as e:
        return None, "HarnessError: %s" % e
    except Exception as e:
        text = traceback.format_exc()
        # raised by the code under test (not by the simulator): it failed where nothing was wrong
        own = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((REPO + "/", VERIF + "/"))]
        if own and own[-1].filename.startswith(REPO + "/"):
            f = own[-1]
            return Violation("exception", "%s: %s in %s (%s)" % (type(e).__name__, str(e)[:200], f.name, os.path.relpath(f.filename, REPO)), "exception:" + type(e).__name__), None
        return None, text

# ---------------------------------------------------------------- parallel runner

def _child(fn, conn, seeds, setup):
    try:
        os.setpgid(0, 0)
    except OSError: pass
    try:
        if setup: setup()
        for seed in iter(seeds, None):
            conn.send(("start", seed))
            src = Source(seed)
            src.on_phase = lambda name: conn.send(("phase", name))
            t = real_time()
            v, err = execute(fn, src)
            conn.send(("done", seed, dict(
                viol=None if v is None else (v.kind, v.detail, v.key), err=err,
                choices=src.choices if (v is not None) else None, nchoices=len(src.choices),
                faults=dict(src.faults), count=dict(src.count), states=src.states,
                digest=src.digest(), simtime=src.simtime, interesting=src.interesting,
                note=src.note, wall=real_time() - t)))
        conn.send(("end",))
    except (BrokenPipeError, KeyboardInterrupt):
        pass
    except BaseException:
        try: conn.send(("crash", traceback.format_exc()))
        except Exception: pass
    finally:
        try: conn.close()
        finally: os._exit(0)

BASELINE_S = 25

class Runner:
    """Seeded search: seeds base, base+1, ... over `procs` processes until
    `runs` are done or `budget` seconds have passed or a violation is found."""
    def __init__(self, fn, base, runs, budget, procs=8, run_timeout=240, setup=None, stop_on=1):
        self.__dict__.update(fn=fn, base=base, runs=runs, budget=budget, procs=procs,
                             run_timeout=run_timeout, setup=setup, stop_on=stop_on)
        self.results = {}
        self.violations = []     # (seed, kind, detail, key, choices)
        self.errors = []
        self.hung = []
        self.inconclusive, self.unrepeatable = [], []
        self.done, self.wall = 0, 0.0

    def run(self):
        ctx = multiprocessing.get_context("fork")
        counter, lock = ctx.RawValue("q", self.done), ctx.Lock()     # a killed worker may hold the lock for ever
        runs, base, t0 = self.runs, self.base, real_time()
        budget = self.budget - self.wall
        def seeds():
            with lock:
                i = counter.value
                if i >= runs or real_time() - t0 > budget: return None
                counter.value = i + 1
            return base + i
        kids = []
        def spawn():
            a, b = ctx.Pipe(duplex=False)
            sys.stdout.flush(); sys.stderr.flush()
            p = ctx.Process(target=_child, args=(self.fn, b, seeds, self.setup))
            p.start(); b.close()
            kids.append(dict(p=p, c=a, seed=None, t=real_time(), open=True, phase=None))
        for _ in range(min(self.procs, runs)): spawn()
        def kill(k):
            try: os.killpg(k["p"].pid, signal.SIGKILL)
            except OSError: pass
            try: k["p"].kill()
            except Exception: pass
        try:
            while any(k["open"] for k in kids):
                ready = multiprocessing.connection.wait([k["c"] for k in kids if k["open"]], timeout=1.0)
                for k in list(kids):
                    if k["open"] and k["c"] in ready:
                        try: m = k["c"].recv()
                        except EOFError:
                            k["open"] = False
                            if k["seed"] is not None:
                                self.errors.append((k["seed"], "worker process died"))
                                k["seed"] = None
                                spawn()
                            continue
                        if m[0] == "start": k["seed"], k["t"], k["phase"] = m[1], real_time(), None
                        elif m[0] == "phase": k["phase"], k["t"] = m[1], real_time()
                        elif m[0] == "done":
                            k["seed"] = None
                            self.add(m[1], m[2])
                        elif m[0] == "crash":
                            self.errors.append((k["seed"], m[1])); k["seed"] = None; k["open"] = False
                        else: k["seed"] = None; k["open"] = False
                    elif k["open"] and k["seed"] is not None and real_time() - k["t"] > (BASELINE_S if k["phase"] == "baseline" else self.run_timeout):
                        slow = self.inconclusive if k["phase"] == "baseline" else self.hung
                        slow.append(k["seed"]); kill(k); k["open"] = False; k["seed"] = None
                        if len(self.hung) < 3: spawn()
                if len(self.violations) >= self.stop_on or len(self.errors) > 20 or len(self.hung) >= 3: break
        finally:
            for k in kids: kill(k)
            for k in kids: k["p"].join(10)
        self.wall += real_time() - t0
        self.done = counter.value
        return self

    def add(self, seed, r):
        if r["viol"]:
            self.violations.append((seed,) + tuple(r["viol"]) + (r["choices"],))
        if r["err"]: self.errors.append((seed, r["err"]))
        r.pop("choices")
        self.results[seed] = r

def in_subprocess(fn, seed, choices, timeout, keep_log=False, setup=None):
    """One run in a process of its own. Returns dict or None (timeout)."""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    def go():
        try: os.setpgid(0, 0)
        except OSError: pass
        try:
            if setup: setup()
            src = Source(seed, choices, keep_log=keep_log)
            v, err = execute(fn, src)
            b.send(dict(viol=None if v is None else (v.kind, v.detail, v.key), err=err,
                        choices=src.choices, labels=src.labels, log=src.log, digest=src.digest(),
                        faults=dict(src.faults), note=src.note))
        except BaseException:
            try: b.send(dict(viol=None, err=traceback.format_exc(), choices=[], labels=[], log=[], digest="", faults={}, note={}))
            except Exception: pass
        finally: os._exit(0)
    sys.stdout.flush(); sys.stderr.flush()
    p = ctx.Process(target=go); p.start(); b.close()
    r = None
    if a.poll(timeout):
        try: r = a.recv()
        except EOFError: r = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.kill(); p.join(10)
    return r

def minimise(fn, seed, choices, kind, budget, setup=None, timeout=120):
    """Delta-debugging on the choice list: truncate, delete, zero, lower."""
    t_end = real_time() + budget
    tries = [0]
    def fails(c):
        if real_time() > t_end: return None
        tries[0] += 1
        r = in_subprocess(fn, seed, c, timeout, setup=setup)
        if r and r["viol"] and r["viol"][0] == kind:
            got = r["choices"]
            while got and got[-1] == 0: got = got[:-1]
            return got
        return None
    def size(c): return (sum(1 for x in c if x), len(c), sum(c))
    best = list(choices)
    # truncation by bisection
    lo, hi = 0, len(best)
    while lo < hi and real_time() < t_end:
        mid = (lo + hi) // 2
        g = fails(best[:mid])
        if g is not None: hi = mid
        else: lo = mid + 1
    g = fails(best[:hi])
    if g is not None: best = min(best[:hi], g, key=size)
    changed = True
    while changed and real_time() < t_end:
        changed = False
        n = max(1, len(best) // 2)
        while n >= 1 and real_time() < t_end:
            i = 0
            while i < len(best) and real_time() < t_end:
                seg = best[i:i + n]
                if any(seg):
                    c = best[:i] + [0] * len(seg) + best[i + n:]
                    g = fails(c)
                    if g is not None and size(g) < size(best): best = g; changed = True; continue_at = i + n; i = continue_at; continue
                c = best[:i] + best[i + n:]
                g = fails(c)
                if g is not None and size(g) < size(best): best = g; changed = True; continue
                i += n
            n //= 2
        for i in range(len(best)):
            if real_time() > t_end: break
            for v in (1, 2, best[i] // 2, best[i] - 1) if i < len(best) else ():
                if i < len(best) and 0 < v < best[i]:
                    g = fails(best[:i] + [v] + best[i + 1:])
                    if g is not None and size(g) < size(best): best = g; changed = True; break
    return best, tries[0]

# ---------------------------------------------------------------- check driver

def known_findings(prop):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [k for k in d.get("known", []) if k["property"] == prop]

class Check:
    """A registered check: scenario function(s) with run counts per tier."""
    def __init__(self, prop, scenarios, rule, assumptions, components, level="exploration", setup=None,
                 prepare=None, run_timeout=240):
        self.__dict__.update(prop=prop, scenarios=scenarios, rule=rule, assumptions=assumptions,
                             components=components, level=level, setup=setup, prepare=prepare,
                             run_timeout=run_timeout)

class Scenario:
    def __init__(self, name, fn, quick, thorough, quick_s=90, thorough_s=1200, procs=8, min_quick=0):
        self.__dict__.update(name=name, fn=fn, quick=quick, thorough=thorough, quick_s=quick_s,
                             thorough_s=thorough_s, procs=procs)

def write_replay(check, scen, seed, r, orig_len, tries):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (check.prop, scen.name, seed))
    tail = r["log"][-400:]
    json.dump(dict(property=check.prop, scenario=scen.name, seed=seed, kind=r["viol"][0],
                   violation=r["viol"][1], key=r["viol"][2], choices=r["choices"], digest=r["digest"],
                   faults=r["faults"], note=r["note"], original_choices=orig_len, minimiser_runs=tries,
                   decisions=[l for l in r["labels"] if l[1]][:2000], trace_tail=tail,
                   how="python3 sim/run.py --replay " + path), open(path, "w"), indent=1, default=str)
    return path

def repeats(sc, check, v):
    """A violation counts if its recorded choices show it again."""
    for _ in range(2):
        r = in_subprocess(sc.fn, v[0], v[4], check.run_timeout, setup=check.setup)
        if r and r["viol"]: return True
    return False

def run_check(check, tier, seed, only=None, runs=None, base=None):
    t0 = real_time()
    quick = tier == "quick"
    if check.prepare: check.prepare()
    known = known_findings(check.prop)
    tot = collections.Counter(); faults = collections.Counter(); counts = collections.Counter()
    states, digests, nontrivial = set(), set(), set()
    samples, per_scen, errors, reported = [], {}, [], []
    simtime = 0.0
    redone = mismatched = 0
    unrep = []
    exit_code = 0
    known_hit = set()
    for si, sc in enumerate(check.scenarios):
        if only and sc.name != only: continue
        n = runs or (sc.quick if quick else sc.thorough)
        b = base if base is not None else (seed * 1000 + si) * 1000003
        R = Runner(sc.fn, b, n, sc.quick_s if quick else sc.thorough_s, procs=sc.procs,
                   run_timeout=check.run_timeout, setup=check.setup,
                   stop_on=10**9 if known else 1)
        for _ in range(6):
            R.run()
            ghosts = [v for v in R.violations if v[4] is not None and not repeats(sc, check, v)]
            R.violations = [v for v in R.violations if v not in ghosts]
            R.unrepeatable += [g[:3] for g in ghosts]
            if not ghosts or R.violations: break      # else go on behind the seeds already run
        for s, r in sorted(R.results.items()):
            tot["runs"] += 1; tot["decisions"] += r["nchoices"]
            for k, v in r["faults"].items(): faults[k] += v
            for k, v in r["count"].items(): counts[k] += v
            states |= r["states"] if len(states) < 2000000 else set()
            digests.add(r["digest"])
            if r["interesting"]: nontrivial.add(r["digest"])
            simtime += r["simtime"]
        for s in sorted(R.results)[:1]:
            r = R.results[s]
            samples.append(dict(scenario=sc.name, seed=s, decisions=r["nchoices"], faults=r["faults"],
                                counts=r["count"], digest=r["digest"], note=r["note"]))
        per_scen[sc.name] = dict(runs=len(R.results), wall_s=round(R.wall, 2), planned=n,
                                 runs_per_hour=int(len(R.results) * 3600 / max(R.wall, 1e-6)))
        errors += [(sc.name,) + e for e in R.errors]
        unrep += [(sc.name,) + u for u in R.unrepeatable]
        # determinism: rerun a few seeds in a fresh process, digests must agree
        for s in sorted(R.results)[:2]:
            if R.results[s]["err"] or R.results[s]["viol"]: continue
            q = in_subprocess(sc.fn, s, None, check.run_timeout, setup=check.setup)
            redone += 1
            if q is None or q["digest"] != R.results[s]["digest"]: mismatched += 1
        viols = list(R.violations)
        tot["inconclusive"] += len(R.inconclusive)
        if len(R.inconclusive) >= 5 and len(R.inconclusive) * 20 > len(R.results):
            viols.append((R.inconclusive[0], "hang", "%d of %d runs did not finish their fault-free part within %d s" % (
                len(R.inconclusive), len(R.results) + len(R.inconclusive), BASELINE_S), "hang", None))
        for s in R.hung[:1]:
            q = in_subprocess(sc.fn, s, None, check.run_timeout, setup=check.setup)
            if q is None:
                viols.append((s, "hang", "run with seed %d did not finish within %d s (twice)" % (s, check.run_timeout), "hang", None))
            elif q["viol"]: viols.append((s,) + tuple(q["viol"]) + (q["choices"],))
        seen = set()
        for (s, kind, detail, key, choices) in sorted(viols, key=lambda v: v[0]):
            hit = [k for k in known if k["key"] == key]
            if hit:
                if hit[0]["key"] not in known_hit:
                    known_hit.add(hit[0]["key"])
                    print("KNOWN-FINDING: property=%s %s" % (check.prop, hit[0]["what"]))
                continue
            if kind in seen or len(reported) >= 3: continue
            seen.add(kind)
            if choices is None:
                d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s-%d.json" % (check.prop, sc.name, s))
                json.dump(dict(property=check.prop, scenario=sc.name, seed=s, kind=kind, violation=detail,
                               choices=None), open(path, "w"), indent=1)
            else:
                best, tries = minimise(sc.fn, s, choices, kind, 45 if quick else 180, setup=check.setup)
                r = in_subprocess(sc.fn, s, best, check.run_timeout, keep_log=True, setup=check.setup)
                if not (r and r["viol"] and r["viol"][0] == kind):
                    r = in_subprocess(sc.fn, s, choices, check.run_timeout, keep_log=True, setup=check.setup)
                if not (r and r["viol"]):
                    # did not reproduce from its own recorded choices
                    unrep.append((sc.name, s, kind, detail))
                    continue
                path = write_replay(check, sc, s, r, len(choices), tries)
                detail = r["viol"][1]
            reported.append((kind, s, path))
            print("violation of %s in scenario %s, seed %d: %s: %s" % (check.prop, sc.name, s, kind, detail))
            print("VIOLATION property=%s replay=%s" % (check.prop, path))
            exit_code = 1
        if exit_code: break
    for e in errors[:3]: print("harness error in %s seed %s:\n%s" % (e[0], e[1], e[2]), file=sys.stderr)
    for u in unrep[:3]: print("not repeatable, not counted: %s" % (u,), file=sys.stderr)
    # isolated trouble of the machinery (a worker that died, say) is reported in the evidence; more is no answer
    if exit_code == 0 and (tot["runs"] == 0 or len(errors) + len(unrep) > max(2, tot["runs"] // 100)): exit_code = 2
    wall = real_time() - t0
    ev = dict(property=check.prop, tier=tier, seed=seed, level=check.level, coverage=dict(
        evaluations=tot["runs"], distinct_nontrivial=len(nontrivial), rule=check.rule, samples=samples,
        simulated_runs=tot["runs"], seeds_per_hour=int(tot["runs"] * 3600 / max(wall, 1e-6)),
        simulated_time_s=round(simtime, 1), faults_injected=dict(faults), counters=dict(counts),
        distinct_interleavings=len(digests), distinct_states=len(states),
        measure="interleaving = hash of the full event log of a run; state = hash of the abstract state recorded at scheduling points",
        recorded_decisions=tot["decisions"], inconclusive_slow_baseline=tot["inconclusive"], scenarios=per_scen, components=check.components,
        determinism_rechecked=redone, determinism_mismatches=mismatched, harness_errors=len(errors), unrepeatable=len(unrep)),
        assumptions=check.assumptions, wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only and runs is None:
        json.dump(ev, open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d runs (%d distinct non-trivial), faults %s, %.1f s, %d violation(s), determinism %d/%d" % (
        check.prop, tier, tot["runs"], len(nontrivial), dict(faults), wall, len(reported), redone - mismatched, redone))
    return exit_code

def replay(checks, path):
    d = json.load(open(path))
    check = checks(d["property"])
    if check.prepare: check.prepare()
    sc = [s for s in check.scenarios if s.name == d["scenario"]][0]
    r = in_subprocess(sc.fn, d["seed"], d["choices"], check.run_timeout, keep_log=True, setup=check.setup)
    if r is None:
        print("replay: run did not finish"); print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    if r["err"]: print(r["err"]); return 2
    if r["viol"]:
        print("replay: %s: %s" % (r["viol"][0], r["viol"][1]))
        if d.get("digest"): print("replay: event log %s" % ("identical" if r["digest"] == d["digest"] else "DIFFERS"))
        print("VIOLATION property=%s replay=%s" % (d["property"], path)); return 1
    print("replay: no violation"); return 0
