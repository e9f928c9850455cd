"""C15: results do not depend on the clock or on hash order.  In-process runs
under a simulated clock that jumps at seeded readings (with and without a
timer strike), and real program runs with seeded hash seeds and clocks."""
import os, random, re, subprocess, sys
import core, env, ref, inject, disk, c_disk, c_enum, c_alarm, ptsim
from core import Violation, Check, Scenario, HarnessError
from env import IO, Enumerate, TM_Record, io_pb2, CLOCK, TIMERS, make_record, run_main, scratch
from c_cpp import write
CODE = core.REPO + "/Code/"
T0 = [1.7e9, 0.0, -5.0, 2.0**31 - 1, 2.0**32, 1e10, 0.25]
JUMPS = [0.0, 1e-7, -1e-7, 0.5, -0.5, 3600.0, -3600.0, 1e6, -1e6, 1e9, -1e9, -1e-3]

class SimClock:
    """Reading n of the clock; jumps are drawn from their own recorded seed."""
    def __init__(self, t0, tick, p, seed):
        self.t, self.tick, self.p, self.rng, self.n, self.jumps, self.back = t0, tick, p, random.Random(seed), 0, 0, 0
    def __call__(self, name="time"):
        self.n += 1
        self.t += self.tick
        if self.p and self.rng.random() < self.p:
            j = JUMPS[int(self.rng.random() * len(JUMPS))]; self.t += j; self.jumps += 1; self.back += j < 0
        return int(self.t * 1e9) if name.endswith("_ns") else self.t

def draw_clock(src):
    k = src.choose(4, "clock")
    t0 = src.pick(T0, "clock start")
    if k == 0: return (t0, 0.0, 0.0, 0)
    if k == 1: return (t0, src.pick([-1e-3, -1.0, -3600.0], "backwards"), 0.0, 0)
    return (t0, src.pick([1e-4, 0.0, 5.0], "tick"), src.pick([0.05, 0.3, 1.0], "jump rate"), src.subseed("jumps"))

def strip(p, who, bad):
    """Record without durations; durations must not be negative or absurd."""
    for f, v in p.ListFields():
        if f.type == f.TYPE_MESSAGE:
            for m in ([v] if hasattr(v, "ListFields") else v): strip(m, who, bad)
        elif "elapsed" in f.name or "time_us" in f.name or "time_sec" in f.name:
            if not (0 <= v < 1e17): bad.append((f.name, v))
            p.ClearField(f.name)
    return p

def canon(recs, who):
    out, bad = [], []
    for r in recs:
        p = io_pb2.TMRecord(); p.CopyFrom(r.proto)
        s = strip(p, who, bad).SerializeToString(deterministic=True)
        if bad: raise Violation("bad-duration", "%s: record of %s has %s = %r" % (who, env.tm_str(r), bad[0][0], bad[0][1]))
        out.append((env.tm_str(r), s))
    return out

def compare(a, b, who):
    if a == b: return
    if [x[0] for x in a] != [x[0] for x in b]:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x[0] != y[0]), min(len(a), len(b)))
        raise Violation("different-sequence", "%s: %d and %d machines; record %d differs" % (who, len(a), len(b), i))
    i = next(i for i, (x, y) in enumerate(zip(a, b)) if x[1] != y[1])
    x, y = io_pb2.TMRecord(), io_pb2.TMRecord(); x.ParseFromString(a[i][1]); y.ParseFromString(b[i][1])
    d = [(l, m) for l, m in zip(str(x).split("\n"), str(y).split("\n")) if l != m][:2]
    raise Violation("different-record", "%s: record of %s differs: %s" % (who, a[i][0], d or "length"))

def with_clock(c, fn):
    clk = SimClock(*c)
    CLOCK.fn = clk
    try: fn()
    finally: CLOCK.fn = None
    return clk

def clock(src):
    """One enumeration under two clocks."""
    cfg = c_enum.Config(src)
    with scratch() as d:
        extra = []
        if src.chance(0.4, "randomize"): extra += ["--randomize", "--seed=%d" % (0 if src.chance(0.25, "seed 0") else src.int(1, 10**6, "order seed"))]
        if src.chance(0.3, "breadth first"): extra.append("--breadth-first")
        extra.append("--save-freq=%d" % src.pick([100000, 1, 7], "save freq"))
        if src.chance(0.2, "stop early"): extra.append("--num-enum=%d" % src.int(1, 30, "machines"))
        if cfg.infile: cfg.write_roots(os.path.join(d, "in.pb")); extra.append("--infile=" + os.path.join(d, "in.pb"))
        def once(c, name, baseline=False):
            out = os.path.join(d, name)
            args = cfg.args + cfg.opts + extra + ["--outfile=" + out]
            if baseline: src.phase("baseline")
            clk = with_clock(c, lambda: c_enum.run_enum(args))
            if baseline: src.phase("faults")
            return canon(env.read_all(out), "clock %s" % (c,)), clk
        a, _ = once((1.7e9, 1e-4, 0.0, 0), "a.pb", True)
        for k in range(2):
            c = draw_clock(src)
            b, clk = once(c, "b%d.pb" % k)
            src.fault("clock_jump", clk.jumps); src.fault("clock_backwards", clk.back + (clk.n if c[1] < 0 else 0))
            src.simtime += abs(clk.t - c[0]) if abs(clk.t - c[0]) < 1e7 else 0
            compare(a, b, "enumeration %s under clock %s" % (cfg.args + cfg.opts + extra[:2], c))
            src.state(c[0], c[1], c[2], len(b))
        src.count["records"] += len(a)
        src.ev([x[0] for x in a][:100], len(a))

def strike(src):
    """A machine that runs into its time limit at one instant, under two clocks."""
    text = c_alarm.draw_machine(src)
    options = c_alarm.draw_options(src, 15.0)
    src.note["machine"] = text
    def once(c, k):
        TIMERS.reset()
        pts = inject.Points(); pts.gate, pts.window = True, (lambda: TIMERS.armed > 0)
        pts.at, pts.action = k, lambda code: c_alarm.strike()
        rec = make_record(text)
        def go():
            with env.quiet(): c_alarm.enumerator(options).run(rec)
        clk = with_clock(c, lambda: c_alarm.instrumented(pts, go))
        return rec, pts, clk
    src.phase("baseline")
    once((1.7e9, 1e-4, 0.0, 0), None)     # warm caches
    rec, pts, _ = once((1.7e9, 1e-4, 0.0, 0), None)
    src.phase("faults")
    n = pts.n
    if not n: return
    for trial in range(4):
        k = src.choose(n, "instant")
        got = []
        for c in ((1.7e9, 1e-4, 0.0, 0), draw_clock(src)):
            r, p, clk = once(c, k)
            got.append(canon([r], "%s struck at instant %d under clock %s" % (text, k, c)))
            src.fault("clock_jump", clk.jumps); src.fault("clock_backwards", clk.back + (clk.n if c[1] < 0 else 0))
        src.fault("timer_strike", 2)
        compare(got[0], got[1], "%s struck at instant %d" % (text, k))
        src.state(k * 50 // n, c_alarm.timed_out(r))
        src.ev(text, k)

SITE = """import random, time
random.seed(%d)
_t, _d, _p, _r = [%r], %r, %r, random.Random(%d)
def _now():
    _t[0] += _d
    if _p and _r.random() < _p: _t[0] += _r.choice(%r)
    return _t[0]
time.time = _now
"""
def program_env(d, h, c):
    e = ptsim.environment(d, 1, PYTHONHASHSEED=str(h))
    s = os.path.join(d, "site%d" % h); os.makedirs(s, exist_ok=True)
    write(os.path.join(s, "sitecustomize.py"), SITE % (1, c[0], c[1], c[2], c[3], JUMPS))
    e["PYTHONPATH"] = s
    return e

TOOLS = ["venn_diff", "IO_Sort", "IO_Categorize", "IO_Convert", "Zero_Reflexive", "Re_Sim", "IO_Sample", "TM_Analyze", "IO_Count", "Find", "Find_Record", "OldText", "Random_Sample"]
def tool_program(src, d):
    """A machine-file tool as a program of its own, under hash seeds and clocks."""
    use, _ = c_disk.make_use(src, d, TOOLS)
    outs0 = set(disk.Disk(d).snapshot())
    def once(h, c):
        for f in disk.Disk(d).snapshot():
            if f not in outs0 and not f.startswith("site"): os.unlink(os.path.join(d, f))
        path = (c_disk.TOOLS if use.tool == "venn_diff" else CODE) + use.tool + ".py"
        try: r = subprocess.run(["python3", path] + [str(a) for a in use.argv], cwd=d, env=program_env(d, h, c), capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired: return None
        res = [r.returncode, r.stdout if use.tool in ("TM_Analyze", "IO_Find", "Find_Record") else re.findall(r"Total # TMs: ([\d_]+)", r.stdout)]
        for f in sorted(use.outs):
            p = os.path.join(d, f)
            if not os.path.exists(p): res.append((f, None)); continue
            if ".pb" in f and not r.returncode: res.append((f, canon(env.read_all(p), use.tool)))
            else:
                with open(p, "rb") as g: res.append((f, c_disk.content(f, g.read())[0]))
        return res
    src.phase("baseline")
    a = once(0, (1.7e9, 1e-4, 0.0, 0))
    src.phase("faults")
    if a is None: return
    if a[0]: raise Violation("failed", "%s fails on intact input" % use.tool)
    for k in range(3):
        h, c = src.int(1, 10**6, "hash seed"), draw_clock(src)
        if any(f.endswith(".gz") for f in use.outs): c = (1.5e9 + h, abs(c[1]), 0.0, 0)      # the gzip header holds times until 2106 only
        b = once(h, c)
        if b is None: return
        src.fault("hash_seed"); src.fault("clock_jump" if c[2] else "clock_offset")
        if a != b:
            bad = next((x[0] for x, y in zip(a[2:], b[2:]) if x != y), "output")
            raise Violation("different-output", "%s with hash seed %d, clock %s: %s differs" % (use.tool, h, c, bad))
    src.count["tool runs"] += 4
    src.state(use.tool); src.ev(use.tool, a); src.interesting = True

def program(src):
    """Real programs with different hash seeds, clocks and memory layouts."""
    which = src.weighted([5, 2, 2, 1, 2, 1, 4], "program")
    with scratch() as d:
        if which == 6: return tool_program(src, d)
        rng = random.Random(src.subseed("machines"))
        tms = [c_alarm.draw_machine(src) for _ in range(src.int(1, 6, "machines"))]
        with IO.Proto.Writer(os.path.join(d, "in.pb")) as w:
            for t in tms: w.write_record(make_record(t))
        if which == 0:
            cfg = c_enum.Config(src, small=src.chance(0.5, "small"))
            cmd = ["Enumerate.py"] + cfg.args + cfg.opts + (["--randomize", "--seed=%d" % (0 if src.chance(0.25, "seed 0") else src.int(1, 10**6, "order seed"))] if src.chance(0.5, "randomize") else [])
            if cfg.infile: cfg.write_roots(os.path.join(d, "in.pb")); cmd.append("--infile=" + os.path.join(d, "in.pb"))
        elif which == 1: cmd = ["CTL_Filter.py", "--type=CTL%d" % src.int(1, 4, "type"), "--max-block-size=%d" % src.int(1, 3, "block"), "--cutoff=%d" % src.pick([50, 200], "cutoff"), "--infile=" + os.path.join(d, "in.pb")]
        elif which == 2: cmd = ["CPS_Filter.py", "--max-block-size=%d" % src.int(1, 3, "block"), "--max-steps=1000", "--infile=" + os.path.join(d, "in.pb")]
        elif which == 3: cmd = ["Reverse_Engineer_Filter.py", "--infile=" + os.path.join(d, "in.pb")]
        elif which == 4: cmd = ["Quick_Sim.py", tms[0], "--max-loops=%d" % src.pick([100, 1000], "loops")] + (["--recursive"] if src.chance(0.4, "recursive") else []) + (["--manual"] if 0 else [])
        else: cmd = ["Lin_Recur_Detect.py", tms[0], "--max-steps=2000"]
        text_out = which in (4, 5)
        def once(h, c, name):
            out = os.path.join(d, name)
            args = ["python3", CODE + cmd[0]] + cmd[1:] + ([] if text_out else ["--outfile=" + out])
            try: r = subprocess.run(args, cwd=d, env=program_env(d, h, c), capture_output=True, text=True, timeout=20)
            except subprocess.TimeoutExpired: return None
            if text_out: return (r.returncode, [l for l in r.stdout.split("\n") if not re.search("elapsed|time", l, re.I)])
            if r.returncode: return (r.returncode, r.stderr.strip().split("\n")[-1][:200])
            try: return canon(env.read_all(out), cmd[0])
            except IO.Proto.IO_Error as e: return "unreadable: %s" % e
        src.phase("baseline")
        a = once(0, (1.7e9, 1e-4, 0.0, 0), "a.pb")
        src.phase("faults")
        if a is None: return
        if not text_out and not isinstance(a, list): raise Violation("failed", "%s fails: %s" % (cmd, a))
        for k in range(2):
            h, c = src.int(1, 10**6, "hash seed"), draw_clock(src)
            b = once(h, c, "b%d.pb" % k)
            if b is None: return
            src.fault("hash_seed"); src.fault("clock_jump" if c[2] else "clock_offset")
            who = "%s with hash seed %d, clock %s" % (cmd, h, c)
            if isinstance(a, list) and isinstance(b, list): compare(a, b, who)
            elif a != b: raise Violation("different-output", "%s: %s" % (who, str(b)[-300:]))
        src.count["records"] += len(a) if isinstance(a, list) else 1
        src.state(cmd[0], len(a))
        src.ev(cmd[0], [x[0] for x in a] if isinstance(a, list) else a)
        src.interesting = True

ASSUME = ["the interval timer of the time limit is independent of the system clock (it is, on Linux)", "clock readings only through the time module", "compressed files are written with the clock between 1970 and 2106 (limit of the gzip header)"]
COMP = {"real": ["Code/Enumerate.py, Macro_Simulator, Macro/*, filters, Quick_Sim, Lin_Recur_Detect, IO"], "stub": ["time.time and its relatives", "interval timer (strike scenario)", "hash seed of the program runs"]}
def check(prop):
    return Check(prop, [Scenario("clock", clock, 1500, 60000, 30, 1200), Scenario("strike", strike, 1500, 60000, 20, 1200), Scenario("program", program, 1500, 40000, 25, 1200)],
                 "configuration, clock (start, tick, jump rate and sizes), strike instants and hash seeds drawn per run; non-trivial = at least one jump, strike or foreign hash seed", ASSUME, COMP)
