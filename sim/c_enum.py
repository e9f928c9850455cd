"""C04: enumeration is independent of order and distribution and equals the TNF tree.
C05: cut and resumed enumeration equals the uninterrupted one."""
import collections, io, os, random
import core, env, ref, mpisim
from env import Enumerate, IO, TM_Record, verdict, tm_str, run_main, scratch, read_all, make_record
from core import Violation, Check, Scenario, HarnessError

REF_STEPS = 20000
_ref_cache = {}
BOUNDS = {(2, 2): 10, (3, 2): 30, (2, 3): 50, (4, 2): 120}      # above the longest halting runs (6, 21, 38, 107 steps)
def load_long():
    """long.txt: machines that halt late (H: steps, non-blank cells, state and symbol at the end) and
    machines that leave a state for good late (R: steps run, last step in each state), all by direct
    simulation of up to 200 million steps."""
    late, leave = {}, {}
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "long.txt")):
        p = l.split()
        if p[1] == "H": late[p[0]] = ("halt",) + tuple(int(x) for x in p[2:])
        else: leave[p[0]] = [int(x) for x in p[2:]]
    return late, leave
LATE, LEAVE = load_long()
LATE_BY_SIZE = collections.defaultdict(list)
for _m in list(LATE) + list(LEAVE): LATE_BY_SIZE[(_m.count("_") + 1, len(_m.split("_")[0]) // 3)].append(_m)

def ref_run(t):
    k = ref.show(t)
    if k in LATE: return LATE[k]
    if k not in _ref_cache:
        if len(_ref_cache) > 200000: _ref_cache.clear()
        _ref_cache[k] = ref.run(t, BOUNDS.get((len(t), len(t[0])), 1500))
    return _ref_cache[k]

_leaves = {}
def leaves(t):
    """A state this non-halting machine visits, but not for ever (None if there is none, or it is not known)."""
    k = ref.show(t)
    if k in LEAVE: return min(range(len(t)), key=lambda i: LEAVE[k][1 + i])
    last = {(2, 2): 6, (3, 2): 55, (2, 3): 59}.get((len(t), len(t[0])))      # latest step such machines leave a state at
    if k not in _leaves:
        if len(_leaves) > 200000: _leaves.clear()
        _leaves[k] = None
        if last is None:
            f = ref.forever(t, 600)
            if f and f[0] - f[1]: _leaves[k] = min(f[0] - f[1])
            return _leaves[k]
        for steps in (300, 3000, 300000):
            gone = [s for s, n in ref.last_seen(t, steps).items() if n <= last + 1]
            if not gone: break
        else: _leaves[k] = gone[0]
    return _leaves[k]

def check_verdict(text, v, uncounted=False):
    """Verdict of a written record against direct simulation. Returns the machine as it was run.
    uncounted: run with options that do not count steps (recorded as 0)."""
    h, q = v
    t = ref.parse(text)
    if h[0] == "halt":
        if not (0 <= h[3] < len(t) and 0 <= h[4] < len(t[0])):
            raise Violation("wrong-verdict", "%s: halts from nonexistent transition %r" % (text, h))
        if t[h[3]][h[4]] is None or t[h[3]][h[4]][2] >= 0:
            raise Violation("wrong-verdict", "%s: recorded as halting at state %d symbol %d, which is not a halting transition" % (text, h[3], h[4]))
        t = ref.undo_halt(t, h[3], h[4])
        r = ref_run(t)
        if r[0] != "halt" and h[1] is not None and isinstance(h[1], int) and h[1] <= 300000:
            r = ref.run(t, h[1] + 1)
        if r[0] == "halt":
            if uncounted and h[1] in (0, None): r = (r[0], h[1]) + tuple(r[2:])
            if tuple(r) != tuple(h): raise Violation("wrong-verdict", "%s: recorded %r, direct simulation %r" % (ref.show(t), h, r))
        elif uncounted and h[1] in (0, None):
            if (len(t), len(t[0])) in BOUNDS: raise Violation("wrong-verdict", "%s: recorded as halting %r, does not halt" % (ref.show(t), h))
        elif isinstance(h[1], int) and h[1] <= 300000:
            raise Violation("wrong-verdict", "%s: recorded as halting %r, does not halt" % (ref.show(t), h))
    elif h[0] == "inf":
        r = ref_run(t)
        if r[0] == "halt": raise Violation("wrong-verdict", "%s: recorded as infinite %r, halts %r" % (text, h, r))
        if q[0] == "quasi" and text in LEAVE:
            if isinstance(q[1], int) and q[1] <= LEAVE[text][0] and LEAVE[text][1 + q[2]] != q[1] - 1:
                raise Violation("wrong-verdict", "%s: recorded as quasihalting %r, but state last seen at %r" % (text, q, LEAVE[text][1 + q[2]]))
        elif q[0] == "quasi" and isinstance(q[1], int) and q[1] <= 1000:
            ls = ref.last_seen(t, 40 + 3 * q[1])
            if ls.get(q[2]) != q[1] - 1:
                raise Violation("wrong-verdict", "%s: recorded as quasihalting %r, but state last seen at %r" % (text, q, ls.get(q[2])))
        elif q[0] == "notquasi":
            left = leaves(t)
            if left is not None: raise Violation("wrong-verdict", "%s: recorded as not quasihalting, but it leaves state %d for good" % (text, left))
    return t

def check_tree(roots, rows, allow_no_halt, what, uncounted=False):
    """rows: list of (text, verdict) written. Checks verdicts and that the machines are exactly
    the roots plus the children of every halting machine, once each."""
    have, want = collections.Counter(), collections.Counter(roots)
    for text, v in rows:
        t = check_verdict(text, v, uncounted)
        have[ref.show(t)] += 1
        if v[0][0] == "halt":
            for c in ref.children(t, v[0][3], v[0][4], allow_no_halt): want[ref.show(c)] += 1
    if have != want:
        miss, extra = want - have, have - want
        raise Violation("not-the-tree", "%s: %d machine(s) missing %s, %d extra %s" % (
            what, sum(miss.values()), sorted(miss)[:3], sum(extra.values()), sorted(extra)[:3]))

class Config:
    def __init__(self, src, small=False):
        self.allow = src.chance(0.3, "allow no halt")
        self.args = []
        kind = src.choose(3, "kind")
        late = False
        if kind == 0:
            self.states, self.symbols = [(2, 2), (3, 2), (2, 3)][src.weighted([1, 0, 0] if small else [24, 1, 1], "size")]
            self.first = not src.chance(0.3, "no first 1rb")
            if (self.states, self.symbols) != (2, 2): self.first, self.allow = True, False
            self.args += ["--states=%d" % self.states, "--symbols=%d" % self.symbols]
            if not self.first: self.args.append("--no-first-1rb")
            if self.allow: self.args.append("--allow-no-halt")
            self.roots = [ref.show(ref.blank(self.states, self.symbols, self.first))]
            self.infile = False
        elif not small and src.chance(0.4, "late halters"):
            self.states, self.symbols = src.pick(sorted(LATE_BY_SIZE), "size")
            rng = random.Random(src.subseed("late"))
            self.roots = rng.sample(LATE_BY_SIZE[(self.states, self.symbols)], min(src.int(2, 12, "roots"), 12 if not self.allow else 2, len(LATE_BY_SIZE[(self.states, self.symbols)])))
            self.infile = late = True
        else:
            self.states, self.symbols = src.pick([(3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (7, 2), (2, 7), (8, 2), (2, 8), (2, 9)], "size")
            rng = random.Random(src.subseed("nodes"))
            cells = self.states * self.symbols
            n = src.int(1, 4, "roots")
            self.roots = []
            for _ in range(n):
                left = rng.choice([1, 2, 2, 3] if not small else [1, 1, 2])
                if cells > 9: left = 1      # many children per open transition
                depth = cells - 1 - left - (1 if self.first_free(rng) else 0)
                t = ref.show(ref.random_node(rng, self.states, self.symbols, depth, self.allow))
                if t not in self.roots: self.roots.append(t)
            self.infile = True
        self.old = src.choose(5, "old results") if self.infile and src.chance(0.3, "old results?") else 0
        loops = src.pick([1000, 300, 60] if not late else [10000, 1000, 3000] if not self.allow else [300, 1000], "max loops")
        wide = max(self.states, self.symbols) > 6      # a few such machines take minutes
        if wide: loops = min(loops, 300)
        self.opts = ["--max-loops=%d" % loops]
        if src.chance(0.3, "no lr"): self.opts.append("--lin-steps=0")
        if src.chance(0.2, "no re"): self.opts.append("--no-reverse-engineer")
        if src.chance(0.2, "no ctl") or wide or late and self.states * self.symbols > 10: self.opts.append("--no-ctl")
        if src.chance(0.2, "recursive"): self.opts.append("--recursive")
        if src.chance(0.3, "more options"):
            more = [["--no-prover"], ["--no-backsymbol"], ["--block-size=1"], ["--block-size=3"], ["--tape-limit=%d" % 4], ["--tape-limit=12"], ["--max-prover-configs=20"], ["--lin-min"],
                    ["--max-block-size=3"], ["--block-mult=2"], ["--max-block-mult=1"], ["--max-block-mult=4"], ["--recursive", "--max-num-reps=2"], ["--lin-steps=20"], ["--lin-steps=600"], ["--debug-print-current"],
                    ["--limited-rules"], ["--limited-rules", "--recursive"], ["--recursive", "--exp-linear-rules"], ["--recursive", "--exp-meta-linear-rules"], ["--no-steps"]]
            for _ in range(src.int(1, 3, "how many")):
                for o in src.pick(more, "option"):
                    if o not in self.opts: self.opts.append(o)
        self.uncounted = "--no-steps" in self.opts or "--exp-linear-rules" in self.opts
        self.opts.append("--time=%s" % src.pick(["0", "15"], "time"))
        self.key = (tuple(self.args), tuple(self.opts), tuple(self.roots), self.allow)
        src.note.update(size="%dx%d" % (self.states, self.symbols), roots=self.roots[:3], opts=self.opts, allow=self.allow)

    def first_free(self, rng): return self.states * self.symbols <= 6 and rng.random() < 0.3

    def write_roots(self, path, old=True):
        """old: the records may carry results of an earlier program, which count for nothing."""
        with IO.Proto.Writer(path) as w:
            for i, t in enumerate(self.roots):
                r = make_record(t, self.allow)
                if old and self.old:
                    h, u = r.proto.status.halt_status, r.proto.filter.simulator.result.unknown_info
                    if (self.old + i) % 4 == 0: u.threw_exception = True
                    elif (self.old + i) % 4 == 1: u.over_loops.num_loops = 7
                    elif (self.old + i) % 4 == 2: u.over_time.elapsed_time_sec = 3.5; r.proto.filter.lin_recur.result.success = False
                    else: h.is_decided, h.is_halting, h.inf_reason = True, False, env.io_pb2.INF_CTL
                w.write_record(r)

def run_enum(args):
    env.TIMERS.reset()
    try:
        ok, out = run_main(Enumerate.main, args)
    except Exception as e:
        raise Violation("crash", "enumeration %s failed: %s: %s" % (args, type(e).__name__, e))
    if not ok: raise Violation("crash", "enumeration %s exited with an error" % (args,))
    return out

def rows_of(path):
    try: recs = read_all(path)
    except Exception as e: raise Violation("unreadable", "output not readable: %s: %s" % (type(e).__name__, e))
    return [(tm_str(r), verdict(r.proto)) for r in recs]

_base = {}
def baseline(cfg, d, src=None):
    """Plain depth-first serial run of the same configuration."""
    if cfg.key in _base: return _base[cfg.key]
    if len(_base) > 40: _base.clear()
    out = os.path.join(d, "base.pb")
    args = cfg.args + cfg.opts + ["--outfile=" + out, "--force"]
    if cfg.infile:
        cfg.write_roots(os.path.join(d, "base_in.pb"), old=False); args.append("--infile=" + os.path.join(d, "base_in.pb"))
    if src: src.phase("baseline")
    run_enum(args)
    rows = rows_of(out)
    if src: src.phase("faults")
    _base[cfg.key] = rows
    return rows

def diff(a, b):
    a, b = collections.Counter(a), collections.Counter(b)
    return "missing %s, extra %s" % (sorted(map(str, (a - b)))[:2], sorted(map(str, (b - a)))[:2])

def orders(src):
    cfg = Config(src)
    with scratch() as d:
        base = baseline(cfg, d, src)
        check_tree(cfg.roots, base, cfg.allow, "depth-first run", cfg.uncounted)
        out = os.path.join(d, "o.pb")
        args = cfg.args + cfg.opts + ["--outfile=" + out]
        roots = list(cfg.roots)
        mode = src.choose(4, "order")
        if mode in (1, 3): args.append("--breadth-first")
        if mode in (2, 3): args += ["--randomize", "--seed=%d" % src.int(1, 10**6, "order seed")]
        args.append("--save-freq=%d" % src.pick([100000, 1, 7], "save freq"))
        if cfg.infile:
            random.Random(src.subseed("root order")).shuffle(roots)
            p = os.path.join(d, "in.pb")
            with IO.Proto.Writer(p) as w:
                for t in roots: w.write_record(make_record(t, cfg.allow))
            args.append("--infile=" + p)
        run_enum(args)
        rows = rows_of(out)
        check_tree(cfg.roots, rows, cfg.allow, "run in order %d" % mode, cfg.uncounted)
        if collections.Counter(rows) != collections.Counter(base):
            raise Violation("order-dependent", "results differ from the depth-first run: " + diff(base, rows))
        src.count["machines"] += len(rows)
        src.ev(sorted(rows)); src.ev([r[0] for r in rows][:50])
        src.interesting = mode != 0
        src.states.update(hash(r) & 0xffffffffffff for r in rows[:200])

def distributed(src):
    cfg = Config(src, small=src.chance(0.6, "small"))
    workers = src.pick([2, 1, 3, 4], "workers")
    with scratch() as d:
        base = baseline(cfg, d, src)
        if len(base) > 2500: base_cap = True
        w = mpisim.World(src, workers + 1)
        mods = [mpisim.load_rank(w, r) for r in range(workers + 1)]
        parser_args = cfg.opts + ["--outfile=x"]
        paths = [os.path.join(d, "w%d.pb" % r) for r in range(workers + 1)]
        rnd = src.chance(0.3, "randomize")
        def options(rank):
            opts = parse_options(cfg)
            if rnd: opts.randomize, opts.seed = True, 17 * rank + 1
            return opts
        opts = [options(r) for r in range(workers + 1)]
        def coordinator():
            m = mods[0].Master(pout=io.StringIO())
            for t in cfg.roots: m.push_job(make_record(t, cfg.allow))
            return m.run_master()
        def worker(rank):
            def go():
                q = mods[rank].MPI_Worker_Work_Queue(0, pout=io.StringIO())
                with IO.Proto.Writer(paths[rank]) as writer:
                    e = Enumerate.Enumerator(opts[rank], q, writer, io.StringIO())
                    e.continue_enum()
                    e.save()
                return True
            return go
        w.spawn(0, coordinator)
        for r in range(1, workers + 1): w.spawn(r, worker(r))
        w.max_steps = 100000 + 300 * len(base)
        with env.quiet(): w.run()
        rows = []
        for r in range(1, workers + 1): rows += rows_of(paths[r])
        check_tree(cfg.roots, rows, cfg.allow, "distributed run", cfg.uncounted)
        if collections.Counter(rows) != collections.Counter(base):
            raise Violation("distribution-dependent", "results differ from the serial run: " + diff(base, rows))
        src.count["machines"] += len(rows)
        src.interesting = True

_optparser = {}
def parse_options(cfg):
    """Options object exactly as Enumerate.main builds it: captured from a real call."""
    key = tuple(cfg.opts)
    got = {}
    class Cap(BaseException): pass
    orig = Enumerate.Enumerator
    def grab(options, *a, **k):
        got["o"] = options
        raise Cap()
    Enumerate.Enumerator = grab
    try:
        with scratch() as d, env.quiet():
            try: Enumerate.main(["--states=2", "--symbols=2", "--outfile=" + os.path.join(d, "x.pb")] + cfg.opts)
            except Cap: pass
    finally: Enumerate.Enumerator = orig
    if "o" not in got: raise HarnessError("could not obtain options")
    o = got["o"]
    o.time = 0     # no interval timer per rank
    return o

def resume(src):
    cfg = Config(src, small=src.chance(0.5, "small"))
    with scratch() as d:
        base = baseline(cfg, d, src)
        n_total = len(base)
        done = []
        infile = os.path.join(d, "in0.pb") if cfg.infile else None
        if infile: cfg.write_roots(infile)
        cuts = src.int(1, 4, "cuts")
        pending_roots = list(cfg.roots)
        for i in range(cuts + 1):
            out = os.path.join(d, "out%d.pb%s" % (i, src.pick(["", ".gz"], "gz")))
            args = list(cfg.opts) + ["--outfile=" + out]
            if infile: args.append("--infile=" + infile)
            else: args += cfg.args
            if infile and cfg.allow and src.chance(0.5, "repeat flag"): args.append("--allow-no-halt")
            mode = src.choose(4, "order")
            if mode in (1, 3): args.append("--breadth-first")
            if mode in (2, 3): args += ["--randomize", "--seed=%d" % src.int(1, 10**6, "seed")]
            if src.chance(0.15, "no output"): args.append("--no-output")
            last = i == cuts
            cut = None
            if not last:
                big = max(1, n_total)
                cut = 1 + src.choose(min(big, 400), "cut")
                args.append("--num-enum=%d" % cut)
                src.fault("cut")
            run_enum(args)
            rows = rows_of(out)
            # conservation at every cut: each machine processed so far and each unprocessed one, once
            check_tree(pending_roots, rows, cfg.allow, "after cut %d at %s" % (i, cut), cfg.uncounted)
            if last: done += rows; break
            recs = read_all(out)
            left = [r for r in recs if r.is_unknown_halting()]
            done += [x for x in rows if x[1][0][0] != "unknown"]
            pending_roots = [x[0] for x in rows if x[1][0][0] == "unknown"]
            if src.chance(0.2, "shuffle rest"):
                random.Random(src.subseed("rest")).shuffle(left)
            infile = os.path.join(d, "in%d.pb%s" % (i + 1, src.pick(["", ".gz"], "gz")))
            with IO.Proto.Writer(infile) as w:
                for r in left: w.write_record(r)
        if collections.Counter(done) != collections.Counter(base):
            raise Violation("resume-differs", "%d cut(s): results differ from the uninterrupted run: %s" % (cuts, diff(base, done)))
        src.count["machines"] += len(done)
        src.ev(sorted(done))
        src.interesting = True

_wide_memo = {}
def check_tree_wide(roots, rows, allow, what):
    """check_tree for thousands of machines: shorter direct simulation, memoised per machine."""
    have, want = collections.Counter(), collections.Counter(roots)
    if len(_wide_memo) > 150000: _wide_memo.clear()
    for text, v in rows:
        k = (text, v, allow)
        if k not in _wide_memo:
            t = check_verdict(text, v)
            _wide_memo[k] = (ref.show(t), [ref.show(c) for c in ref.children(t, v[0][3], v[0][4], allow)] if v[0][0] == "halt" else [])
        me, kids = _wide_memo[k]
        have[me] += 1
        for c in kids: want[c] += 1
    if have != want:
        miss, extra = want - have, have - want
        raise Violation("not-the-tree", "%s: %d machine(s) missing %s, %d extra %s" % (
            what, sum(miss.values()), sorted(miss)[:3], sum(extra.values()), sorted(extra)[:3]))

def wide(src):
    """Many thousands of machines waiting at once: breadth-first (or not) over a larger size with the cheap
    decider only, stopped, and the waiting machines written; then a second part resumed from a slice of them."""
    states, symbols = src.pick([(4, 2), (3, 3), (2, 4), (5, 2), (2, 5), (3, 2), (2, 3)], "size")
    allow = src.chance(0.25, "allow no halt")
    first = not src.chance(0.3, "no first 1rb")
    opts = ["--lin-steps=%d" % src.pick([20, 8, 50], "lin steps"), "--no-sim", "--time=0"]
    if src.chance(0.5, "no re"): opts.append("--no-reverse-engineer")
    if src.chance(0.15, "no output"): opts.append("--no-output")
    args = ["--states=%d" % states, "--symbols=%d" % symbols] + opts
    if allow: args.append("--allow-no-halt")
    if not first: args.append("--no-first-1rb")
    mode = src.weighted([1, 4, 1, 3], "order")
    if mode in (1, 3): args.append("--breadth-first")
    if mode in (2, 3): args += ["--randomize", "--seed=%d" % src.int(0, 10**6, "seed")]
    cut = src.int(100, 1400, "cut")
    src.fault("cut")
    with scratch() as d:
        out = os.path.join(d, "o.pb" + src.pick(["", ".gz"], "gz"))
        run_enum(args + ["--num-enum=%d" % cut, "--outfile=" + out, "--save-freq=%d" % src.pick([100000, 500, 64], "save freq")])
        rows = rows_of(out)
        src.note.update(size="%dx%d" % (states, symbols), opts=opts, allow=allow, mode=mode, cut=cut, machines=len(rows))
        check_tree_wide([ref.show(ref.blank(states, symbols, first))], rows, allow, "stopped after %d, order %d" % (cut, mode))
        src.count["machines"] += len(rows)
        src.ev(len(rows), [r[0] for r in rows[:40]])
        left = [r for r in read_all(out) if r.is_unknown_halting()]
        if left and src.chance(0.6, "resume slice"):
            a = src.choose(len(left), "slice start"); left = left[a:a + 300]
            nxt, out2 = os.path.join(d, "i.pb"), os.path.join(d, "o2.pb")
            with IO.Proto.Writer(nxt) as w:
                for r in left: w.write_record(r)
            args2 = opts + ["--infile=" + nxt, "--outfile=" + out2, "--num-enum=%d" % src.int(100, 1400, "cut2")]
            if src.chance(0.7, "bfs2"): args2.append("--breadth-first")
            run_enum(args2)
            rows2 = rows_of(out2)
            check_tree_wide([tm_str(r) for r in left], rows2, allow, "resumed part")
            src.count["machines"] += len(rows2); src.ev(len(rows2))
        src.interesting = mode != 0

ASSUME = ["reference simulator bounds non-halting checks to the known maximum (sizes up to 4x2) or 1500 steps (conclusive for sizes up to 4x2)",
          "resuming reads the undecided records, the documented use of the file of remaining machines"]
COMP4 = {"real": ["Code/Enumerate.py", "Code/TM_Enum.py", "Code/Work_Queue.py", "Code/MPI_Work_Queue.py", "Code/Macro_Simulator.py and deciders", "Code/IO"],
         "stub": ["mpi4py (simulated)", "interval timer (simulated)"]}
def check(prop):
    if prop == "C04":
        return Check(prop, [Scenario("orders", orders, 3000, 80000, 60, 1500), Scenario("distributed", distributed, 2500, 60000, 70, 1500), Scenario("wide", wide, 150, 4000, 40, 900)],
                     "size, options, starting machines, order/seed or worker count and schedule drawn per run; non-trivial = not the plain depth-first order; distinct = hash of events and records",
                     ASSUME + ["messages between two processes keep their order (Open MPI)"], COMP4)
    return Check(prop, [Scenario("resume", resume, 5000, 100000, 90, 1800), Scenario("wide", wide, 150, 4000, 40, 900)],
                 "configuration, 1-4 cut points, order of each part, file kind drawn per run; every run cuts at least once", ASSUME, COMP4)
