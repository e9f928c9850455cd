"""C06/C07: the per-machine time limit; C16: internal failures.
The timer strikes, and errors appear, at seeded instants of the real code."""
import collections, io, os, random, signal, sys
import core, env, ref, inject, c_enum
from env import Enumerate, Macro_Simulator, IO, TM_Record, verdict, tm_str, TIMERS, make_record, scratch, run_main
from core import Violation, Check, Scenario, HarnessError

KNOWN = ["1RB1LB_1LA1RZ", "1RB1RZ_1LB0RC_1LC1LA", "1RB1LB_1LA0LC_1RZ1LD_1RD0RA", "1RB1LC_1RC1RB_1RD0LE_1LA1LD_1RZ0LA",
         "1RB2LA1RA1RA_1LB1LA3RB1RZ", "1RB2LB1RZ_2LA2RB1LB", "1RB0LB_1LA0RB", "1RB---_1LB0RB", "1RB1LA_0LA0RB", "1RB0RB_1LA1RB",
         "1RB1RZ_0LC0RC_1RA1LC", "1RB0RA_1LC1LA_1RA---", "1RB2LA1RZ_1LA2RB1RB", "1RB1LB_0RC0LB_1LC1LA", "1RB1LA_1LB0LC_1RZ1RD_0RA0LB",
         "1RB0LD_1LC0RA_1RA1LB_1LA---", "1RB1RC_1LC0RD_1LA1LB_0LE1RZ_1RA1RB", "1RB0RC_1LB1RD_0RA1LD_---1LC",
         "1RB3LA1LA1RA_2LA1RZ3RA3RB", "1RB1LE_1LC1RD_1LB1RC_1LA1RD_---0LA", "1RB2RA1LB0RB_2LA3RB1RB---", "1RB---_0LC0RC_1RB1LC",
         "1RB1RE_1LC1RA_1RD0LB_1RA1RC_1LC0LA", "1RB0LC_1RC1RD_1LA0RB_0RE1RZ_1LC1RA"]

def draw_machine(src):
    k = src.choose(4, "machine kind")
    if k == 0: return src.pick(KNOWN, "machine")
    rng = random.Random(src.subseed("machine"))
    if k == 3: return rng.choice(c_enum.LATE_BY_SIZE[rng.choice(sorted(c_enum.LATE_BY_SIZE))])
    st, sy = src.pick([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (8, 2)], "size")
    if k == 1:
        return ref.show(ref.random_node(rng, st, sy, rng.randrange(1, st * sy), False, 1500))
    t = [[(rng.randrange(sy), rng.choice([-1, 1]), rng.randrange(st)) for _ in range(sy)] for _ in range(st)]
    t[0][0] = (1, 1, 1)
    t[rng.randrange(1, st)][rng.randrange(sy)] = None
    return ref.show(t)

def draw_options(src, time):
    class C: pass
    c = C()
    c.opts = ["--max-loops=%d" % src.pick([1000, 200, 3000, 50], "max loops")]
    if src.chance(0.4, "no lr"): c.opts.append("--lin-steps=0")
    else: c.opts.append("--lin-steps=%d" % src.pick([127, 20, 512], "lin steps"))
    if src.chance(0.3, "lin min"): c.opts.append("--lin-min")
    if src.chance(0.4, "no re"): c.opts.append("--no-reverse-engineer")
    if src.chance(0.4, "no ctl"): c.opts.append("--no-ctl")
    if src.chance(0.3, "recursive"): c.opts.append("--recursive")
    if src.chance(0.04, "no prover"): c.opts.append("--no-prover")
    if src.chance(0.2, "block"): c.opts.append("--block-size=%d" % src.pick([1, 2, 3], "block"))
    o = c_enum.parse_options(c)
    o.time = time
    src.note["opts"] = c.opts
    return o

class Null:
    def __init__(self): self.recs = []
    def write_record(self, r): self.recs.append(r)
    def flush(self): pass

def enumerator(options):
    return Enumerate.Enumerator(options, Enumerate.Work_Queue.Basic_LIFO_Work_Queue(), Null(), io.StringIO())

def timed_out(rec):
    r = rec.proto.filter.simulator.result
    return r.WhichOneof("exit_condition") == "unknown_info" and r.unknown_info.WhichOneof("reason") == "over_time"
def failed(rec):
    r = rec.proto.filter.simulator.result
    return r.WhichOneof("exit_condition") == "unknown_info" and r.unknown_info.WhichOneof("reason") == "threw_exception"

def strike(code=None):
    """What the kernel and interpreter do when the interval timer expires."""
    sig = TIMERS.expire()
    h = signal.getsignal(sig)
    if h == signal.SIG_IGN: return
    if not callable(h): raise core.Violation("killed-by-timer", "timer expired with no handler installed for %s: the process would be killed" % sig.name)
    f = sys._getframe(1)
    while f.f_back is not None and f.f_code.co_filename.startswith(inject.HERE): f = f.f_back
    h(sig, f)

def instrumented(pts, fn):
    def after():
        f = sys._getframe(1)
        while f.f_code.co_filename.startswith(inject.HERE): f = f.f_back
        pts._hit(f.f_code)
    TIMERS.after_set = after
    pts.start()
    try: return fn()
    finally:
        TIMERS.after_set = None
        pts.gate, pts.window, pts.next_action = False, False, None
        pts.stop()

def same_verdict(v, v0, who, struck):
    h, q = v; h0, q0 = v0
    if h[0] != "unknown" and h != h0:
        raise Violation("false-verdict", "%s: interrupted run recorded %r, uninterrupted %r (%s)" % (who, h, h0, struck))
    if q[0] != "unknown" and q != q0:
        raise Violation("false-verdict", "%s: interrupted run recorded quasihalting %r, uninterrupted %r (%s)" % (who, q, q0, struck))

def single(src, prop):
    text = draw_machine(src)
    limit = src.pick([15.0, 0.5, 2.75, 0.02, 3600.0, 1.0], "time limit")
    options = draw_options(src, limit)
    src.note["machine"] = text
    # fault-free run
    TIMERS.reset()
    base = inject.Points(); base.gate, base.window = True, (lambda: TIMERS.armed > 0)
    rec0 = make_record(text)
    def go(rec):
        def f():
            with env.quiet(): enumerator(options).run(rec)
        return f
    try:
        src.phase("baseline")
        go(make_record(text))()           # warm caches
        instrumented(base, go(rec0))
        src.phase("faults")
    except Exception as e:
        raise Violation("escaped", "%s: exception left the processing of a machine: %s: %s" % (text, type(e).__name__, e))
    v0 = verdict(rec0.proto)
    if not any(s > 0 for s in TIMERS.history):
        if prop == "C07": raise Violation("no-limit", "time limit %s s requested but no timer was armed" % limit)
        return
    if prop == "C07" and max(TIMERS.history) > limit + 1: raise Violation("no-limit", "time limit %s s requested but the timer was armed for %s s" % (limit, max(TIMERS.history)))
    if prop == "C07" and TIMERS.armed: raise Violation("timer-left-armed", "%s: timer still armed after a normal run" % text)
    n = base.n
    src.count["instants"] += n
    src.ev(text, v0, n)
    hits = 0
    where = set()
    for trial in range(12):
        mode = src.weighted([3, 5, 1, 1], "where")
        if mode == 0: k = src.choose(max(n, 1), "instant")
        elif mode == 1: k = max(0, n - 1 - src.choose(min(n, 160) or 1, "instant from the end"))
        elif mode == 2: k = src.choose(min(n, src.pick([60, 3], "early span")) or 1, "early instant")
        else: k = None       # inside the call that cancels the timer
        TIMERS.reset()
        pts = inject.Points(); pts.gate, pts.window = True, (lambda: TIMERS.armed > 0)
        pts.at = k
        raised = [False]
        after = [0]
        def act(code):
            src.fault("timer_strike")
            try: strike()
            except Violation: raise
            except BaseException:
                raised[0] = True
                # from now on count instants outside the armed window too
                pts.n = 0; pts.at = None; pts.limit = 3000
                pts.gate, pts.window = False, True
                if TIMERS.armed > 0:      # a repeating timer strikes again, however soon
                    pts.at = src.choose(25, "next strike"); pts.action = again
                raise
            # the handler let the strike pass: right only if the processing is over, or if a timer still runs
            if TIMERS.armed == 0: pts.n = 0; pts.at = None; pts.limit = 3000; pts.gate, pts.window = False, True
        def again(code):
            if TIMERS.armed > 0:
                src.fault("timer_strike")
                pts.at = pts.n + src.choose(25, "next strike")
                strike()
        pts.action = act
        if k is None:
            def on_set(seconds):
                if seconds == 0 and TIMERS.armed > 0 and not pts.fired:
                    pts.fired = True
                    pts.next_action = lambda code: (src.fault("strike_during_cancel"), strike())
            TIMERS.on_set = on_set
        rec = make_record(text)
        try:
            instrumented(pts, go(rec))
        except inject.NoEnd:
            if prop == "C07": raise Violation("not-abandoned", "%s: still running 3000 instants after the timer struck in %s" % (text, pts.fired_where))
            return
        except Violation: raise
        except Exception as e:
            raise Violation("escaped", "%s: strike at instant %s of %d (%s): %s left the processing of the machine: %s" % (
                text, k, n, pts.fired_where, type(e).__name__, e))
        if pts.fired: hits += 1; where.add(pts.fired_where)
        v = verdict(rec.proto)
        src.ev(k, v, timed_out(rec))
        at = "strike at instant %s of %d in %s" % (k, n, pts.fired_where)
        if prop == "C06":
            same_verdict(v, v0, text, at)
            if raised[0] and v[0][0] == "unknown" and not timed_out(rec) and not failed(rec0):
                raise Violation("not-marked", "%s: undecided after a timeout but not marked as timed out (%s)" % (text, at))
            if not raised[0] and v != v0:
                raise Violation("false-verdict", "%s: no timeout, yet %r differs from %r" % (text, v, v0))
        else:
            if TIMERS.armed: raise Violation("timer-left-armed", "%s: timer still armed after the run (%s)" % (text, at))
            if raised[0] and not timed_out(rec) and v[0][0] == "unknown" and not failed(rec0):
                raise Violation("not-marked", "%s: abandoned but not recorded as timed out (%s)" % (text, at))
    src.count["struck"] += hits
    for w in where: src.state(w)
    src.interesting = hits > 0

ERRORS = [MemoryError, RecursionError, OverflowError, ZeroDivisionError, ValueError, AssertionError, KeyError, TypeError]

def sequence(src, prop):
    """A whole (sub)enumeration with strikes and errors on several machines."""
    cfg = c_enum.Config(src, small=True)
    cfg.opts = [o for o in cfg.opts if not o.startswith("--time")]
    cfg.key = cfg.key + ("seq",)
    t = src.pick(["15", "0.5", "2.5"], "time") if prop != "C16" else src.pick(["0", "15"], "time")
    cfg.opts.append("--time=" + t)
    strikes = prop in ("C06", "C07") or (t != "0" and src.chance(0.3, "strikes too"))
    errors = prop == "C16" or (prop == "C07" and src.chance(0.6, "errors too"))
    p_strike = src.pick([0.1, 0.5, 0.02], "strike rate") if strikes else 0.0
    p_error = src.pick([0.1, 0.5, 0.02], "error rate") if errors else 0.0
    with scratch() as d:
        base = c_enum.baseline(cfg, d, src)
        v0 = {}
        for text, v in base:
            tt = ref.parse(text)
            if v[0][0] == "halt": tt = ref.undo_halt(tt, v[0][3], v[0][4])
            v0[ref.show(tt)] = v
        if len(base) > 600: return
        out = os.path.join(d, "o.pb")
        args = cfg.args + cfg.opts + ["--outfile=" + out]
        if cfg.infile:
            cfg.write_roots(os.path.join(d, "in.pb")); args.append("--infile=" + os.path.join(d, "in.pb"))
        TIMERS.reset()
        pts = inject.Points()
        hurt = []                    # (machine, kind)
        state = dict(cur=None, plan_strike=None, plan_error=None, in_run=False, i=0)
        orig_run, orig_opts = Enumerate.Enumerator.run, Macro_Simulator.run_options
        def draw_len():
            return src.choose(src.pick([60, 400, 4000], "span"), "instant")
        def look(): pts.watch(state["plan_strike"] is not None or state["plan_error"] is not None)
        def on_set(seconds):
            if seconds > 0:
                state["plan_strike"] = draw_len() if src.chance(p_strike, "strike?") else None
                state["c_s"] = 0
                look()
        TIMERS.on_set = on_set
        def run(self, rec, *a, **k):
            state["cur"] = tm_str(rec)
            try: return orig_run(self, rec, *a, **k)
            finally:
                if prop == "C07" and TIMERS.armed:
                    raise Violation("timer-left-armed", "timer still armed after the processing of %s ended" % state["cur"])
        def run_options(*a, **k):
            state["plan_error"] = draw_len() if p_error and src.chance(p_error, "error?") else None
            state["c_e"] = 0
            state["in_run"] = True
            look()
            try: return orig_opts(*a, **k)
            finally: state["in_run"] = False; state["plan_error"] = None
        class P(inject.Points):
            def _hit(self, code):
                if self.active or code.co_filename.startswith(inject.HERE): return
                if TIMERS.armed > 0 and state["plan_strike"] is not None:
                    state["c_s"] += 1
                    if state["c_s"] > state["plan_strike"]:
                        state["plan_strike"] = None
                        src.fault("timer_strike"); hurt.append((state["cur"], "strike"))
                        self.active = True
                        try: strike()
                        finally: self.active = False
                        return
                if state["in_run"] and state["plan_error"] is not None:
                    state["c_e"] += 1
                    if state["c_e"] > state["plan_error"]:
                        state["plan_error"] = None
                        e = src.pick(ERRORS, "error kind")
                        # code that expects, say, a KeyError may well handle one: no such error there
                        if inject.shielded("run_options"): e = MemoryError
                        src.fault("error_" + e.__name__); hurt.append((state["cur"], "error"))
                        raise e(*src.pick([("injected",), ()], "message"))
        pts = P()
        Enumerate.Enumerator.run = run
        Macro_Simulator.run_options = run_options
        viol = None
        try:
            def f(): return run_main(Enumerate.main, args)
            ok, _ = instrumented(pts, f)
            if not ok: raise Violation("crash", "enumeration exited with an error")
        except Violation: raise
        except Exception as e:
            raise Violation("escaped", "%s: %s ended the whole enumeration while processing %s (%s)" % (
                type(e).__name__, e, state["cur"], [h for h in hurt if h[0] == state["cur"]]))
        finally:
            Enumerate.Enumerator.run = orig_run
            Macro_Simulator.run_options = orig_opts
        if TIMERS.armed and prop == "C07": raise Violation("timer-left-armed", "timer armed at the end of the enumeration")
        recs = env.read_all(out)
        rows = [(tm_str(r), verdict(r.proto)) for r in recs]
        hurt_set = collections.defaultdict(set)
        for m, k in hurt: hurt_set[m].add(k)
        marked = collections.Counter()
        for (text, v), r in zip(rows, recs):
            t_ = ref.parse(text)
            if v[0][0] == "halt":
                if not (v[0][3] < len(t_) and v[0][4] < len(t_[0])): raise Violation("false-verdict", "%s: %r" % (text, v))
                t_ = ref.undo_halt(t_, v[0][3], v[0][4])
            m = ref.show(t_)
            if m not in v0:
                raise Violation("not-in-tree", "record %s %r is not a machine of the fault-free run (after %s)" % (m, v, hurt[:3]))
            kinds = hurt_set.get(m, ())
            same_verdict(v, v0[m], m, "hit by %s" % sorted(kinds))
            if not kinds and v != v0[m]:
                raise Violation("not-confined", "%s was not hit but recorded %r instead of %r; hit machines: %s" % (m, v, v0[m], hurt[:3]))
            if failed(r): marked[m] += 1
            if kinds and v[0][0] == "unknown" and v0[m][0][0] != "unknown":
                if not ((timed_out(r) and "strike" in kinds) or (failed(r) and "error" in kinds)):
                    raise Violation("not-marked", "%s hit by %s, recorded as %r, but marked neither as timed out nor as failed" % (m, sorted(kinds), v))
        if prop == "C16":
            # (a machine occurs several times if one root is a descendant of another)
            for m, k in collections.Counter(m for m, _ in hurt).items():
                if hurt_set[m] == {"error"} and marked[m] < k:
                    raise Violation("not-marked", "%s failed %d time(s), but %d record(s) of it are marked as failed" % (m, k, marked[m]))
        c_enum.check_tree(cfg.roots, rows, cfg.allow, "enumeration with interrupts", cfg.uncounted)
        src.count["machines"] += len(rows); src.count["hit"] += len(hurt)
        src.ev(rows); src.ev(hurt)
        src.interesting = bool(hurt)

def scen(f, prop):
    def fn(src): f(src, prop)
    return fn
ASSUME = ["timer signals are handled where CPython 3.12 checks for them: function entry and resume, backward jumps, return from C calls",
          "the fault-free verdict is the same code's result without interrupts; tree and verdicts are also checked against the reference simulator",
          "the interval timer is one-shot unless the code asks otherwise"]
COMP = {"real": ["Code/Macro_Simulator.py", "Code/Alarm.py", "Code/Halting_Lib.py", "Code/Enumerate.py", "all deciders"],
        "stub": ["setitimer/SIGALRM delivery (simulated)", "allocation failures (injected exceptions)"]}
def check(prop):
    if prop == "C16":
        return Check(prop, [Scenario("sequence", scen(sequence, prop), 4000, 100000, 100, 1800)],
                     "configuration, machines hit, error kinds and instants drawn per run; non-trivial = at least one machine hit", ASSUME, COMP)
    return Check(prop, [Scenario("single", scen(single, prop), 16000, 400000, 80, 1500), Scenario("sequence", scen(sequence, prop), 4000, 50000, 70, 1200)],
                 "single: one machine, 12 strike instants (uniform, near the end, at the start, inside the cancelling call); sequence: strikes on several machines of an enumeration; non-trivial = at least one strike delivered", ASSUME, COMP)
