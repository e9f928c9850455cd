"""Simulated MPI world: every rank is a thread that runs the real queue code,
exactly one thread runs at a time, and the seeded scheduler decides at every
communication call, clock reading sleep and compute step who goes on, which
message arrives, how time passes."""
import importlib.util, pickle, sys, threading, types, os
import core
from core import Violation

ANY = -1
CODE = os.path.join(core.REPO, "Code")

class SimAbort(BaseException): pass

class Msg:
    __slots__ = ("src", "dst", "tag", "data", "seq", "matched", "cancelled", "visible", "at")
    def __init__(self, src, dst, tag, data, seq):
        self.src, self.dst, self.tag, self.data, self.seq = src, dst, tag, data, seq
        self.matched = self.cancelled = self.visible = False

class Proc:
    def __init__(self, world, rank):
        self.w, self.rank = world, rank
        self.lock = threading.Lock(); self.lock.acquire()
        self.mail = []
        self.cond = None
        self.what = "start"
        self.done = False
        self.result = None
        self.error = None
        self.offset = 0.0
        self.stalled_until = -1.0
        self.thread = None

class World:
    def __init__(self, src, size, clock_faults=True, max_steps=400000):
        self.src, self.size, self.max_steps = src, size, max_steps
        self.procs = [Proc(self, r) for r in range(size)]
        self.chan = {}           # (src,dst) -> list of in-flight Msg
        self.main = threading.Lock(); self.main.acquire()
        self.now = 1000.0
        self.steps = 0
        self.seq = 0
        self.abort = False
        self.on_send = self.on_recv = self.on_block = None
        self.tls = threading.local()
        # scenario-level behaviour, all recorded
        self.strategy = src.choose(6, "strategy")
        self.clock_faults = clock_faults and src.chance(0.5, "clock faults")
        self.rendezvous_p = src.pick([0.0, 0.3, 0.0, 1.0], "rendezvous")
        self.time_scale = src.pick([0, 1, 2], "time scale")
        self.stall_p = src.pick([0.0, 0.0, 0.01, 0.05], "stalls")
        if self.clock_faults:
            for p in self.procs:
                if src.chance(0.4, "skew"):
                    p.offset = src.pick([-3600.0, -7.5, 7.5, 86400.0], "skew by"); src.fault("clock_skew")
        self.prio = {}
        self.last = None

    # ---- scheduling -----------------------------------------------------
    def me(self): return self.tls.proc

    def yield_(self, what, cond=None):
        """Called by a rank's thread: hand the baton back to the scheduler."""
        p = self.tls.proc
        p.what, p.cond = what, cond
        if cond is not None and self.on_block and not cond(): self.on_block(p.rank, what)
        self.main.release()
        p.lock.acquire()
        if self.abort: raise SimAbort()
        p.cond = None

    def spawn(self, rank, fn):
        p = self.procs[rank]
        def body():
            self.tls.proc = p
            p.lock.acquire()
            try:
                if not self.abort: p.result = fn()
            except SimAbort: pass
            except BaseException as e: p.error = e
            finally:
                p.done = True
                self.main.release()
        p.thread = threading.Thread(target=body, daemon=True)
        p.thread.start()

    def enabled(self):
        acts = []
        for k in sorted(self.chan):
            if self.chan[k]: acts.append(("deliver",) + k)
        for p in self.procs:
            if not p.done and p.thread and (p.cond is None or p.cond()): acts.append(("run", p.rank))
        return acts

    def pick(self, acts):
        src = self.src
        n = len(acts)
        if n == 1: return acts[0]
        st = self.strategy
        live = [a for a in acts if not (a[0] == "run" and self.procs[a[1]].stalled_until > self.now)]
        if live and len(live) < n: acts, n = live, len(live)
        if n == 1: return acts[0]
        if st == 0 or st == 4: return acts[src.choose(n, "act")]
        if st == 1:     # priorities with change points
            for a in acts:
                k = a
                if k not in self.prio: self.prio[k] = src.choose(1000, "prio")
            if src.chance(0.02, "prio change"): self.prio[acts[src.choose(n, "which")]] = src.choose(1000, "prio")
            return max(acts, key=lambda a: (self.prio[a], a))
        if st == 2:     # bursts of one process
            if self.last in acts and not src.chance(0.15, "switch"): return self.last
            return acts[src.choose(n, "act")]
        if st == 3:     # slow network
            return acts[src.weighted([1 if a[0] == "deliver" else 6 for a in acts], "act")]
        # st == 5: slow coordinator
        return acts[src.weighted([1 if a == ("run", 0) else 5 for a in acts], "act")]

    def advance(self):
        src = self.src
        if self.time_scale == 0: d = 0.001
        else:
            k = src.weighted([80, 12, 5, 3] if self.time_scale == 1 else [50, 20, 18, 12], "dt")
            d = (0.001, 0.4, 3.0, 11.0)[k]
        self.now += d
        if self.clock_faults and src.chance(0.003, "clock jump"):
            p = self.procs[src.choose(self.size, "jump whom")]
            p.offset += src.pick([-100000.0, -15.0, 15.0, 500.0, 1e7], "jump by"); src.fault("clock_jump")
        if self.stall_p and src.chance(self.stall_p, "stall"):
            p = self.procs[src.choose(self.size, "stall whom")]
            p.stalled_until = self.now + src.pick([0.05, 1.0, 20.0], "stall for"); src.fault("stall")

    def run(self):
        src = self.src
        try:
            while not all(p.done for p in self.procs if p.thread):
                acts = self.enabled()
                if not acts:
                    raise Violation("deadlock", "every process waits: " + ", ".join(
                        "%d:%s" % (p.rank, "finished" if p.done else p.what) for p in self.procs))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Violation("no-progress", "not finished after %d steps: %s" % (self.steps,
                        ", ".join("%d:%s" % (p.rank, "finished" if p.done else p.what) for p in self.procs)))
                a = self.pick(acts)
                self.last = a
                self.advance()
                if a[0] == "deliver":
                    m = self.chan[a[1:]].pop(0)
                    m.visible = True
                    self.procs[m.dst].mail.append(m)
                    src.ev("deliver", m.src, m.dst, m.tag)
                    if self.steps - m.at > 8: src.faults["delayed_delivery"] += 1
                else:
                    p = self.procs[a[1]]
                    src.ev("run", p.rank, p.what)
                    p.lock.release()
                    self.main.acquire()
                    if p.error is not None:
                        e = p.error
                        if isinstance(e, Violation): raise e
                        if isinstance(e, core.HarnessError): raise e
                        raise Violation("crash", "process %d failed: %s: %s" % (p.rank, type(e).__name__, e),
                                        key="crash:%s" % type(e).__name__)
                if self.steps % 4 == 0:
                    src.state(tuple(("F" if q.done else q.what, len(q.mail) > 0) for q in self.procs),
                              tuple(sorted((k, tuple(m.tag for m in v[:3])) for k, v in self.chan.items() if v)))
            src.simtime += self.now - 1000.0
        finally:
            self.abort = True
            for p in self.procs:
                if p.thread and not p.done:
                    p.lock.release()
                    self.main.acquire()
            for p in self.procs:
                if p.thread: p.thread.join(5)

    # ---- message passing --------------------------------------------------
    def post(self, dst, tag, obj):
        me = self.me()
        self.seq += 1
        m = Msg(me.rank, dst, tag, pickle.dumps(obj), self.seq)
        m.at = self.steps
        if not (0 <= dst < self.size): raise ValueError("MPI_ERR_RANK: invalid rank %r" % (dst,))
        self.chan.setdefault((me.rank, dst), []).append(m)
        self.src.ev("send", me.rank, dst, tag, len(m.data))
        if self.on_send: self.on_send(me.rank, dst, tag, obj)
        return m

    def matching(self, rank, source, tag):
        out, seen = [], set()
        for m in self.procs[rank].mail:
            if (source == ANY or m.src == source) and (tag == ANY or m.tag == tag) and m.src not in seen:
                out.append(m); seen.add(m.src)
        return out

    def take(self, source, tag):
        me = self.me()
        c = self.matching(me.rank, source, tag)
        m = c[self.src.choose(len(c), "which message")] if len(c) > 1 else c[0]
        me.mail.remove(m)
        m.matched = True
        obj = pickle.loads(m.data)
        self.src.ev("recv", me.rank, m.src, m.tag)
        if self.on_recv: self.on_recv(me.rank, m.src, m.tag, obj)
        return m, obj

class Status:
    def __init__(self): self.source, self.tag, self.error, self._n = ANY, ANY, 0, 0
    def _set(self, m):
        self.source, self.tag, self._n = m.src, m.tag, len(m.data)
    def Get_source(self): return self.source
    def Get_tag(self): return self.tag
    def Get_count(self, *a): return self._n
    def Get_error(self): return 0
    def Is_cancelled(self): return False
    count = property(Get_count)

class Request:
    """Send request (complete at once: small messages are buffered) or receive request."""
    def __init__(self, w, msg=None, recv=None):
        self.w, self.msg, self.rv, self.obj, self.fin = w, msg, recv, None, recv is None
    def Cancel(self):
        w = self.w
        w.yield_("cancel")
        m = self.msg
        if m is not None and not m.visible and w.src.chance(0.3, "cancel works"):
            q = w.chan.get((m.src, m.dst), [])
            if m in q:
                q.remove(m); m.cancelled = True; w.src.fault("send_cancelled")
                if w.on_cancel: w.on_cancel(m)
    cancel = Cancel
    def Free(self): pass
    free = Free
    def wait(self, status=None):
        w = self.w
        if not self.fin:
            s, t = self.rv
            w.yield_("wait", lambda: bool(w.matching(w.tls_rank(self), s, t)))
            m, self.obj = w.take(s, t); self.fin = True
            if status is not None: status._set(m)
        else: w.yield_("wait")
        return self.obj
    def Wait(self, status=None): self.wait(status); return True
    def test(self, status=None):
        w = self.w
        w.yield_("test")
        if not self.fin:
            s, t = self.rv
            if w.matching(w.me().rank, s, t):
                m, self.obj = w.take(s, t); self.fin = True
                if status is not None: status._set(m)
        return (self.fin, self.obj)
    def Test(self, status=None): return self.test(status)[0]
    def __bool__(self): return True

World.on_cancel = None
World.tls_rank = lambda self, req: req.rank

class Comm:
    def __init__(self, w, rank): self.w, self._rank = w, rank
    def Get_rank(self): return self._rank
    def Get_size(self): return self.w.size
    rank = property(Get_rank); size = property(Get_size)
    def send(self, obj, dest, tag=0):
        w = self.w
        w.yield_("send%d" % tag)
        m = w.post(dest, tag, obj)
        if w.rendezvous_p and w.src.chance(w.rendezvous_p, "rendezvous"):
            w.src.fault("blocking_send")
            w.yield_("send-blocked%d" % tag, lambda: m.matched)
    def ssend(self, obj, dest, tag=0):
        w = self.w
        w.yield_("ssend%d" % tag)
        m = w.post(dest, tag, obj)
        w.yield_("ssend-blocked%d" % tag, lambda: m.matched)
    def bsend(self, obj, dest, tag=0):
        self.w.yield_("bsend%d" % tag); self.w.post(dest, tag, obj)
    def isend(self, obj, dest, tag=0):
        self.w.yield_("isend%d" % tag)
        return Request(self.w, msg=self.w.post(dest, tag, obj))
    ibsend = issend = isend
    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        w, r = self.w, self._rank
        w.yield_("recv%d" % tag, lambda: bool(w.matching(r, source, tag)))
        m, obj = w.take(source, tag)
        if status is not None: status._set(m)
        return obj
    def irecv(self, buf=None, source=ANY, tag=ANY):
        q = Request(self.w, recv=(source, tag)); q.rank = self._rank
        return q
    def Probe(self, source=ANY, tag=ANY, status=None):
        w, r = self.w, self._rank
        w.yield_("probe%d" % tag, lambda: bool(w.matching(r, source, tag)))
        if status is not None: status._set(w.matching(r, source, tag)[0])
        return True
    probe = Probe
    def Iprobe(self, source=ANY, tag=ANY, status=None):
        w, r = self.w, self._rank
        w.yield_("iprobe%d" % tag)
        c = w.matching(r, source, tag)
        if c and status is not None: status._set(c[0])
        return bool(c)
    iprobe = Iprobe
    def Abort(self, code=0): raise RuntimeError("MPI Abort(%d)" % code)

class FakeTime(types.ModuleType):
    """Stands for module `time` inside one rank's copy of the code under test."""
    def __init__(self, w, proc):
        import time as rt
        types.ModuleType.__init__(self, "time")
        for k, v in vars(rt).items():
            if not k.startswith("__"): setattr(self, k, v)
        base = 1.7e9
        self.time = lambda: base + w.now + proc.offset
        self.time_ns = lambda: int(self.time() * 1e9)
        self.monotonic = self.perf_counter = lambda: w.now
        self.monotonic_ns = self.perf_counter_ns = lambda: int(w.now * 1e9)
        def sleep(s):
            until = w.now + s
            w.src.ev("sleep", proc.rank, s)
            w.yield_("sleep")
            w.now = max(w.now, until)
        self.sleep = sleep

def load_rank(w, rank, modname="MPI_Work_Queue", share=("Work_Queue",)):
    """Fresh instance of the real module for one rank, with simulated mpi4py and time."""
    proc = w.procs[rank]
    comm = Comm(w, rank)
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = comm
    mpi.ANY_SOURCE, mpi.ANY_TAG = ANY, ANY
    mpi.Status = Status
    mpi.Request = Request
    mpi.Comm = Comm
    mpi.Wtime = lambda: w.now
    mpi.Is_initialized = lambda: True
    mpi.Finalize = lambda: None
    pkg = types.ModuleType("mpi4py"); pkg.MPI = mpi
    ft = FakeTime(w, proc)
    saved = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI", "time")}
    sys.modules.update({"mpi4py": pkg, "mpi4py.MPI": mpi, "time": ft})
    try:
        spec = importlib.util.spec_from_file_location("%s_rank%d" % (modname, rank), os.path.join(CODE, modname + ".py"))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    finally:
        for k, v in saved.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return mod
