"""Imports the code under test from /repo/Code with its process-wide seams
(interval timer, clock) routed to the simulation."""
import contextlib, io, os, shutil, signal, sys, tempfile, time
import core
sys.path.insert(0, core.REPO + "/Code")
sys.dont_write_bytecode = True

class Timers:
    """Simulated interval timers / alarm(): armed values, never touches the OS."""
    SIG = {signal.ITIMER_REAL: signal.SIGALRM, signal.ITIMER_VIRTUAL: signal.SIGVTALRM, signal.ITIMER_PROF: signal.SIGPROF}
    def __init__(self): self.reset()
    def reset(self):
        self.t = {}                      # which -> (armed, interval)
        self.history = []; self.on_set = None; self.after_set = None
    @property
    def armed(self): return max([a for a, _ in self.t.values()], default=0.0)
    def expire(self):
        """An armed timer runs out: returns the signal it sends."""
        which = max(self.t, key=lambda w: self.t[w][0], default=signal.ITIMER_REAL)
        if which in self.t: self.t[which] = (self.t[which][1], self.t[which][1])
        return self.SIG[which]
    def setitimer(self, which, seconds, interval=0.0):
        old = self.t.get(which, (0.0, 0.0))
        if seconds < 0 or interval < 0: raise signal.ItimerError(22, "Invalid argument")
        if self.on_set: self.on_set(seconds)
        self.t[which] = (float(seconds), float(interval) if seconds else 0.0)
        self.history.append(float(seconds))
        if self.after_set: self.after_set()      # signals are handled when the system call returns
        return old
    def getitimer(self, which): return self.t.get(which, (0.0, 0.0))
    def alarm(self, seconds):
        if not isinstance(seconds, int): raise TypeError("'%s' object cannot be interpreted as an integer" % type(seconds).__name__)
        old = self.t.get(signal.ITIMER_REAL, (0.0, 0.0))[0]
        self.setitimer(signal.ITIMER_REAL, seconds)
        return int(old)
TIMERS = Timers()
signal.setitimer = lambda which, seconds, interval=0.0: TIMERS.setitimer(which, seconds, interval)
signal.getitimer = lambda which: TIMERS.getitimer(which)
signal.alarm = lambda s: TIMERS.alarm(s)

class Clock:
    """Simulated time.time for code under test; None = real."""
    def __init__(self): self.fn = None
CLOCK = Clock()
_rt = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "monotonic_ns", "perf_counter_ns")}
core.real_time = _rt["time"]
def _mk(n):
    real = _rt[n]
    def f():
        c = CLOCK.fn
        return real() if c is None else c(n)
    f.__name__ = n
    return f
for _n in _rt: setattr(time, _n, _mk(_n))

import Enumerate, Macro_Simulator, Alarm, IO, Halting_Lib, TM_Enum, Work_Queue, io_pb2
from IO.TM_Record import TM_Record
from Macro import Turing_Machine
HANDLER = signal.getsignal(signal.SIGALRM)

@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try: yield sys.stdout
    finally: sys.stdout, sys.stderr = o, e

@contextlib.contextmanager
def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = tempfile.mkdtemp(prefix="bbsim.", dir=base)
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)

class ToolFailed(Exception): pass

def run_main(fn, *args):
    """Runs a tool's entry point; returns (ok, stdout). ok False on SystemExit != 0;
    exceptions of the tool propagate."""
    with quiet() as out:
        try:
            fn(*args)
        except SystemExit as e:
            return (e.code in (0, None)), out.getvalue()
    return True, out.getvalue()

def tm_str(rec):
    """Machine of a record, via the project's own printer."""
    return rec.tm().ttable_str()

def make_record(text, allow_no_halt=False):
    tm = IO.parse_tm(text) if hasattr(IO, "parse_tm") else IO.StdText.parse_tm(text)
    rec = TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=allow_no_halt))
    return rec

def verdict(proto):
    """Canonical verdict of a record: (halt part, quasihalt part)."""
    h, q = proto.status.halt_status, proto.status.quasihalt_status
    gb = Halting_Lib.get_big_int
    def num(f):
        v = gb(f)
        return v if isinstance(v, (int, type(None))) else str(v)
    if not h.is_decided: hv = ("unknown",) + (("stray",) if (h.is_halting or h.HasField("halt_steps") or h.HasField("halt_score") or h.inf_reason) else ())
    elif h.is_halting: hv = ("halt", num(h.halt_steps), num(h.halt_score), h.from_state, h.from_symbol)
    else: hv = ("inf", h.inf_reason)
    if not q.is_decided: qv = ("unknown",)
    elif q.is_quasihalting: qv = ("quasi", num(q.quasihalt_steps), q.quasihalt_state)
    else: qv = ("notquasi",)
    return hv, qv

def read_all(path):
    with IO.Reader(path) as r: return list(r)
