"""Asynchronous events at the instants CPython 3.12 can deliver them.

The interpreter runs pending signal handlers when it starts or resumes a
function, at backward jumps and after calls into C.  sys.monitoring reports
exactly these instants, and an exception raised by its callback propagates at
that instant, as one raised by a signal handler does.  `Points.run` executes a
function, counts instants inside the window and acts at chosen ones."""
import dis, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)) + "/"
E = sys.monitoring.events
TOOL = 3

class Points:
    def __init__(self):
        self.n = 0               # instants seen in the window
        self.at = None           # instant to act at (index) or None
        self.action = None       # called at that instant, may raise
        self.window = False
        self.code = None
        self.active = False
        self.only = None         # optional predicate on code objects
        self.limit = None        # n at which to give up (non-termination guard)
        self.fired = False
        self.fired_where = None
        self.gate = False        # window is a function
        self.next_action = None  # run at the very next instant (pending signal)

    def _hit(self, code):
        if self.active or code.co_filename.startswith(HERE): return
        na = self.next_action
        if na is None and not (self.window() if self.gate else self.window): return
        if na is not None:
            self.next_action = None
            self.active = True
            try: na(code)
            finally: self.active = False
            return
        i = self.n
        self.n = i + 1
        if i == self.at:
            self.fired = True
            self.fired_where = "%s:%d" % (code.co_name, code.co_firstlineno)
            self.active = True
            try: self.action(code)
            finally: self.active = False
        elif self.limit is not None and i > self.limit:
            self.limit = None
            self.gate, self.window = False, False
            raise NoEnd()

    def start(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "bbsim")
        def py_start(code, off): self._hit(code)
        def jump(code, src, dst):
            if dst < src: self._hit(code)
        def c_ret(code, off, fn, a0): self._hit(code)
        m.register_callback(TOOL, E.PY_START, py_start)
        m.register_callback(TOOL, E.PY_RESUME, py_start)
        m.register_callback(TOOL, E.JUMP, jump)
        m.register_callback(TOOL, E.C_RETURN, c_ret)
        m.register_callback(TOOL, E.CALL, lambda *a: None)
        self.watch(True)

    def watch(self, on):
        """Stop or go on looking at instants (looking is slow)."""
        if sys.monitoring.get_tool(TOOL) == "bbsim":
            sys.monitoring.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP | E.CALL if on else 0)

    def stop(self):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for e in (E.PY_START, E.PY_RESUME, E.JUMP, E.C_RETURN, E.CALL): m.register_callback(TOOL, e, None)
        m.free_tool_id(TOOL)

class NoEnd(BaseException):
    """The code under test went on too long after the event."""

_shields = {}
def shields(code):
    """Ranges of the code object that lie inside a `try` with an `except SomeError`."""
    if code not in _shields:
        ops = {i.offset: i for i in dis.get_instructions(code)}
        offs = sorted(ops)
        out = []
        for e in dis._parse_exception_table(code):
            for o in offs[offs.index(e.target):][:12] if e.target in ops else []:
                if ops[o].opname == "CHECK_EXC_MATCH": out.append((e.start, e.end)); break
                if ops[o].opname in ("RERAISE", "WITH_EXCEPT_START"): break
        _shields[code] = out
    return _shields[code]

def shielded(top):
    """Is the current instant inside such a `try` of a caller, up to the function named `top`?"""
    f = sys._getframe(1)
    while f is not None and f.f_code.co_name != top:
        if not f.f_code.co_filename.startswith(HERE) and any(a <= f.f_lasti < b for a, b in shields(f.f_code)): return True
        f = f.f_back
    return False
