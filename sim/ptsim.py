"""Drives tracer.c: a command and all of its child processes as one simulated
system.  Every file operation under the work directory, every exec and every
exit is a scheduling point; a policy decides which held process goes on, and
whether its call succeeds, fails, is shortened, or is where it dies."""
import errno, hashlib, os, shutil, signal, subprocess, tempfile
import core
from core import Violation, HarnessError
HERE = os.path.dirname(os.path.abspath(__file__))
TRACER = None

def build_dir():
    d = tempfile.mkdtemp(prefix="bbsim-build.", dir="/tmp")
    core.CLEANUP.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d

def prepare():
    """Compiles the tracer (outside /repo, removed at exit)."""
    global TRACER
    if TRACER: return
    t = os.path.join(build_dir(), "tracer")
    r = subprocess.run(["gcc", "-O2", "-o", t, os.path.join(HERE, "tracer.c")], capture_output=True, text=True)
    if r.returncode: raise HarnessError("cannot compile the tracer: " + r.stderr[-2000:])
    TRACER = t

class Op:
    __slots__ = ("name", "op", "path", "path2", "size", "flags", "cmd", "i")
    def __init__(self, f, root):
        self.name, self.op = f[1], f[2]
        rel = lambda p: p[len(root) + 1:] if p.startswith(root + "/") else p
        self.path, self.path2, self.size, self.flags, self.cmd = rel(f[3]), rel(f[4]), int(f[5]), int(f[6]), f[7]
        self.i = -1
    def writes(self): return self.op in ("write", "writev", "copy")
    def for_writing(self): return self.op == "open" and self.flags & 3 != 0
    def prog(self):
        """Base names of the words of the command line (interpreter and script)."""
        return [os.path.basename(w) for w in self.cmd.split(" ")[:3]]
    def show(self): return "%s %s %s%s" % (self.name, self.op, self.path, " -> " + self.path2 if self.path2 else "")

GO = ("go",)
def order(name): return [int(x) for x in name.split(".")]

class System:
    def __init__(self, root, cmd, cwd=None, env=None, max_ops=20000, src=None):
        self.root, self.cmd, self.cwd, self.max_ops, self.src = root, cmd, cwd or root, max_ops, src
        self.env = env
        self.ops, self.exits, self.killed = [], {}, False
        self.stdout = ""

    def run(self, policy=None):
        """policy(op index, list of held Ops) -> (Op, action); None runs the
        lowest-numbered process with no faults."""
        log = tempfile.TemporaryFile()
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        p = subprocess.Popen([TRACER, self.root, str(w1), str(r2)] + self.cmd, pass_fds=(w1, r2), cwd=self.cwd, env=self.env,
                             stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        os.close(w1); os.close(r2)
        f = os.fdopen(r1, "r", errors="replace")
        held, code = [], None
        try:
            while True:
                l = f.readline()
                if not l: raise HarnessError("tracer ended early")
                t = l.rstrip("\n").split("\t")
                if t[0] == "h": held.append(Op(t, self.root))
                elif t[0] == "x": self.exits[t[1]] = (int(t[2]), t[3] if len(t) > 3 else "")
                elif t[0] == "b": pass
                elif t[0] == "E": code = int(t[1]); break
                elif t[0] == "D": raise Violation("stuck", "%s: every process is waiting for another one" % self.cmd[:3])
                elif t[0] == "Q":
                    held.sort(key=lambda o: order(o.name))
                    i = len(self.ops)
                    if i > self.max_ops: raise Violation("no-progress", "%s: still running after %d operations; last: %s" % (self.cmd[:3], i, [o.show() for o in self.ops[-3:]]))
                    o, act = policy(i, held) if policy else (held[0], GO)
                    o.i = i
                    self.ops.append(o)
                    if self.src is not None: self.src.ev(o.name, o.op, o.path.replace(self.root, ""), act)
                    c = {"go": "G %s", "err": "E %s %d", "short": "S %s %d", "tear": "T %s %d", "kill": "K", "killone": "X %s %d", "free": "F"}[act[0]]
                    if act[0] in ("kill", "free"): pass
                    else: c = c % ((o.name,) + tuple(act[1:]))
                    if act[0] in ("kill", "tear"): self.killed = True
                    os.write(w2, (c + "\n").encode())
                    held = []
                elif t[0].startswith("!"): raise HarnessError("tracer: " + l)
                else: raise HarnessError("tracer said " + l)
        finally:
            os.close(w2); f.close()
            try: p.wait(20)
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            log.seek(0); self.stdout = log.read().decode("utf8", "replace"); log.close()
        self.code = code
        return code

SITE = """import random, time
random.seed(%d)
_t = [1.7e9]
def _now():
    _t[0] += 1e-4
    return _t[0]
time.time = _now
"""
def environment(d, seed=1, **kw):
    """Environment of a simulated process tree: fixed, Python's random module
    seeded and its clock simulated through sitecustomize."""
    s = os.path.join(d, "site"); os.makedirs(s, exist_ok=True)
    with open(os.path.join(s, "sitecustomize.py"), "w") as f: f.write(SITE % seed)
    e = dict(PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", HOME=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=s, USER="bbsim", TMPDIR=d)
    e.update(kw)
    return e
