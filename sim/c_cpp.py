"""C10, C11: the C++ enumerators and their scripts, as simulated process trees
with I/O faults, kills and seeded scheduling (see ptsim.py)."""
import collections, errno, gzip, os, random, re, shutil, subprocess, sys
import core, ref, ptsim
from core import Violation, Check, Scenario, HarnessError
from ptsim import System, GO
import tempfile, contextlib
CPP = core.REPO + "/cpp"
BIN = {}

@contextlib.contextmanager
def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    d = os.path.realpath(tempfile.mkdtemp(prefix="bbsim.", dir=base))
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)

PROGS = ["lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue", "direct_sim_all", "direct_sim", "lin_recur"]
def prepare():
    """Builds the C++ programs from /repo's current tree, with and without Boost."""
    ptsim.prepare()
    if BIN: return
    for var, opt in (("boost", []), ("plain", ["-DCMAKE_DISABLE_FIND_PACKAGE_Boost=ON"])):
        d = ptsim.build_dir()
        for cmd in (["cmake", "-G", "Ninja", "-S", CPP, "-B", d] + opt, ["ninja", "-C", d]):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise HarnessError("C++ build failed: " + (r.stdout + r.stderr)[-3000:])
        BIN[var] = d

def write(path, text):
    with open(path, "w") as f: f.write(text)
def slurp(path):
    try:
        with open(path, "rb") as f: return f.read()
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError): return None

def machines(rng, n):
    """n input lines: partly defined machines, as the enumerators write them."""
    st, sy = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2)])
    out = []
    for _ in range(n):
        cells = st * sy
        t = ref.random_node(rng, st, sy, max(0, min(cells - 2, cells - 2 - rng.randrange(3))), steps=200)
        s = ref.show(t)
        if rng.random() < 0.15: s += rng.choice([" | Halt 5", " Unknown 30", "\tx", ",1"])
        out.append(s)
    return out

class Case:
    """One program call: argument list, input text, names of its output files."""
    def __init__(self, src):
        self.prog = src.pick(PROGS, "program")
        self.var = src.weighted([3, 1], "build")
        self.var = ["boost", "plain"][self.var]
        self.input, self.stdout = None, False
        rng = random.Random(src.choose(40, "content"))
        steps = src.pick([100, 20, 1000], "steps")
        comp = "true" if self.var == "boost" and src.chance(0.4, "compress") else "false"
        only = "true" if src.chance(0.2, "only unknown") else "false"
        gz = ".gz" if comp == "true" else ""
        allow = "true" if src.chance(0.2, "allow no halt") else "false"
        if self.prog == "lr_enum":
            st, sy = src.pick([(3, 2), (2, 2), (2, 3)], "size")
            if allow == "true" and (st, sy) != (2, 2): steps = 20
            self.args = [str(st), str(sy), str(steps), "h", "i", "u", allow, comp, only]
            self.outs = ["h" + gz, "i" + gz, "u" + gz]
        elif self.prog == "lr_enum_continue":
            self.input = machines(rng, rng.choice([0, 1, 20, 150, 400]))
            self.args = ["in", str(steps), "h", "i", "u", "7", "false", comp, only]
            self.outs = ["h" + gz, "i" + gz, "u" + gz]
        elif self.prog == "lb_enum":
            st, sy = src.pick([(3, 2), (2, 2), (2, 3)], "size")
            self.args = [str(st), str(sy), str(min(steps, 100)), "w"] + (["n"] if src.chance(0.7, "nonhalt file") else [])
            self.outs = self.args[3:]
        elif self.prog == "lb_enum_continue":
            self.input = machines(rng, rng.choice([0, 1, 20, 150, 400]))
            self.args = ["in", str(min(steps, 100)), "w", "3"]; self.outs = ["w"]
        elif self.prog == "direct_sim_all":
            self.input = machines(rng, rng.choice([0, 1, 20, 150, 400]))
            self.args = ["in", str(steps), "o"]; self.outs = ["o"]
        else:
            self.input = machines(rng, rng.choice([1, 20, 400]))
            line = str(1 + rng.randrange(len(self.input)))
            self.args = ["in", line, str(steps) if self.prog == "direct_sim" else "7"]; self.outs = []
            self.stdout = True
        self.key = (self.prog, self.var, tuple(self.args), tuple(self.input or ()))
        src.note.update(program=self.prog, args=self.args, build=self.var)
    def system(self, d, **kw):
        w = os.path.join(d, "w"); os.makedirs(w, exist_ok=True)
        if self.input is not None: write(os.path.join(w, "in"), "".join(l + "\n" for l in self.input))
        return System(w, [os.path.join(BIN[self.var], self.prog)] + self.args, env=ptsim.environment(d), **kw)

def clean_out(s):
    """Program output without running times."""
    return re.sub(r"[0-9.e+-]+s\b", "", s)

_dry = {}
def dry(case, src):
    if case.key in _dry: return _dry[case.key]
    if len(_dry) > 200: _dry.clear()
    with scratch() as d:
        s = case.system(d)
        if s.run() != 0: raise Violation("failed", "%s %s fails without any fault: %s" % (case.prog, case.args, s.stdout[-300:]))
        outs = {n: slurp(os.path.join(s.root, n)) for n in case.outs}
        if any(v is None for v in outs.values()): raise Violation("failed", "%s %s: no output file %s" % (case.prog, case.args, [n for n in outs if outs[n] is None]))
        _dry[case.key] = (s.ops, outs, clean_out(s.stdout))
    return _dry[case.key]

ERR = {"write": [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG], "open": [errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EIO, errno.EROFS],
       "read": [errno.EIO, errno.EISDIR], "close": [errno.EIO, errno.ENOSPC]}
def well_formed(line, extra=" \t,#|"):
    for c in extra: line = line.split(c)[0]
    rows = line.split("_")
    if not line or any(len(r) % 3 or len(r) != len(rows[0]) or not r for r in rows): return False
    for r in rows:
        for i in range(0, len(r), 3):
            c = r[i:i + 3]
            if c == "---": continue
            if not re.fullmatch(r"[0-9][LR][A-Z]", c): return False
            if int(c[0]) >= len(rows[0]) // 3 or (c[2] != "Z" and ord(c[2]) - 65 >= len(rows)): return False
    return True

def c10(src):
    case = Case(src)
    ops, want, said = dry(case, src)
    for trial in range(4):
        with scratch() as d:
            s = case.system(d, max_ops=20 * len(ops) + 500, src=src)
            w = s.root
            env_fault = src.weighted([6, 1, 1, 1, 1, 1], "kind")
            plan = {}
            sticky = None
            judge_input = None
            if env_fault == 0:
                cand = [o for o in ops if o.op in ("open", "read", "write", "writev", "close") and
                        not (o.op == "close" and o.path not in case.outs)]
                for _ in range(src.int(1, 2, "faults")):
                    if not cand: break
                    # late operations (the last flush, the closing ones) are as interesting as all others together
                    o = cand[-1 - src.choose(min(len(cand), 8), "late op")] if src.chance(0.5, "late") else src.pick(cand, "op")
                    kind = "write" if o.op == "writev" else o.op
                    e = src.pick(ERR[kind], "errno")
                    if kind == "write":
                        m = src.weighted([3, 3, 2, 1, 1], "write fault")
                        if m == 0: plan[o.i] = ("err", e); src.fault("write_error_once")
                        elif m == 1: plan[o.i] = ("err", e); sticky = (o.i, e); src.fault("disk_full_from_here")
                        elif m == 2 and o.size > 1 and o.op == "write":
                            plan[o.i] = ("short", 1 + src.choose(o.size - 1, "bytes")); sticky = (o.i + 1, e); src.fault("short_write_then_error")
                        elif m == 3 and o.size > 1 and o.op == "write": plan[o.i] = ("short", 1 + src.choose(o.size - 1, "bytes")); src.fault("short_write")
                        else: plan[o.i] = ("err", errno.EINTR); src.fault("interrupted_write")
                    elif kind == "read" and src.chance(0.4, "short read") and o.size > 1:
                        plan[o.i] = ("short", 1 + src.choose(min(o.size, 4000) - 1, "bytes")); src.fault("short_read")
                    elif kind == "read" and src.chance(0.2, "interrupted"): plan[o.i] = ("err", errno.EINTR); src.fault("interrupted_read")
                    elif src.chance(0.15, "kill"): plan[o.i] = ("kill",); src.fault("kill")
                    else: plan[o.i] = ("err", e); src.fault(kind + "_error")
            elif env_fault == 1 and case.input is not None:
                os.unlink(os.path.join(w, "in")); judge_input = "missing input"; src.fault("missing_input")
            elif env_fault == 2 and case.input is not None:
                os.unlink(os.path.join(w, "in")); os.mkdir(os.path.join(w, "in")); judge_input = "input is a directory"; src.fault("unreadable_input")
            elif env_fault == 3 and case.outs:
                n = src.pick(case.outs, "which"); os.mkdir(os.path.join(w, n)); src.fault("unwritable_output")
            elif env_fault == 4 and case.outs:
                n = src.pick(case.outs, "which"); os.symlink("/dev/full", os.path.join(w, n)); src.fault("full_device")
            elif env_fault == 5 and case.input and len(case.input) > 1:
                text = slurp(os.path.join(w, "in")).decode()
                cut = src.choose(len(text), "cut at byte")
                write(os.path.join(w, "in"), text[:cut]); src.fault("torn_input")
                last = text[:cut].split("\n")[-1]
                if last and not well_formed(last): judge_input = "the input ends in a torn machine %r" % last
                elif not case.stdout: continue
                if case.stdout and not (judge_input and int(case.args[1]) == text[:cut].count("\n") + 1): continue
            def policy(i, held):
                o = held[0]
                if sticky and i >= sticky[0] and o.writes(): return o, ("err", sticky[1])
                a = plan.get(i, GO)
                if a[0] == "short" and (o.op not in ("write", "read") or a[1] > o.size): a = GO
                if a[0] == "err" and o.op in ("exec", "exit"): a = GO
                return o, a
            code = s.run(policy)
            where = "%s %s (%s build) with %s" % (case.prog, " ".join(case.args), case.var, judge_input or ["%s: %s" % (ops[i].show(), a) for i, a in plan.items()] or env_fault)
            outs = {n: slurp(os.path.join(w, n)) for n in case.outs if not os.path.islink(os.path.join(w, n))}
            src.ev(code, {n: v and len(v) for n, v in outs.items()})
            if code == 0:
                if judge_input: raise Violation("silent-input", "%s: exit status 0" % where)
                for n in case.outs:
                    if os.path.islink(os.path.join(w, n)):
                        if want[n]: raise Violation("silent-loss", "%s: exit status 0 though %s is on a full device" % (where, n))
                    elif outs[n] != want[n]:
                        raise Violation("silent-loss", "%s: exit status 0, but %s has %s of %d bytes%s" % (where, n, None if outs[n] is None else len(outs[n]), len(want[n]),
                                        "" if outs[n] is not None and want[n].startswith(outs[n]) else " and is not a prefix of the complete output"))
                if any(a[0] == "err" and ops[i].op == "close" for i, a in plan.items() if i < len(s.ops) and s.ops[i].op == "close" and s.ops[i].path == ops[i].path):
                    raise Violation("silent-loss", "%s: exit status 0 though closing an output file failed" % where)
                if case.stdout and not judge_input and clean_out(s.stdout) != said: raise Violation("silent-input", "%s: exit status 0 with a different result: %r" % (where, s.stdout[-200:]))
            if env_fault != 5:
                for n, v in outs.items():
                    if v is not None and not want[n].startswith(v):
                        raise Violation("not-a-prefix", "%s: %s holds %d bytes that are not a prefix of the complete output" % (where, n, len(v)))
            src.count["calls"] += 1
            src.count["failed_as_required" if code else "unharmed"] += 1
            src.state(case.prog, code, env_fault, tuple(sorted((ops[i].op, a[0]) for i, a in plan.items())))
    src.interesting = bool(src.faults)

# ------------------------------------------------------------------------------ C11

def lines(data): return [l for l in data.decode().split("\n") if l]

def read_out(path):
    data = slurp(path)
    if data is None: return None
    if path.endswith(".gz"):
        try: data = gzip.decompress(data)
        except Exception as e: return "unreadable: %r" % e
    return lines(data)

def config_after(t, n):
    tape, pos, state = {}, 0, 0
    for _ in range(n):
        c = t[state][tape.get(pos, 0)]
        if c is None or c[2] < 0: return None
        if c[0]: tape[pos] = c[0]
        else: tape.pop(pos, None)
        pos += c[1]; state = c[2]
    return tape, pos, state

def recurs(t, start, period, offset):
    """Independent check of translated recurrence: from step `start` the machine
    does the same thing every `period` steps, shifted by `offset`."""
    a = config_after(t, start)
    if a is None: return False
    tape, pos, state = dict(a[0]), a[1], a[2]
    lo = hi = pos
    for _ in range(period):
        c = t[state][tape.get(pos, 0)]
        if c is None or c[2] < 0: return False
        if c[0]: tape[pos] = c[0]
        else: tape.pop(pos, None)
        pos += c[1]; state = c[2]
        lo, hi = min(lo, pos), max(hi, pos)
    if state != a[2] or pos - a[1] != offset: return False
    if offset == 0: return all(tape.get(x, 0) == a[0].get(x, 0) for x in range(lo, hi + 1))
    if offset > 0:
        top = max([hi] + list(tape) + [x + offset for x in a[0]]) + 1
        return all(a[0].get(x, 0) == tape.get(x + offset, 0) for x in range(lo, top + 1))
    bot = min([lo] + list(tape) + [x + offset for x in a[0]]) - 1
    return all(a[0].get(x, 0) == tape.get(x + offset, 0) for x in range(bot, hi + 1))

def judge_tree(halt, inf, unk, states, symbols, max_steps, allow, who, roots=None):
    """Serial result against the reference model: the whole tree, each machine once, each claim true."""
    todo = list(roots) if roots else [ref.show(ref.blank(states, symbols, True))]
    seen = {}
    for kind, ls in (("halt", halt), ("inf", inf), ("unknown", unk)):
        for l in ls:
            m = l.split(" ")[0]
            if m in seen: raise Violation("duplicate", "%s: machine %s is listed twice" % (who, m))
            seen[m] = (kind, l)
    n = 0
    while todo:
        m = todo.pop(); n += 1
        if m not in seen: raise Violation("missing", "%s: machine %s is in no output" % (who, m))
        kind, l = seen[m]
        t = ref.parse(m)
        if kind == "halt":
            k = re.fullmatch(r"\S+ \| Halt (\d+)", l)
            if not k: raise Violation("garbled", "%s: line %r" % (who, l))
            r = ref.run(t, int(k.group(1)))
            if r[0] != "halt" or r[1] != int(k.group(1)): raise Violation("false-verdict", "%s: %s: simulation says %s" % (who, l, r))
            todo += [ref.show(c) for c in ref.children(t, r[3], r[4], allow)]
        elif kind == "inf":
            k = re.fullmatch(r"\S+ \| Lin_Recur (\d+) (-?\d+) <(\d+)", l)
            if not k: raise Violation("garbled", "%s: line %r" % (who, l))
            if not recurs(t, int(k.group(3)), int(k.group(1)), int(k.group(2))): raise Violation("false-verdict", "%s: %s: the machine does not recur like that" % (who, l))
        else:
            r = ref.run(t, max_steps)
            if r[0] == "halt": raise Violation("false-verdict", "%s: %s is listed as unknown but halts after %d steps" % (who, m, r[1]))
    if n != len(seen): raise Violation("invented", "%s: %d machines listed, %d are in the tree" % (who, len(seen), n))

_ser = {}
def serial_lr(st, sy, steps, allow, var, d):
    k = ("lr", st, sy, steps, allow, var)
    if k not in _ser:
        w = os.path.join(d, "serial"); os.makedirs(w, exist_ok=True)
        r = subprocess.run([os.path.join(BIN[var], "lr_enum"), str(st), str(sy), str(steps), "h", "i", "u", "true" if allow else "false"], cwd=w, capture_output=True)
        if r.returncode: raise Violation("failed", "serial lr_enum %s fails" % (k,))
        got = [read_out(os.path.join(w, x)) for x in "hiu"]
        judge_tree(got[0], got[1], got[2], st, sy, steps, allow, "lr_enum %dx%d %d steps" % (st, sy, steps))
        _ser[k] = [sorted(x) for x in got]
    return _ser[k]

_lbt = {}
def lb_truth(st, sy, steps):
    """All step counts up to `steps` of machines in the Lazy Beaver tree (reference model)."""
    k = (st, sy, steps)
    if k not in _lbt:
        got, todo = set(), [ref.blank(st, sy, False)]
        while todo:
            t = todo.pop()
            r = ref.run(t, steps)
            if r[0] == "halt":
                got.add(r[1]); todo += ref.children(t, r[3], r[4], False)
        _lbt[k] = got
    return _lbt[k]

def judge_lb(ls, st, sy, steps, who):
    got = {}
    for l in ls:
        k = re.fullmatch(r"(\d+)\t(\S+)", l)
        if not k: raise Violation("garbled", "%s: line %r" % (who, l))
        if int(k.group(1)) in got: raise Violation("duplicate", "%s: step count %s is listed twice" % (who, k.group(1)))
        got[int(k.group(1))] = k.group(2)
    for n, m in got.items():
        r = ref.run(ref.parse(m), n)
        if r[0] != "halt" or r[1] != n: raise Violation("false-verdict", "%s: %s does not halt after exactly %d steps" % (who, m, n))
    want = lb_truth(st, sy, steps)
    if set(got) != want: raise Violation("differs", "%s: step counts missing %s, extra %s" % (who, sorted(want - set(got))[:5], sorted(set(got) - want)[:5]))

WORK = ("lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue", "cat", "gzip", "shuffle_split.py", "merge_steps_examples.py")
def job_of(o):
    for p in o.prog():
        if p in WORK: return p

def c11_script(src):
    """The parallel scripts, every process scheduled and possibly hurt by the simulator."""
    which = src.weighted([4, 3, 1], "script")
    script = ["lr_enum_local_parallel.sh", "lb_enum_local_parallel.sh", "lr_enum_local_parallel_dev_null.sh"][which]
    var = ["boost", "plain"][src.weighted([3, 1], "build")]
    allow = which != 1 and src.chance(0.2, "allow no halt")
    sizes = [(2, 2), (3, 2), (2, 3)]
    st, sy = (2, 2) if allow else sizes[src.weighted([2, 3, 2], "size")]
    init = src.pick([2, 1, 3, 4, 8, 15], "init steps")
    steps = src.pick([15, 40, 100, 6000] if which != 1 else [15, 40], "max steps")
    if steps < init: init = steps
    n = src.pick([2, 1, 3, 5, 4, 12], "chunks")
    comp = which == 0 and var == "boost" and src.chance(0.3, "compress")
    only = which == 0 and src.chance(0.2, "only unknown")
    with scratch() as d:
        w = os.path.join(d, "w"); os.makedirs(w)
        for p in PROGS: os.symlink(os.path.join(BIN[var], p), os.path.join(w, p))
        os.symlink(CPP + "/scripts", os.path.join(w, "scripts"))
        if which == 1: args = [st, sy, init, steps, n]
        elif which == 0: args = [st, sy, "true" if allow else "false", init, steps, n] + (["true" if comp else "false"] if comp or only else []) + (["true"] if only else [])
        else: args = [st, sy, "true" if allow else "false", init, steps, n]
        args = [str(a) for a in args]
        who = "%s %s" % (script, " ".join(args))
        src.note.update(script=who, build=var)
        if src.chance(0.25, "earlier run"):
            # results of an earlier run, complete or killed, lie in the directory
            old = list(args)
            if which == 1: old[3], old[4] = str(src.pick([60, 15, 100, 40], "its max steps")), str(src.pick([5, 1, 2, 3], "its chunks"))
            else:
                old[2] = src.pick(["false", "true"] if (st, sy) == (2, 2) else ["false"], "its allow"); old[3] = str(src.pick([1, 5, 12], "its init steps"))
                if which == 0: old[6:] = [src.pick(["true", "false"] if var == "boost" else ["false"], "its compress"), src.pick(["false", "true"], "its only unknown")]
            if int(old[3]) < init and which == 1: old[3] = str(init)
            o_ = System(w, ["bash", CPP + "/scripts/" + script] + old, env=ptsim.environment(d, src.int(1, 10**6, "its shuffle")), src=src, max_ops=60000)
            stop = src.choose(src.pick([400, 60], "its span"), "its end") if src.chance(0.5, "it was killed") else None
            def earlier(i, held):
                if i == stop: src.fault("kill_earlier_run"); return held[0], ("kill",)
                return held[0], GO
            o_.run(earlier)
            src.note["earlier"] = " ".join(old)
        s = System(w, ["bash", CPP + "/scripts/" + script] + args, env=ptsim.environment(d, src.int(1, 10**6, "shuffle")), src=src, max_ops=60000)
        fault = src.weighted([3, 4, 3, 2], "fault")      # none, kill a process, I/O error, disk full from some point
        victim = src.pick(["continue", "any"], "victim") if fault else None
        at = src.choose(src.pick([8, 40, 200], "span"), "fault at") if fault else -1
        eno = src.pick([errno.ENOSPC, errno.EIO], "errno") if fault > 1 else 0
        tgt = src.choose(n, "chunk") if victim == "continue" else 0
        st8 = dict(seen=0, done=False, full=False, what=None)
        def match(o):
            j = job_of(o)
            if not j or o.op in ("exit",) or (o.path.startswith("scripts") or not o.path and o.op != "exec"): return False
            if o.op == "exec" and fault != 1: return False
            if victim == "continue": return j.endswith("_continue") and "part_%d_of" % tgt in o.cmd
            return True
        def policy(i, held):
            o = held[src.choose(len(held), "next process")] if len(held) > 1 else held[0]
            if fault and match(o):
                hit = st8["seen"] == at
                st8["seen"] += 1
                if fault == 1 and hit:
                    st8["done"] = True; st8["what"] = "%s killed at %s %s" % (job_of(o), o.op, o.path); src.fault("kill_process")
                    return o, ("killone", 9)
                if fault == 2 and st8["seen"] > at and not st8["done"] and o.op in ("open", "read", "write", "writev", "copy"):
                    st8["done"] = True; st8["what"] = "%s: %s of %s fails" % (job_of(o), o.op, o.path); src.fault("io_error")
                    return o, ("err", eno)
                if fault == 3 and st8["seen"] > at and o.writes():
                    st8["done"] = True; st8["what"] = "disk full for %s from %s on" % (job_of(o), o.path); src.fault("disk_full")
                    return o, ("err", errno.ENOSPC)
            return o, GO
        code = s.run(policy)
        what = st8["what"] or "no fault"
        src.ev(code)
        if code != 0 and not st8["done"]: raise Violation("failed", "%s fails without any fault: %s" % (who, s.stdout[-300:]))
        src.count["script_failed" if code else "script_succeeded"] += 1
        src.interesting = True
        src.state(which, n, code, what[:40])
        # a chunk that did not succeed must fail the script
        bad = [(c, cmd) for c, cmd in s.exits.values() if c and any(os.path.basename(p) in WORK[:4] for p in cmd.split(" ")[:1])]
        if code == 0 and bad: raise Violation("masked-failure", "%s: %s: %r ended with status %d, yet the script reports success" % (who, what, bad[0][1], bad[0][0]))
        if code: return
        g = ".gz" if comp else ""
        if which == 1:
            dd = os.path.join(w, "data/lazy_beaver/%dx%d/%d" % (st, sy, init))
            ls = read_out(os.path.join(dd, "steps_final"))
            if ls is None: raise Violation("no-result", "%s: %s: success but no steps_final" % (who, what))
            judge_lb(ls, st, sy, steps, who + " (%s)" % what)
        else:
            dd = os.path.join(w, "data/lin_recur/%dx%d/%d/%d" % (st, sy, steps, n))
            want = serial_lr(st, sy, steps, allow, var, d)
            for i, kind in enumerate(("halt", "inf", "unknown")):
                if which == 2 and i < 2: continue
                got = read_out(os.path.join(dd, kind + "_final.txt" + g))
                if got is None or isinstance(got, str): raise Violation("no-result", "%s: %s: success but no readable %s_final.txt (%s)" % (who, what, kind, got))
                exp = [] if only and i < 2 else want[i]
                if sorted(got) != exp:
                    a, b = collections.Counter(exp), collections.Counter(got)
                    raise Violation("differs", "%s: %s: %s machines differ from the serial run: missing %s, extra %s" % (who, what, kind, list((a - b).elements())[:2], list((b - a).elements())[:2]))

def run_plain(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def c11_chain(src):
    """Chains of split / continue / merge done by hand, with kills and reruns of chunks."""
    var = ["boost", "plain"][src.weighted([3, 1], "build")]
    lb = src.chance(0.3, "lazy beaver")
    allow = not lb and src.chance(0.2, "allow no halt")
    st, sy = [(3, 2), (2, 2), (2, 3)][src.weighted([4, 1, 3], "size")] if not allow else (2, 2)
    steps = src.pick([40, 15, 6000, 100] if not lb else [40, 15], "max steps")
    stages = sorted({min(steps, 1 + src.choose(30, "steps of stage")) for _ in range(src.int(1, 3, "stages"))})
    B = BIN[var]
    who = "%s %dx%d stages %s -> %d" % ("lb" if lb else "lr", st, sy, stages, steps)
    src.note.update(chain=who, build=var)
    al = "true" if allow else "false"
    with scratch() as d:
        env = ptsim.environment(d, src.int(1, 10**6, "shuffle"))
        w = os.path.join(d, "w"); os.makedirs(w)
        P = lambda x: os.path.join(w, x)
        halt, inf, wit = [], [], []
        if lb: c, o = run_plain([B + "/lb_enum", str(st), str(sy), str(stages[0]), P("w0"), P("u0")], w, env)
        else: c, o = run_plain([B + "/lr_enum", str(st), str(sy), str(stages[0]), P("h0"), P("i0"), P("u0"), al], w, env)
        if c: raise Violation("failed", "%s: first stage fails: %s" % (who, o[-300:]))
        if lb: wit += [P("w0")]
        else: halt += read_out(P("h0")); inf += read_out(P("i0"))
        cur = P("u0")
        if src.chance(0.3, "annotate"):
            ls = read_out(cur); write(cur, "".join(l + " | note\n" for l in ls))
        ends = stages[1:] + [steps]
        if lb: ends = [steps]        # lb_enum_continue does not list the remaining machines
        for k, lim in enumerate(ends):
            n = src.pick([2, 1, 3, 7, 40], "chunks")
            c, o = run_plain(["python3", CPP + "/scripts/shuffle_split.py", cur, str(n)], w, env)
            if c: raise Violation("failed", "%s: shuffle_split fails: %s" % (who, o[-300:]))
            parts = ["%s.part_%d_of_%d" % (cur, i, n) for i in range(n)]
            got = [l for p in parts for l in (read_out(p) or [])]
            if sorted(got) != sorted(read_out(cur)): raise Violation("split", "%s: the %d chunks do not hold exactly the lines of the list" % (who, n))
            order = list(range(n)); random.Random(src.subseed("order")).shuffle(order)
            rest = []
            for i in order:
                x = "s%d_%d" % (k, i)
                cmd = [B + "/lb_enum_continue", parts[i], str(lim), P("w" + x), str(i)] if lb else \
                      [B + "/lr_enum_continue", parts[i], str(lim), P("h" + x), P("i" + x), P("u" + x), str(i), al]
                while src.chance(0.15, "kill first"):
                    s = System(w, cmd, env=env, src=src)
                    at = src.choose(12, "kill at")
                    s.run(lambda j, held: (held[0], ("kill",) if j == at else GO))
                    if s.killed: src.fault("kill_process")
                c, o = run_plain(cmd, w, env)
                if c: raise Violation("failed", "%s: %s fails: %s" % (who, cmd, o[-300:]))
                if lb: wit.append(P("w" + x))
                else: halt += read_out(P("h" + x)); inf += read_out(P("i" + x)); rest += read_out(P("u" + x))
            cur = P("u%d" % (k + 1))
            write(cur, "".join(l + "\n" for l in rest))
        if lb:
            c, o = run_plain(["bash", "-c", 'python3 "$@" > ' + P("final"), "x", CPP + "/scripts/merge_steps_examples.py"] + wit, w, env)
            if c: raise Violation("failed", "%s: merge fails: %s" % (who, o[-300:]))
            judge_lb(read_out(P("final")), st, sy, steps, who)
        else:
            want = serial_lr(st, sy, steps, allow, var, d)
            for kind, a, b in (("halting", want[0], halt), ("non-halting", want[1], inf), ("unknown", want[2], rest)):
                a, b = collections.Counter(a), collections.Counter(b)
                if a != b: raise Violation("differs", "%s: %s machines differ from the serial run: missing %s, extra %s" % (who, kind, list((a - b).elements())[:2], list((b - a).elements())[:2]))
        src.ev(who, len(halt), len(inf))
        src.interesting = True

def c11_parts(src):
    """Split and merge of lists larger than the small enumerations produce."""
    rng = random.Random(src.subseed("content"))
    with scratch() as d:
        env = ptsim.environment(d, src.int(1, 10**6, "shuffle"))
        if src.chance(0.5, "split"):
            n, k = src.pick([0, 1, 7, 100, 1000, 4000], "lines"), src.pick([1, 2, 3, 9, 10, 11, 64, 101, 150], "chunks")
            n += rng.randrange(n + 1)
            ls = ["%s%s" % (ref.show([[None if rng.random() < 0.2 else (rng.randrange(2), rng.choice([1, -1]), rng.randrange(3)) for _ in range(2)] for _ in range(3)]),
                            rng.choice(["", "", " | note %d" % i, " Unknown"])) for i in range(n)]
            f = os.path.join(d, src.pick(["u", "unknown.txt", "a.part_0_of_2"], "name"))
            write(f, "".join(l + "\n" for l in ls))
            c, o = run_plain(["python3", CPP + "/scripts/shuffle_split.py", f, str(k)], d, env)
            if c: raise Violation("failed", "shuffle_split of %d lines into %d fails: %s" % (n, k, o[-300:]))
            got = []
            for i in range(k):
                p = "%s.part_%d_of_%d" % (f, i, k)
                if slurp(p) is None: raise Violation("split", "%d lines into %d chunks: chunk %d is missing" % (n, k, i))
                got += slurp(p).decode().split("\n")[:-1]
            if collections.Counter(got) != collections.Counter(ls): raise Violation("split", "%d lines into %d chunks: the chunks hold %d lines, not those of the list" % (n, k, len(got)))
            src.ev(n, k, [hash(x) & 0xffff for x in got[:5]])
        else:
            files, want = [], collections.defaultdict(set)
            top = src.pick([60, 5000, 10**6, 1100], "largest step count")
            for i in range(src.int(1, 12, "files")):
                f = os.path.join(d, "w.%d" % i)
                rows = sorted({rng.choice([rng.randrange(1, top), rng.randrange(1, 50)]) for _ in range(rng.choice([0, 1, 5, 60]))})
                with open(f, "w") as g:
                    for r in rows:
                        m = "1RB---_%dLA%dRB.%d.%d" % (rng.randrange(2), rng.randrange(2), i, r)
                        want[r].add(m); g.write("%d\t%s\n" % (r, m))
                files.append(f)
            out = os.path.join(d, "final")
            c, o = run_plain(["bash", "-c", 'python3 "$@" > ' + out, "x", CPP + "/scripts/merge_steps_examples.py"] + files, d, env)
            if c: raise Violation("failed", "merge of %d files fails: %s" % (len(files), o[-300:]))
            got = {}
            for l in read_out(out):
                k = re.fullmatch(r"(\d+)\t(\S+)", l)
                if not k or int(k.group(1)) in got: raise Violation("garbled", "merge: line %r" % l)
                got[int(k.group(1))] = k.group(2)
            if set(got) != set(want): raise Violation("differs", "merge: step counts missing %s, extra %s" % (sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]))
            for k in got:
                if got[k] not in want[k]: raise Violation("differs", "merge: %s is listed for %d steps, but no part says so" % (got[k], k))
            src.ev(len(files), sorted(got)[-3:])
        src.interesting = True

ASSUME = ["disk: a call either fails with an error, is shortened, or takes effect; data of successful calls survives a kill of the process",
          "the kernel runs one held process at a time between scheduling points (file operations under the work directory, exec, exit)",
          "clock readings only reach progress messages of the C++ programs"]
COMP = {"real": ["cpp/src (built from the current tree with and without Boost)", "cpp/scripts", "bash, coreutils, gzip, python3", "kernel file system (scratch directory)"],
        "stub": ["process scheduling at file operations (ptrace + seccomp)", "results of failing system calls", "Python random seed"]}
def check(prop):
    if prop == "C10":
        return Check(prop, [Scenario("program", c10, 6000, 300000, 60, 2400)], "program, options, input and build drawn per run, 4 faulted executions each; non-trivial = at least one fault", ASSUME, COMP, prepare=prepare)
    return Check(prop, [Scenario("script", c11_script, 1500, 60000, 50, 2000), Scenario("chain", c11_chain, 1500, 60000, 30, 1200),
                        Scenario("parts", c11_parts, 800, 20000, 15, 300)],
                 "script, size, step limits, chunk count, schedule and faults drawn per run; chain: split/continue/merge by hand with killed and rerun chunks", ASSUME, COMP, prepare=prepare)
