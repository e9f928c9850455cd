"""C08, C09, C14: record files and the tools that read and write them, on a
simulated disk with kills, torn files and I/O errors."""
import collections, errno, gzip, io, os, random, re, runpy, struct, sys, zipfile, zlib
import core, env, ref, disk, c_enum
import Exp_Int
from env import IO, Enumerate, TM_Record, TM_Enum, Halting_Lib, io_pb2, scratch, CLOCK, verdict
from core import Violation, Check, Scenario, HarnessError
CODE, TOOLS = core.REPO + "/Code/", core.REPO + "/Tools/"

# ------------------------------------------------------------- records with known content

INF = [io_pb2.INF_MACRO_STEP, io_pb2.INF_CHAIN_STEP, io_pb2.INF_PROOF_SYSTEM, io_pb2.INF_REVERSE_ENGINEER, io_pb2.INF_LIN_RECUR, io_pb2.INF_CTL]
def rand_tm(rng, big=True):
    st, sy = rng.choice([(2, 2), (3, 2), (2, 3), (5, 2), (2, 4), (3, 3), (6, 2), (4, 4)] +
                        ([(30, 2), (2, 14)] if big == 2 else []) + ([(7, 7), (8, 2), (2, 8), (12, 3), (8, 8), (7, 8), (24, 2), (3, 9)] if big else []))
    t = []
    for s in range(st):
        row = []
        for y in range(sy):
            x = rng.random()
            if x < 0.08: row.append(None)
            elif x < 0.14: row.append((rng.randrange(sy), rng.choice([-1, 1]), -1))
            else: row.append((rng.randrange(sy), rng.choice([-1, 1]), rng.randrange(st)))
        t.append(row)
    t[0][0] = (1, 1, 1)
    return t

def fits_text(t): return len(t) < 25 and len(t[0]) < 10
def packs(t): return len(t) <= 7 and len(t[0]) <= 7

def build_tm(t):
    q = [(s, y, c[0], 1 if c[1] > 0 else 0, c[2]) for s, row in enumerate(t) for y, c in enumerate(row) if c is not None]
    return env.Turing_Machine.tm_from_quintuples(q, list(range(len(t))), list(range(len(t[0]))))

def tm_str(rec):
    """Machine of a record, transition by transition."""
    tm, TM = rec.tm(), env.Turing_Machine
    t = []
    for s in range(tm.num_states):
        row = []
        for y in range(tm.num_symbols):
            x = tm.get_trans_object(y, s)
            row.append(None if x.condition == TM.UNDEFINED else (int(x.symbol_out), 1 if int(x.dir_out) == 1 else -1, -1 if x.condition == TM.HALT else int(x.state_out)))
        t.append(row)
    return tm_text(t)

def tm_text(t):
    def cell(c):
        if c is None: return "---"
        if not fits_text(t): return "(%d,%d,%d)" % c
        return "%d%s%s" % (c[0], "R" if c[1] > 0 else "L", "Z" if c[2] < 0 else chr(65 + c[2]))
    return "_".join("".join(cell(c) for c in row) for row in t)

HUGE = {}      # printed form -> exponent, for numbers kept as formulas; 3^e + c with exponents far apart
def rand_num(rng):
    """A step count or score: plain, beyond 64 bits, beyond the range of floating point, or a formula."""
    k = rng.randrange(9)
    if k == 8:
        e, c = rng.choice([10**5, 10**7, 10**30, 7**50]), rng.choice([0, 5, 17])
        v = Exp_Int.exp_int(3, e) + c
        HUGE[str(v)] = e
        return v
    return [rng.randrange(0, 50), rng.choice([998, 999, 1000, 1001]), rng.randrange(2000, 10**6), rng.randrange(2**62, 2**63), rng.randrange(2**63, 2**90), rng.randrange(2**64),
            2**60 + rng.randrange(6), 10**400 + rng.randrange(6)][k]
def shown(v): return v if isinstance(v, (int, type(None))) else str(v)
def order(v): return (0, v or 0) if isinstance(v, (int, type(None))) else (1, HUGE[v])
def small(v): return isinstance(v, int) and v < 1000

class Rec:
    """A record with its intended content, kept outside the code under test."""
    def __init__(self, rng, big=True):
        self.t = rand_tm(rng, big)
        self.tm = tm_text(self.t)
        self.allow = rng.random() < 0.3
        k = rng.randrange(8)
        self.halt, self.quasi = ("unknown",), ("unknown",)
        if k in (0, 1): pass
        elif k in (2, 3):
            self.steps, self.score = rand_num(rng), rand_num(rng)
            self.halt = ("halt", shown(self.steps), shown(self.score), rng.randrange(2), rng.randrange(2)); self.quasi = ("notquasi",)
        elif k == 4: self.halt = ("halt", None, None, 0, 0); self.quasi = ("notquasi",)
        else:
            self.halt = ("inf", rng.choice(INF))
            self.steps = rand_num(rng)
            self.quasi = [("unknown",), ("notquasi",), ("quasi", shown(self.steps), rng.randrange(2)), ("quasi", None, 0)][rng.randrange(4)]
        self.pad = rng.choice([0, 0, 0, 0, 0, 30, 400, 9000, (1300000 if rng.random() < 0.05 else 70000) if rng.random() < 0.1 else 0]) if big else 0
        self.tail, self.sim = rng.randrange(1000), None
    def build(self):
        r = TM_Record(tm_enum=TM_Enum.TM_Enum(build_tm(self.t), allow_no_halt=self.allow))
        h, q = r.proto.status.halt_status, r.proto.status.quasihalt_status
        if self.halt[0] != "unknown": h.is_decided = True
        if self.halt[0] == "halt":
            h.is_halting = True
            if self.halt[1] is not None: Halting_Lib.set_big_int(h.halt_steps, self.steps)
            if self.halt[2] is not None: Halting_Lib.set_big_int(h.halt_score, self.score)
            h.from_state, h.from_symbol = self.halt[3], self.halt[4]
        elif self.halt[0] == "inf": h.inf_reason = self.halt[1]
        if self.quasi[0] != "unknown": q.is_decided = True
        if self.quasi[0] == "quasi":
            q.is_quasihalting = True
            if self.quasi[1] is not None: Halting_Lib.set_big_int(q.quasihalt_steps, self.steps)
            q.quasihalt_state = self.quasi[2]
        r.proto.elapsed_time_us = self.tail
        r.proto.filter.simulator.result.log10_num_steps = 1 + self.tail % 5
        if self.sim:
            x = r.proto.filter.simulator.parameters
            x.max_loops, x.block_size, x.has_blocksymbol_macro, x.max_tape_blocks = self.sim
        if self.pad: r.proto.filter.simulator.result.unknown_info.over_steps_in_macro.macro_symbol = "x" * self.pad
        return r
    def key(self): return (self.tm, self.allow, self.halt, self.quasi, self.tail, self.pad)
    def category(self):
        if self.halt[0] == "unknown": return "unknown"
        if self.halt[0] == "halt": return "halt.unk" if self.halt[1] is None else "halt.small" if small(self.halt[1]) else "halt.large"
        if self.quasi[0] == "quasi": return "qhalt.unk" if self.quasi[1] is None else "qhalt.small" if small(self.quasi[1]) else "qhalt.large"
        return "infinite"

def key_of(r):
    h, q = verdict(r.proto)
    p = r.proto.filter.simulator.result.unknown_info
    pad = len(p.over_steps_in_macro.macro_symbol) if p.WhichOneof("reason") == "over_steps_in_macro" else 0
    return (tm_str(r), bool(r.tm_enum().allow_no_halt), h, q, r.proto.elapsed_time_us, pad)

def frames(data):
    """Independent framing: (complete payloads, offset behind each, clean end?)."""
    out, ends, i = [], [], 0
    while i + 4 <= len(data):
        n = struct.unpack("<L", data[i:i + 4])[0]
        if i + 4 + n > len(data): return out, ends, False
        out.append(data[i + 4:i + 4 + n]); i += 4 + n; ends.append(i)
    return out, ends, i == len(data)

def gunzip(data):
    """(decompressible bytes, stream complete?)"""
    out = b""
    while data:
        d = zlib.decompressobj(31)
        try: out += d.decompress(data) + d.flush()
        except zlib.error: return out, False
        if not d.eof: return out, False
        data = d.unused_data
    return out, True

def content(name, data):
    return gunzip(data) if name.endswith(".gz") else (data, True)

def draw_records(src, big=True, lo=0, hi=24):
    n = src.int(lo, hi, "records")
    if src.chance(0.02, "many records"): n = src.int(100, 600, "how many")
    rng = random.Random(src.subseed("content"))
    recs = [Rec(rng, big) for _ in range(n)]
    if recs and src.chance(0.2, "repeats"):
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(recs))
            recs.insert(i + 1 if rng.random() < 0.7 else rng.randrange(len(recs) + 1), recs[i])
    return recs

def read_until_error(path):
    got, err = [], None
    try:
        with IO.Reader(path) as r:
            for x in r: got.append(key_of(x))
    except Exception as e: err = e
    return got, err

# ------------------------------------------------------------------------------ C08

def check_file(src, path, truth, who):
    """Reads a possibly torn file and judges it against the exact content."""
    data = open(path, "rb").read()
    raw, whole = content(path, data)
    payload, ends, clean = frames(raw)
    clean = clean and whole
    want = [t.key() for t in truth[:len(payload)]]
    if len(payload) > len(truth): raise Violation("invented", "%s: file holds %d records, only %d were written" % (who, len(payload), len(truth)))
    got, err = read_until_error(path)
    src.ev(len(payload), clean, len(got), type(err).__name__)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Violation("wrong-prefix", "%s: read %d records, file holds %d complete ones; first difference at %d: read %r, written %r" % (
            who, len(got), len(want), i, got[i:i + 1], want[i:i + 1]))
    if clean and err is not None: raise Violation("false-error", "%s: complete file, reading failed: %r" % (who, err))
    if not clean and err is None: raise Violation("silent-tear", "%s: file is cut inside a record (%d complete, %d bytes) but reading ended normally" % (who, len(want), len(data)))
    # skipping must agree with reading
    n, err = 0, None
    try:
        with IO.Reader(path) as r:
            while r.skip_record(): n += 1
    except Exception as e: err = e
    if n != len(want): raise Violation("wrong-count", "%s: skipping counted %d records, file holds %d complete ones" % (who, n, len(want)))
    if (err is None) != clean: raise Violation("silent-tear" if err is None else "false-error", "%s: skipping to the end: %r" % (who, err))
    for i in sorted({0, max(0, len(want) - 1), len(want), src.choose(len(want) + 2, "load")}):
        try: r = key_of(IO.Proto.load_record(path, i))
        except Exception as e:
            if i < len(want): raise Violation("not-found", "%s: record %d of %d cannot be loaded: %r" % (who, i, len(want), e))
            continue
        if i >= len(want): raise Violation("invented", "%s: load of record %d succeeded, file holds %d" % (who, i, len(want)))
        if r != want[i]: raise Violation("wrong-record", "%s: load of record %d gave %r, written %r" % (who, i, r, want[i]))

def c08_file(src):
    truth = draw_records(src, 2)
    gz = src.chance(0.3, "gz")
    name = src.pick(["r.pb", "some.pb", "r.0.pb"], "name") + (".gz" if gz else "")
    flush_p = src.pick([0.2, 0.0, 0.7], "flush rate")
    with scratch() as d:
        path = os.path.join(d, name)
        D = disk.Disk(d)
        D.bufsize = src.pick([8192, 512, 64, 16], "buffer")
        killer = src.weighted([2, 4, 3], "kill")          # none, at a disk operation, between records
        at = src.choose(60, "kill at op") if killer == 1 else -1
        part = src.pick([0, 1, 3, 10**9, 5, 200], "bytes of the last write") if killer == 1 else 0
        if killer == 1: D.plan = lambda i, kind, n, size: ("kill", part) if i == at else None
        stop = src.choose(len(truth) + 1, "kill between") if killer == 2 else None
        flushed = written = 0
        closed = False
        try:
            with D:
                with IO.Proto.Writer(path) as w:
                    for i, t in enumerate(truth):
                        if stop == i: D.freeze(); raise disk.Killed()
                        w.write_record(t.build())
                        written += 1
                        if src.chance(flush_p, "flush"):
                            w.flush(); flushed = written
                    if stop == len(truth): D.freeze(); raise disk.Killed()
                closed = True
        except disk.Killed: src.fault("kill")
        except Exception as e:
            raise Violation("write-failed", "writing %d records without disk errors failed: %r" % (len(truth), e))
        if closed: flushed = len(truth)
        if not os.path.exists(path): return src.ev("no file")
        data = open(path, "rb").read()
        src.count["records"] += written; src.count["bytes"] += len(data)
        have = len(frames(content(name, data)[0])[0])
        if have < flushed: raise Violation("lost-after-flush", "%d records were written before a completed %s, only %d are on disk (gz=%s)" % (flushed, "close" if closed else "flush", have, gz))
        check_file(src, path, truth, "after kill" if not closed else "complete file")
        # tear the file at further points
        for _ in range(6):
            ends = [0] + frames(content(name, data)[0])[1]
            if gz or src.chance(0.5, "anywhere"): cut = src.choose(len(data) + 1, "cut")
            else: cut = min(len(data), max(0, src.pick(ends, "cut near") + src.pick([0, 1, -1, 3, 4, 5, 2], "cut offset")))
            with open(path, "wb") as f: f.write(data[:cut])
            src.fault("torn_file")
            check_file(src, path, truth, "cut at byte %d of %d" % (cut, len(data)))
        src.interesting = True

def c08_enum(src):
    """Kill a whole enumeration at a disk operation; saved records survive."""
    cfg = c_enum.Config(src, small=True)
    cfg.opts = [o for o in cfg.opts if not o.startswith("--time")] + ["--time=0"]
    freq = src.pick([3, 1, 10, 40], "save freq")
    gz = src.chance(0.25, "gz")
    CLOCK.fn = lambda n: 1e9 if not n.endswith("_ns") else 10**18
    try:
        with scratch() as d:
            D = disk.Disk(d)
            D.bufsize = src.pick([8192, 256, 4096], "buffer")
            out = os.path.join(d, "o.pb" + (".gz" if gz else ""))
            args = cfg.args + cfg.opts + ["--outfile=" + out, "--save-freq=%d" % freq] + (["--no-output"] if src.chance(0.25, "no output") else [])
            if cfg.infile: cfg.write_roots(os.path.join(d, "in.pb")); args.append("--infile=" + os.path.join(d, "in.pb"))
            src.phase("baseline")
            with D: ok, _ = env.run_main(Enumerate.main, list(args))
            src.phase("faults")
            if not ok: raise Violation("failed", "enumeration failed without faults")
            want = [(tm_str(r), verdict(r.proto)) for r in env.read_all(out)]
            nops = len(D.ops)
            if len(want) > 800: return
            for trial in range(5):
                if os.path.exists(out): os.unlink(out)
                D = disk.Disk(d); D.bufsize = 8192 if trial % 2 == 0 else 256
                at, part = src.choose(max(nops, 1), "kill at op"), src.pick([0, 10**9, 1, 37, 1000], "bytes of the last write")
                D.plan = lambda i, kind, n, size: ("kill", part) if i == at else None
                printed, written = io.StringIO(), [0]
                real_write = IO.Proto.Writer.write_record
                def count(self, *a, **k):
                    r = real_write(self, *a, **k); written[0] += 1
                    return r
                IO.Proto.Writer.write_record = count
                o, e = sys.stdout, sys.stderr
                sys.stdout, sys.stderr = printed, io.StringIO()
                killed = False
                try:
                    with D: Enumerate.main(list(args))
                except disk.Killed: killed = True; src.fault("kill")
                except Exception as ex: raise Violation("failed", "enumeration failed on a healthy disk: %r" % ex)
                finally: sys.stdout, sys.stderr = o, e; IO.Proto.Writer.write_record = real_write
                if not os.path.exists(out): continue
                saved = 0
                for m in re.finditer(r"^([\d_]+) - halt", printed.getvalue(), re.M): saved = int(m.group(1).replace("_", ""))
                raw, whole = content(out, open(out, "rb").read())
                pay, _, clean = frames(raw)
                got, err = [], None
                try:
                    with IO.Reader(out) as r:
                        for x in r: got.append((tm_str(x), verdict(x.proto)))
                except Exception as ex: err = ex
                src.ev(at, saved, len(got), clean)
                if got != want[:len(pay)]: raise Violation("wrong-prefix", "after a kill the output holds %d records, %d were read back, not the first ones of the full run" % (len(pay), len(got)))
                if len(got) < saved: raise Violation("lost-after-save", "the run reported %d machines saved; after a kill only %d are in the file" % (saved, len(got)))
                if len(got) < written[0] - freq: raise Violation("lost-after-save", "%d machines were written, with a save every %d; after a kill only %d are in the file" % (written[0], freq, len(got)))
                if err is None and not (clean and whole): raise Violation("silent-tear", "torn output read without an error")
                if not killed and len(got) != len(want): raise Violation("incomplete", "enumeration ended normally with %d of %d records" % (len(got), len(want)))
            src.count["machines"] += len(want)
            src.interesting = True
    finally: CLOCK.fn = None

# ------------------------------------------------------------------------------ tools

def run_tool(name, argv, stdin=""):
    """Runs a tool as __main__ in this process. (ok, stdout, stderr, exception)"""
    o = sys.stdout, sys.stderr, sys.argv, sys.stdin
    sys.stdout, sys.stderr, sys.argv, sys.stdin = io.StringIO(), io.StringIO(), [name] + [str(a) for a in argv], io.StringIO(stdin)
    ok, exc = True, None
    try:
        try: runpy.run_path((TOOLS if name == "venn_diff" else CODE) + name + ".py", run_name="__main__")
        except SystemExit as e: ok = e.code in (0, None)
        except disk.Killed: raise
        except Exception as e: ok, exc = False, e
        return ok, sys.stdout.getvalue(), sys.stderr.getvalue(), exc
    finally: sys.stdout, sys.stderr, sys.argv, sys.stdin = o

def write_pb(path, recs):
    """Writes records without the code under test's writer."""
    b = b"".join(struct.pack("<L", len(p)) + p for p in (r.build().proto.SerializeToString() for r in recs))
    if path.endswith(".gz"):
        f = io.BytesIO()
        with gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as g: g.write(b)
        b = f.getvalue()
    with open(path, "wb") as f: f.write(b)
    return b

def write_txt(path, recs):
    b = "".join(r.tm + "\n" for r in recs).encode()
    if path.endswith(".gz"): b = gzip.compress(b, mtime=0)
    with open(path, "wb") as f: f.write(b)

def bbc_bytes(t):
    out = b""
    for s in range(5):
        for y in range(2):
            c = t[s][y]
            out += bytes([0, 0, 0]) if c is None else bytes([c[0], 0 if c[1] > 0 else 1, 0 if c[2] < 0 else c[2] + 1])
    return out
def rand_bbc(rng):
    t = [[None if rng.random() < 0.05 else (rng.randrange(2), rng.choice([-1, 1]), rng.randrange(5)) for _ in range(2)] for _ in range(5)]
    t[0][0] = (1, 1, 1); t[rng.randrange(1, 5)][rng.randrange(2)] = None
    return t
def write_bbc(path, tms, cut=0):
    b = bytes(30) + b"".join(bbc_bytes(t) for t in tms)
    with zipfile.ZipFile(path, "w") as z: z.writestr("seed.db", b[:len(b) - cut])

class Use:
    """One invocation of a tool: argv, inputs, outputs, judge for complete runs."""
    def __init__(self, tool, argv, outs, inputs, judge=None, stdin=""):
        self.tool, self.argv, self.outs, self.inputs, self.judge, self.stdin = tool, argv, outs, inputs, judge, stdin
        self.refuse = False       # the target format cannot hold the input
        self.complete = None      # damaged input: the machines that are complete in it

def keys(path): return [key_of(r) for r in env.read_all(path)]
def mult(xs): return collections.Counter(xs)
def ints(s): return int(s.replace("_", ""))
MORE = ["venn_diff", "Random_Sample", "Re_Sim", "Find_Record", "Read_Record", "Morphett", "OldText"]
MODES = MORE + ["IO_Convert", "IO_Categorize", "IO_Sort", "IO_Sample", "IO_Count", "Zero_Reflexive", "TM_Analyze", "Reverse_Engineer_Filter", "CTL_Filter", "CPS_Filter", "Count", "BBC", "Find", "Enumerate"]

def filter_judge(name, recs, out, keep):
    """A filter keeps machines and order; a verdict stays or becomes infinite."""
    def judge(stdout, n):
        got = keys(out)
        if [g[0] for g in got] != [r.tm for r in recs[:n]]: raise Violation("not-conserved", "%s: machines out differ from machines in (%d in, %d out)" % (name, n, len(got)))
        for g, r in zip(got, recs):
            if g[2] != (r.halt if keep else ("unknown",)) and g[2][0] != "inf": raise Violation("altered", "%s: %s had verdict %r, came out as %r" % (name, r.tm, r.halt, g[2]))
            if g[2][0] == "inf" and r.halt[0] != "inf":
                if ref.run(ref.parse(r.tm), 400)[0] == "halt": raise Violation("altered", "%s: %s halts but was marked infinite" % (name, r.tm))
    return judge

def make_use(src, d, tools, huge=False):
    tool = src.pick(tools, "tool")
    j = lambda n: os.path.join(d, n)
    ext = src.pick([".pb", ".pb.gz"], "ext") if src.chance(0.35, "gz?") else ".pb"
    rng = random.Random(src.subseed("use"))
    if tool == "BBC":
        tms = [rand_bbc(rng) for _ in range(src.int(1, 12, "records"))]
        cut = src.int(1, 29, "cut") if huge and src.chance(0.2, "last machine cut off") else 0
        write_bbc(j("seed.db.zip"), tms, cut)
        k = src.choose(3, "index")
        o = j(src.pick(["o.pb", "o.txt"], "out"))
        if k == 0: idx = list(range(len(tms))); args = [j("seed.db.zip"), o]; ins = ["seed.db.zip"]
        else:
            idx = [rng.randrange(len(tms)) for _ in range(rng.randrange(1, 9))]
            n = "sel.index" if k == 1 else "sel.txt.index"
            with open(j(n), "wb") as f: f.write(b"".join(struct.pack(">L", i) for i in idx) if k == 1 else "".join("%d\n" % i for i in idx).encode())
            args = [j(n), o, "--bbc-seed-db", j("seed.db.zip")]; ins = [n, "seed.db.zip"]
        bad = cut and len(tms) - 1 in idx                       # the damaged machine is asked for
        if bad: idx = idx[:idx.index(len(tms) - 1)]
        elif k == 1 and huge and src.chance(0.2, "index cut off"):
            os.truncate(j(n), 4 * len(idx) - src.int(1, 3, "cut")); idx = idx[:-1]; bad = True
        want = [tm_text(tms[i]) for i in idx]
        def judge(stdout, n):
            got = [tm_str(r) for r in env.read_all(o)]
            if got != want: raise Violation("not-conserved", "conversion of %d bbchallenge machines gave %d, different from the input" % (len(want), len(got)))
        u = Use("IO_Convert", args, [os.path.basename(o)], ins, judge)
        if bad: u.complete = want; src.fault("torn_file")
        return u, None
    if tool == "venn_diff":
        pool = list(dict.fromkeys(tm_text(rand_tm(rng, False)) for _ in range(src.int(0, 40, "lines"))))
        L = [x for x in pool if rng.random() < 0.6]; R = [x for x in pool if rng.random() < 0.6]
        rng.shuffle(R)
        if R and src.chance(0.3, "repeated line"): R.insert(rng.randrange(len(R) + 1), rng.choice(R))
        for n, x in (("l.txt", L), ("r.txt", R)):
            with open(j(n), "w") as f: f.write("".join(a + "\n" for a in x))
        def judge(stdout, n):
            got = [open(j(f)).read().split("\n")[:-1] for f in ("both.txt", "lo.txt", "ro.txt")]
            want = [[x for x in R if x in L], [x for x in L if x not in R], [x for x in R if x not in L]]
            for g, w, what in zip(got, want, ("common", "left only", "right only")):
                if g != w: raise Violation("not-partitioned", "%s lines: %d, %d belong there, in order" % (what, len(g), len(w)))
        return Use(tool, [j(f) for f in ("l.txt", "r.txt", "both.txt", "lo.txt", "ro.txt")], ["both.txt", "lo.txt", "ro.txt"], ["l.txt", "r.txt"], judge), None
    if tool == "Random_Sample":
        lines = [tm_text(rand_tm(rng, False)) for _ in range(src.int(0, 40, "lines"))]
        k = src.choose(len(lines) // 2 + 1, "sample size")
        with open(j("l.txt"), "w") as f: f.write("".join(a + "\n" for a in lines))
        def judge(stdout, n):
            got = open(j("l.txt.sample")).read().split("\n")[:-1]
            if len(got) != k: raise Violation("wrong-size", "sample of %d from %d lines has %d" % (k, len(lines), len(got)))
            it = iter(lines)
            if not all(x in it for x in got): raise Violation("not-conserved", "sample is not made of distinct lines of the input in order")
        return Use(tool, [j("l.txt"), len(lines), k], ["l.txt.sample"], ["l.txt"], judge), None
    recs = draw_records(src, 2, hi=16) if tool == "IO_Convert" and huge and src.chance(0.25, "huge machines") else draw_records(src, big=tool not in ("Reverse_Engineer_Filter", "CTL_Filter", "CPS_Filter", "Enumerate", "Re_Sim"), lo=0, hi=16)
    if tool == "IO_Convert":
        a, b = src.pick([("pb", "txt"), ("pb", "pb"), ("txt", "pb"), ("txt", "txt")], "formats")
        gi, go = src.chance(0.3, "gz in"), src.chance(0.3, "gz out")
        i, o = j("i." + a + (".gz" if gi else "")), j("o." + b + (".gz" if go else ""))
        if a == "txt": recs = [r for r in recs if fits_text(r.t)]
        (write_pb if a == "pb" else write_txt)(i, recs)
        def judge(stdout, n):
            if b == "pb" and a == "pb": got, want = keys(o), [r.key() for r in recs[:n]]
            elif b == "pb": got, want = [tm_str(r) for r in env.read_all(o)], [r.tm for r in recs[:n]]
            else:
                raw = content(o, open(o, "rb").read())[0].decode()
                lines = raw.split("\n")
                if lines[-1] != "": raise Violation("not-conserved", "text output does not end with a complete line")
                lines = lines[:-1]
                got = [l.split(" ")[0] for l in lines]; want = [r.tm for r in recs[:n]]
                if a == "pb":
                    got = [(g, " Halt" in l) for g, l in zip(got, lines)]; want = [(r.tm, r.halt[0] == "halt") for r in recs[:n]]
                    for l, r in zip(lines, recs):
                        m = re.search(r" Halt (\S+) (\S+)$", l)
                        if m and r.halt[0] == "halt" and isinstance(r.halt[1], int) and isinstance(r.halt[2], int) and r.halt[1] < 10**10 and r.halt[2] < 10**10 and m.groups() != (str(r.halt[1]), str(r.halt[2])):
                            raise Violation("altered", "halting record %r printed as %r" % (r.key(), l))
            if got != want: raise Violation("not-conserved", "conversion %s to %s changed the sequence: %d in, %d out" % (a, b, len(want), len(got)))
        return Use("IO_Convert", [i, o], [os.path.basename(o)], [os.path.basename(i)], judge), recs
    if tool == "IO_Categorize":
        cut = src.choose(len(recs) + 1, "split"); parts = [recs[:cut], recs[cut:]]
        for k in (0, 1): write_pb(j("i%d%s" % (k, ext)), parts[k])
        os.mkdir(j("out"))
        cats = ["halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"]
        def judge(stdout, n):
            seen = parts[0][:n[0]] + parts[1][:n[1]]
            for c in cats:
                got, want = keys(j("out/%s.pb" % c)), [r.key() for r in seen if r.category() == c]
                if got != want: raise Violation("not-partitioned", "category %s holds %d records, %d belong there (of %d read)" % (c, len(got), len(want), len(seen)))
        judge.parts = True
        return Use(tool, [j("i0" + ext), j("i1" + ext), "--out-dir", j("out")], ["out/%s.pb" % c for c in cats], ["i0" + ext, "i1" + ext], judge), parts
    if tool == "IO_Sort":
        write_pb(j("i" + ext), recs)
        def judge(stdout, n):
            got, want = keys(j("o.pb")), [r.key() for r in recs[:n]]
            if mult(got) != mult(want): raise Violation("not-conserved", "sorted %d records into %d, not a permutation" % (len(want), len(got)))
            sc = [order(g[2][2] if g[2][0] == "halt" else 0) for g in got]
            if any(a < b for a, b in zip(sc, sc[1:])): raise Violation("not-sorted", "scores not in descending order: %r" % sc)
        return Use(tool, [j("i" + ext), j("o.pb")], ["o.pb"], ["i" + ext], judge), recs
    if tool == "IO_Sample":
        cut = src.choose(len(recs) + 1, "split")
        write_pb(j("i0" + ext), recs[:cut]); write_pb(j("i1" + ext), recs[cut:])
        size = src.pick([5, 1, 3, 100], "sample size")
        def judge(stdout, n, total=None):
            got, want = keys(j("o.pb")), [r.key() for r in recs]
            if isinstance(n, tuple): want = [r.key() for r in recs[:cut][:n[0]] + recs[cut:][:n[1]]]
            if len(got) != min(size, len(want)): raise Violation("wrong-size", "sample of %d from %d readable records has %d" % (size, len(want), len(got)))
            if mult(got) - mult(want): raise Violation("not-conserved", "sample holds records that are not (or not that often) in the readable input")
        judge.parts = True
        return Use(tool, [j("i0" + ext), j("i1" + ext), "--out-file", j("o.pb"), "-n", size], ["o.pb"], ["i0" + ext, "i1" + ext], judge), [recs[:cut], recs[cut:]]
    if tool == "IO_Count":
        cut = src.choose(len(recs) + 1, "split")
        write_pb(j("i0" + ext), recs[:cut]); write_pb(j("i1" + ext), recs[cut:])
        def judge(stdout, n):
            m = re.search(r"Total # TMs: ([\d_]+)", stdout)
            want = sum(n) if isinstance(n, tuple) else len(recs)
            if not m or ints(m.group(1)) != want: raise Violation("wrong-count", "counted %s, files hold %d complete records" % (m and m.group(1), want))
        judge.parts = True
        return Use(tool, [j("i0" + ext), j("i1" + ext)], [], ["i0" + ext, "i1" + ext], judge), [recs[:cut], recs[cut:]]
    if tool == "TM_Analyze":
        write_pb(j("i" + ext), recs)
        def judge(stdout, n):
            if n == 0: return
            c = mult(r.halt[0] for r in recs[:n])
            got = [ints(m.group(1)) if m else None for m in (re.search(r"^%s: ([\d_]+)" % w, stdout, re.M) for w in ("Total", "Unknown", "Halt", "Infinite"))]
            if got != [n, c["unknown"], c["halt"], c["inf"]]: raise Violation("wrong-count", "statistics %r for a file with %d records, %r" % (got, n, dict(c)))
        return Use(tool, [j("i" + ext)], [], ["i" + ext], judge), recs
    if tool == "Zero_Reflexive":
        recs = recs or draw_records(src, lo=1, hi=3)
        write_pb(j("i" + ext), recs)
        def judge(stdout, n):
            a, b = keys(j("zr.pb")), keys(j("nzr.pb"))
            want = [r.key() for r in recs[:n]]
            if mult(a) + mult(b) != mult(want): raise Violation("not-partitioned", "%d + %d records from %d" % (len(a), len(b), len(want)))
            for part in (a, b):
                it = iter(want)
                if not all(x in it for x in part): raise Violation("not-partitioned", "order of the input not kept")
        return Use(tool, [j("i" + ext), j("zr.pb"), j("nzr.pb")], ["zr.pb", "nzr.pb"], ["i" + ext], judge), recs
    if tool in ("Reverse_Engineer_Filter", "CTL_Filter", "CPS_Filter"):
        write_pb(j("i" + ext), recs)
        o = j("o.pb" + (".gz" if src.chance(0.2, "gz out") else ""))
        args = ["--infile", j("i" + ext), "--outfile", o]
        if tool == "CTL_Filter": args += ["--type", src.pick(["CTL2", "CTL1", "CTL3", "CTL4"], "type"), "--block-size", src.pick([1, 2], "bs"), "--cutoff", "20"]
        if tool == "CPS_Filter": args += ["--block-size", "1", "--max-steps", "200", "--max-iters", "30", "--max-configs", "200", "--max-edges", "200"]
        return Use(tool, args, [os.path.basename(o)], ["i" + ext], filter_judge(tool, recs, o, tool != "CPS_Filter")), recs
    if tool == "Re_Sim":
        for r in recs: r.sim = (rng.choice([1, 20, 100, 300]), rng.choice([1, 1, 2, 3]), rng.random() < 0.5, rng.choice([0, 50]))
        write_pb(j("i" + ext), recs)
        def judge(stdout, n):
            got = keys(j("o.pb"))
            if [g[0] for g in got] != [r.tm for r in recs[:n]]: raise Violation("not-conserved", "Re_Sim: machines out differ from machines in (%d in, %d out)" % (n, len(got)))
            for g in got:
                r = ref.run(ref.parse(g[0]), 400)
                if r[0] == "halt" and g[2][0] == "inf" or g[2][0] == "halt" and (g[2][1:3] != tuple(r[1:3]) if r[0] == "halt" else isinstance(g[2][1], int) and g[2][1] <= 400):
                    raise Violation("altered", "Re_Sim: %s recorded as %r, direct simulation %r" % (g[0], g[2], r))
        return Use(tool, [j("i" + ext), j("o.pb")], ["o.pb"], ["i" + ext], judge), recs
    if tool == "Find_Record":
        txt = src.chance(0.3, "text")
        recs = [r for r in recs if packs(r.t)]
        f = "i.txt" if txt else "i" + ext
        (write_txt if txt else write_pb)(j(f), recs)
        want = src.pick([r.tm for r in recs] + ["1RB---_1LA---"], "wanted")
        def judge(stdout, n):
            at = [r.tm for r in recs[:n]].index(want) if want in [r.tm for r in recs[:n]] else None
            if at is None and stdout.strip(): raise Violation("invented", "%s is not in the file but was reported" % want)
            if at is not None and (stdout.split("\n")[0] != str(at) or "ttable: " + want not in stdout): raise Violation("not-found", "%s is record %d, reported %r" % (want, at, stdout[:60]))
        return Use(tool, [want, j(f)], [], [f], judge), recs
    if tool == "Read_Record":
        if not huge: recs = recs or draw_records(src, lo=1, hi=3)
        write_pb(j("i" + ext), recs)
        at = src.choose(len(recs) + 2, "record") if huge or not recs else src.choose(len(recs), "record")
        def judge(stdout, n):
            if at >= n: raise Violation("invented", "record %d was read, the file holds %d" % (at, n))
            shown = re.search(r"^ttable: (.*)$", stdout, re.M)
            if not shown or fits_text(recs[at].t) and shown.group(1) != recs[at].tm: raise Violation("wrong-record", "record %d is %s, printed %s" % (at, recs[at].tm, shown and shown.group(1)))
            if "elapsed_time_us: %d\n" % recs[at].tail not in stdout and recs[at].tail: raise Violation("wrong-record", "record %d printed without its content" % at)
        u = Use(tool, [j("i" + ext), at], [], ["i" + ext], judge)
        u.at = at
        return u, recs
    if tool == "Morphett":
        one = rand_tm(rng, False)
        back = src.chance(0.5, "read")
        for row in one:
            for y, c in enumerate(row):
                if c is None and back: row[y] = (1, 1, -1)      # names are numbered as they appear
        gz = ".gz" if src.chance(0.3, "gz") else ""
        st, sy = (lambda i: str(i)), (lambda i: "_" if i == 0 else str(i))
        lines = ["%s %s %s %s %s" % (st(s), sy(y), sy(c[0]), "r" if c[1] > 0 else "l", "halt" if c[2] < 0 else st(c[2])) for s, row in enumerate(one) for y, c in enumerate(row) if c is not None]
        if back:
            b = "".join(l + "\n" for l in lines).encode()
            with open(j("i.morphett" + gz), "wb") as f: f.write(gzip.compress(b, mtime=0) if gz else b)
            o = src.pick(["o.pb", "o.txt"], "out")
            def judge(stdout, n):
                got = [tm_str(r) for r in env.read_all(j(o))]
                if got != [tm_text(one)]: raise Violation("not-conserved", "%s read from Morphett's format as %r" % (tm_text(one), got))
            return Use("IO_Convert", [j("i.morphett" + gz), j(o)], [o], ["i.morphett" + gz], judge), None
        several = huge and src.chance(0.3, "several")       # the format holds one machine
        with open(j("i.txt"), "w") as f: f.write((tm_text(one) + "\n") * (1 + several))
        def judge(stdout, n):
            got = content("o" + gz, open(j("o.morphett" + gz), "rb").read())[0].decode().split("\n")
            if [l.strip() for l in got if l.strip()] != lines: raise Violation("not-conserved", "%s written in Morphett's format as %r" % (tm_text(one), got))
        u = Use("IO_Convert", [j("i.txt"), j("o.morphett" + gz)], ["o.morphett" + gz], ["i.txt"], judge)
        u.refuse = several
        return u, None
    if tool == "OldText":
        plain = lambda v: isinstance(v[1], int) and isinstance(v[2], int)      # others are refused, as are larger machines
        recs = [r for r in recs if packs(r.t) and (r.halt[0] != "halt" or plain(r.halt)) and (r.quasi[0] != "quasi" or plain(r.quasi))]
        a = src.pick(["pb", "txt"], "in")
        i = "i.txt" if a == "txt" else "i" + ext
        (write_txt if a == "txt" else write_pb)(j(i), recs)
        def judge(stdout, n):
            got = [l.split(" | ") for l in open(j("o.old")).read().split("\n")[:-1]]
            want = ["  ".join(" ".join("---" if c is None else "%d%s%s" % (c[0], "R" if c[1] > 0 else "L", "Z" if c[2] < 0 else chr(65 + c[2])) for c in row) for row in r.t) for r in recs[:n]]
            if [g[0] for g in got] != want: raise Violation("not-conserved", "conversion to the old text format changed the sequence: %d in, %d out" % (len(want), len(got)))
            for g, r in zip(got, recs):
                w = {"unknown": "Unknown", "halt": "Halt", "inf": "Infinite"}[r.halt[0] if a == "pb" else "unknown"]
                if " %s" % w not in " " + g[1]: raise Violation("altered", "verdict %r printed as %r" % (r.halt, g[1]))
        return Use("IO_Convert", [j(i), j("o.old")], ["o.old"], [i], judge), recs
    if tool == "Count":
        write_pb(j("i" + ext), recs)
        return Use(tool, [j("i" + ext)], [], ["i" + ext]), recs
    if tool == "Find":
        write_pb(j("i" + ext), recs)
        want = src.pick([r.tm for r in recs] or ["1RB---_1LA---"], "wanted")
        def judge(stdout, n):
            hit = want in [r.tm for r in recs[:n]]
            if hit and "ttable: " + want not in stdout: raise Violation("not-found", "%s is in the file but was not found" % want)
            if not hit and "ttable: " in stdout: raise Violation("invented", "%s is not in the file but was reported" % want)
        return Use("IO_Find", [want, j("i" + ext)], [], ["i" + ext], judge), recs
    if tool == "Enumerate":
        cfg = c_enum.Config(src, small=True)
        o = j("o.pb" + (".gz" if src.chance(0.2, "gz out") else ""))
        args = cfg.args + [x for x in cfg.opts if not x.startswith("--time")] + ["--time=0", "--outfile=" + o, "--save-freq=%d" % src.pick([7, 1, 100000], "save freq")]
        ins = []
        if cfg.infile: cfg.write_roots(j("in.pb")); args.append("--infile=" + j("in.pb")); ins = ["in.pb"]
        return Use(tool, args, [os.path.basename(o)], ins), None
    raise HarnessError(tool)

def frozen(n): return 10**18 if n.endswith("_ns") else 1e9

WRITE_ERRS = [errno.ENOSPC, errno.EIO, errno.EDQUOT]
def c09(src):
    CLOCK.fn = frozen
    try:
        with scratch() as top:
            d = os.path.join(top, "d"); os.mkdir(d)
            use, _ = make_use(src, d, MODES)
            src.note.update(tool=use.tool, argv=[str(a) for a in use.argv])
            before = disk.Disk(d).snapshot()
            bs = src.pick([8192, 64, 512], "buffer")
            seed = src.subseed("tool randomness")
            def go(plan):
                for f in disk.Disk(d).snapshot():
                    if f not in before: os.unlink(os.path.join(d, f))
                D = disk.Disk(d); D.bufsize = bs; D.plan = plan
                random.seed(seed)
                with D: r = run_tool(use.tool, use.argv, use.stdin)
                return D, r
            D0, r0 = go(None)
            if not r0[0]:
                raise Violation("failed", "%s failed on a healthy disk: %r %s" % (use.tool, r0[3], r0[2][-300:]))
            full = {f: b for f, b in D0.snapshot().items() if f not in before}
            ops = collections.defaultdict(list)
            for i, (k, n) in enumerate(D0.ops): ops[k].append(i)
            src.count["ops"] += len(D0.ops)
            for trial in range(6):
                kind = src.pick(sorted(ops), "operation")
                at = src.pick(ops[kind], "which")
                part = src.pick([0, 1, 3, 40, 700], "part")
                if kind == "write": act = src.pick([("full", True, part), ("full", False, part), ("err", errno.EIO), ("err", errno.EDQUOT), ("short", part)], "fault")
                elif kind == "read": act = src.pick([("err", errno.EIO, False), ("err", errno.EIO, True), ("short", part)], "fault")
                elif kind.startswith("close"): act = ("err", errno.EIO)
                else: act = ("err", src.pick([errno.EIO, errno.EMFILE, errno.EACCES, errno.ENOSPC], "errno"))
                name = act[0] + ("" if act[0] != "err" else "_" + errno.errorcode[act[1]])
                hit = []
                def plan(i, k, n, size):
                    if i == at and k == kind: hit.append(n); return act
                D, r = go(plan)
                if not hit: continue
                src.fault("%s@%s" % (name, kind))
                now = {f: b for f, b in D.snapshot().items() if f not in before}
                for f, b in before.items():
                    if D.snapshot().get(f) != b: raise Violation("input-damaged", "%s changed its input file %s" % (use.tool, f))
                who = "%s with %s at operation %d (%s %s)" % (use.tool, name, at, kind, hit[0])
                src.ev(who, r[0], sorted((f, len(b)) for f, b in now.items()))
                if r[0]:
                    for f in full:
                        if content(f, now.get(f, b""))[0] != content(f, full[f])[0]:
                            raise Violation("silent-loss", "%s ended normally but %s holds %d of %d bytes" % (who, f, len(now.get(f, b"")), len(full[f])))
                    if not use.outs and r[1] != r0[1]: raise Violation("silent-loss", "%s ended normally with different results: %r instead of %r" % (who, r[1][-200:], r0[1][-200:]))
                else:
                    for f in full:
                        if f in now and not content(f, full[f])[0].startswith(content(f, now[f])[0]):
                            raise Violation("not-a-prefix", "%s failed and left %s which is not a prefix of the complete output" % (who, f))
                src.state(use.tool, kind, name, r[0])
                src.interesting = True
    finally: CLOCK.fn = None

TEARABLE = MORE + ["IO_Categorize", "IO_Convert", "IO_Sort", "IO_Sample", "IO_Count", "Zero_Reflexive", "TM_Analyze", "Reverse_Engineer_Filter", "CTL_Filter", "CPS_Filter", "Count", "BBC", "Find"]
def c14(src):
    CLOCK.fn = frozen
    try:
        with scratch() as d:
            use, recs = make_use(src, d, TEARABLE, True)
            src.note.update(tool=use.tool, argv=[str(a) for a in use.argv])
            outs0 = set(os.listdir(d))
            tear = recs is not None and src.chance(0.55, "tear input") and any(f.endswith((".pb", ".pb.gz")) for f in use.inputs)
            parts = recs if (recs and isinstance(recs[0], list)) else [recs]
            n = tuple(len(p) for p in parts) if recs is not None else None
            torn = []
            if tear:
                k = src.choose(len(use.inputs), "which file")
                path = os.path.join(d, use.inputs[k])
                data = open(path, "rb").read()
                if not path.endswith(".gz") and src.chance(0.6, "near a boundary"):
                    cut = min(len(data), max(0, src.pick([0] + frames(data)[1], "boundary") + src.pick([0, 1, 2, 3, 4, 5, -1, -2], "offset")))
                else: cut = src.choose(len(data) + 1, "cut")
                with open(path, "wb") as f: f.write(data[:cut])
                src.fault("torn_file")
                raw, whole = content(path, data[:cut])
                pay, _, clean = frames(raw)
                n = n[:k] + (len(pay),) + n[k + 1:]
                if not (clean and whole): torn.append(use.inputs[k])
                src.ev(k, cut, len(pay), clean)
            random.seed(src.subseed("tool randomness"))
            ok, out, err, exc = run_tool(use.tool, use.argv, use.stdin)
            src.ev(use.tool, ok, out.replace(str(d), "") if isinstance(out, str) else out, type(exc).__name__)
            src.interesting = True
            src.count["records"] += sum(n) if n else 0
            who = "%s %s" % (use.tool, "on %s torn" % torn if torn else "")
            if use.refuse:
                if ok: raise Violation("not-refused", "%s %s: several machines written to a format that holds one" % (use.tool, use.argv))
                return
            if use.complete is not None:
                if ok and "ERROR" not in out + err: raise Violation("damage-not-reported", "%s ended normally on a damaged file of bbchallenge machines" % who)
                p = os.path.join(d, use.outs[0])
                got = [] if not os.path.exists(p) else [tm_str(r) for r in env.read_all(p)]
                if got != use.complete[:len(got)]: raise Violation("damage-as-data", "%s left machines that are not complete in the input" % who)
                return
            if not torn:
                if not ok:
                    if use.tool == "Read_Record" and use.at >= sum(n): return
                    if use.tool == "Zero_Reflexive" and sum(n) == 0: return      # nothing to do, prints a ratio
                    if use.tool == "IO_Convert" and recs and ".txt" in use.outs[0] and not all(fits_text(r.t) for r in recs): return   # refused
                    raise Violation("failed", "%s failed on intact input: %r %s" % (who, exc, err[-300:]))
                if use.judge: use.judge(out, n if getattr(use.judge, "parts", False) else (sum(n) if n else None))
                return
            if ok and "ERROR" not in out + err:
                if use.tool in ("IO_Find", "Find_Record", "Read_Record") and "ttable: " in out: return use.judge(out, n[0])
                raise Violation("damage-not-reported", "%s ended normally without reporting the damage" % who)
            if ok:
                # tools that report and go on must use exactly the complete records
                if use.judge: use.judge(out, n if getattr(use.judge, "parts", False) else sum(n))
                return
            # failed: everything written comes from complete records, in order
            good = [r.key() for k, p in enumerate(parts) for r in p[:n[k]]]
            tms = [g[0] for g in good]
            for f in use.outs:
                p = os.path.join(d, f)
                if not os.path.exists(p): continue
                if ".pb" in f:
                    got, _ = read_until_error(p)
                    got = [g[0] for g in got]
                else:
                    raw = content(p, open(p, "rb").read())[0].decode()
                    got = [l.split(" ")[0] if not f.endswith(".old") else l.split(" | ")[0].replace("  ", "_").replace(" ", "") for l in raw.split("\n")[:-1]]
                it = iter(tms)
                if not all(x in it for x in got): raise Violation("damage-as-data", "%s left %s with machines that are not complete input records in order" % (who, f))
    finally: CLOCK.fn = None

COMP = {"real": ["Code/IO/*.py", "Code/Enumerate.py", "the tools run as __main__", "Python's own buffering, text and gzip layers"],
        "stub": ["raw files and directory operations (numbered fault points over a scratch directory)", "clock (frozen)"]}
ASSUME = ["a killed process loses what it had not handed to a raw write; data handed to a completed raw write survives (process kill, not power loss)",
          "bytes of the last write before a kill may reach the disk in part", "text formats carry no framing, so torn input is judged for record files only",
          "compressed files without their trailer count as torn"]
def check(prop):
    if prop == "C08":
        return Check(prop, [Scenario("file", c08_file, 30000, 400000, 60, 1500), Scenario("enum", c08_enum, 6000, 60000, 50, 1200)],
                     "file: random records, flushes, kill at a disk operation or between records, then 6 further cuts; enum: whole enumeration killed at 5 disk operations; non-trivial = at least one kill or cut judged", ASSUME, COMP)
    if prop == "C09":
        return Check(prop, [Scenario("tools", c09, 30000, 200000, 100, 2400)], "tool, inputs and buffer size drawn per run, then 6 faults on drawn disk operations; non-trivial = at least one fault hit", ASSUME, COMP)
    return Check(prop, [Scenario("tools", c14, 120000, 500000, 80, 2400)], "tool, inputs, file format and cut drawn per run; every run is judged", ASSUME, COMP)
