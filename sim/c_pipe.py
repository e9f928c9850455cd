"""C12, C13: the filter pipelines (Tools/*.sh) as simulated process trees:
killed, torn and failing at seeded operations, jobs interleaved and rerun."""
import collections, errno, os, random, shutil, subprocess
import core, ref, ptsim, env, stub_filter, c_disk
from core import Violation, Check, Scenario, HarnessError
from ptsim import System, GO
from env import IO, TM_Record, TM_Enum, io_pb2, verdict
from c_cpp import scratch, write, slurp
REPO = core.REPO
HERE = os.path.dirname(os.path.abspath(__file__))
CATS = ["halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite", "unknown"]

# ------------------------------------------------------------------- lists with known content

def draw_list(src, lo=0, hi=14, big=False):
    """Distinct random machines of mixed sizes, some partly defined."""
    n = src.weighted([6, 1, 1], "length class")
    n = src.int(lo, hi, "machines") if n == 0 else (lo if n == 1 else src.int(30, 90, "machines"))
    rng = random.Random(src.subseed("machines"))
    out = []
    while len(out) < n:
        st, sy = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2)])
        depth = st * sy - 2 - rng.randrange(3)
        s = ref.show(ref.random_node(rng, st, sy, max(0, depth), steps=300))
        if s not in out: out.append(s)
    return out

def records(data):
    """(keys, clean): keys of the complete records of a .pb file's bytes."""
    if data is None: return None, False
    fr, _, clean = c_disk.frames(data)
    out = []
    for f in fr:
        p = io_pb2.TMRecord()
        try: p.ParseFromString(f)
        except Exception: return out, False
        r = TM_Record(proto=p)
        out.append((c_disk.tm_str(r),) + verdict(p))
    return out, clean

def write_list(path, machines):
    with IO.Proto.Writer(path) as w:
        for m in machines: w.write_record(env.make_record(m))

def category(k):
    h, q = k[1], k[2]
    if h[0] == "unknown": return "unknown"
    if h[0] == "halt": return "halt.unk" if h[1] is None else "halt.small" if h[1] < 1000 else "halt.large"
    if q[0] == "quasi": return "qhalt.unk" if q[1] is None else "qhalt.small" if q[1] < 1000 else "qhalt.large"
    return "infinite"

class Filter:
    """A filter command with what it must make of a list."""
    def __init__(self, src, real=0.5):
        self.lose = self.fail = False
        if src.chance(real, "real filter"):
            k = src.choose(5, "filter")
            if k == 0: a = ["CTL_Filter.py", "--type=CTL%d" % src.int(1, 4, "type"), "--max-block-size=%d" % src.int(1, 2, "block"), "--cutoff=%d" % src.pick([20, 50], "cutoff")]
            elif k == 1: a = ["CPS_Filter.py", "--max-block-size=%d" % src.int(1, 2, "block"), "--max-steps=%d" % src.pick([200, 50], "steps"), "--max-iters=50", "--max-configs=200", "--max-edges=200"]
            elif k == 2: a = ["Reverse_Engineer_Filter.py"]
            else: a = ["Enumerate.py", "--max-loops=%d" % src.pick([20, 60], "loops"), "--lin-steps=%d" % src.pick([0, 30], "lin"), "--no-ctl", "--no-reverse-engineer"]
            self.tree = a[0] == "Enumerate.py"
            self.args = [REPO + "/Code/" + a[0]] + a[1:]
            self.salt = None
        else:
            self.tree = False
            self.salt = str(src.choose(1000, "salt"))
            self.args = [HERE + "/stub_filter.py", "--salt", self.salt]
        self.name = os.path.basename(self.args[0]) + " " + " ".join(self.args[1:])

    def outcome(self, machines, d, infile, envv):
        """Records the filter gives for these machines, in order."""
        if self.salt is not None:
            out = []
            for m in machines:
                p = io_pb2.TMRecord()
                stub_filter.decide(m, self.salt, p.status, env.Halting_Lib.set_big_int, io_pb2.INF_CTL)
                out.append((m,) + verdict(p))
            return out
        o = os.path.join(d, "ref.pb")
        if os.path.exists(o): os.unlink(o)
        r = subprocess.run(["python3"] + self.args + ["--infile=" + infile, "--outfile=" + o], env=envv, cwd=d, capture_output=True, text=True)
        if r.returncode: raise Violation("failed", "%s fails on %d machines: %s" % (self.name, len(machines), r.stderr[-400:]))
        got, clean = records(slurp(o))
        if not clean: raise Violation("failed", "%s: unreadable output" % self.name)
        if not self.tree and [g[0] for g in got] != machines:
            raise Violation("filter-loses", "%s: its output does not hold the machines of its input in order" % self.name)
        for g in got:
            t = ref.parse(g[0])
            if g[1][0] == "halt":
                if isinstance(g[1][1], int) and g[1][1] <= 20000:
                    r = ref.run(t, g[1][1])
                    if r[0] != "halt" or r[1] != g[1][1]: raise Violation("false-verdict", "%s: %s: %s, simulation says %s" % (self.name, g[0], g[1], r))
            elif g[1][0] == "inf" and ref.run(t, 2000)[0] == "halt": raise Violation("false-verdict", "%s: %s is said not to halt but does" % (self.name, g[0]))
        return got

class Faults:
    """One seeded fault of a pipeline run, and the schedule."""
    KINDS = ["none", "kill", "torn_write", "kill_process", "io_error", "disk_full", "short_io"]
    def __init__(self, src, span, weights=(2, 3, 2, 2, 2, 1, 1), relevant=None):
        self.src = src
        self.kind = self.KINDS[src.weighted(list(weights), "fault")]
        self.at = src.choose(span, "fault at") if self.kind != "none" else -1
        self.eno = src.pick([errno.ENOSPC, errno.EIO], "errno") if self.kind == "io_error" else 0
        self.frac = src.choose(8, "torn at") if self.kind in ("torn_write", "short_io") else 0
        self.seen, self.what, self.hits = 0, None, 0
        self.relevant = relevant or (lambda o: True)
    def harmful(self): return self.what is not None and self.kind != "short_io"
    def act(self, o):
        k = self.kind
        if k == "none" or (self.what and k not in ("disk_full", "short_io")) or not self.relevant(o): return GO
        fit = {"kill": True, "torn_write": o.op in ("write", "copy") and o.size > 1, "kill_process": True,
               "io_error": o.op in ("open", "read", "write", "copy", "writev", "rename", "unlink", "mkdir", "close"), "disk_full": o.writes(),
               "short_io": o.op in ("write", "read") and o.size > 1}[k]
        self.seen += 1
        if not fit or self.seen <= self.at: return GO
        self.hits += 1
        if self.what is None: self.src.fault(k)
        self.what = self.what or "%s at %s %s" % (k, o.op, o.path)
        if k == "kill": return ("kill",)
        if k == "torn_write": return ("tear", max(1, min(o.size, 65536) * (self.frac + 1) // 9))
        if k == "kill_process": return ("killone", 9)
        if k == "io_error": return ("err", self.eno)
        if k == "disk_full": return ("err", errno.ENOSPC)
        return ("short", max(1, min(o.size, 4096) * (self.frac + 1) // 9))

# ------------------------------------------------------------------------------ C12

def misbehaviour(src, n):
    """Something wrong for the stub filter to do with n machines."""
    how = src.pick(["--lose", "--fail-at", "--twice"], "misbehaviour")
    return [how, str(src.choose(n + (how == "--fail-at"), "which"))]

def c12(src):
    start = draw_list(src)
    runs = src.int(1, 4, "pipeline runs")
    with scratch() as d:
        w = os.path.join(d, "w"); root = os.path.join(w, "data"); os.makedirs(root)
        U = os.path.join(root, "unknown.pb")
        write_list(U, start)
        if src.chance(0.5, "old text list"): write(os.path.join(root, "unknown.txt"), "".join(m + "\n" for m in start))
        E = ptsim.environment(d, 1, BBSIM_CODE=REPO + "/Code")
        old = slurp(U)
        decided = collections.OrderedDict()       # machine -> sub-directory with its record
        last = None
        for k in range(runs):
            f = Filter(src)
            if last and src.chance(0.7, "same directory again"): sub = last
            else: sub = "f%d" % k
            before, _ = records(old)
            ms = [b[0] for b in before]
            infile = os.path.join(d, "ref-in.pb"); shutil.copyfile(U, infile)
            want = f.outcome(ms, d, infile, E)
            rest = [x for x in want if category(x) == "unknown"]
            extra, broken = [], False
            if f.salt is not None and ms and src.chance(0.15, "filter fails"):
                extra = ["--fail-at", str(src.choose(len(ms) + 1, "at"))]; broken = True; src.fault("filter_fails")
            who = "filter.sh %s %s%s" % (sub, f.name, " ".join(extra))
            F = Faults(src, src.pick([40, 15, 150], "span"), relevant=lambda o: o.op == "exec" or o.path.startswith("data/"))
            s = System(w, ["bash", REPO + "/Tools/filter.sh", "data", sub, "python3"] + f.args + extra, env=E, src=src, max_ops=20000)
            st = dict(new=False, check=False)
            def judge(where):
                """The list must be the old or the new one, complete, at this instant."""
                data = slurp(U)
                if not st["new"] and data == old: return
                got, clean = records(data)
                if got is None: raise Violation("list-lost", "%s: %s: the list of undecided machines is gone" % (who, where))
                if clean and [(g[0], g[1]) for g in got] == [(x[0], x[1]) for x in rest] and (rest or before == [] or any(o.prog() for o in s.ops)):
                    if st["new"] is False:
                        if broken: raise Violation("failed-step", "%s: %s: the list was replaced though the filter failed" % (who, where))
                        st["new"] = True
                        # every decided machine is on disk before the list forgets it
                        have = {}
                        for c in CATS:
                            rs, ok = records(slurp(os.path.join(root, sub, c + ".pb")))
                            for r in (rs or []): have.setdefault(r[0], set()).add(c)
                        for x in want:
                            if have.get(x[0]) != {category(x)}:
                                raise Violation("decided-lost", "%s: %s: %s is %s, but it is in %s when the list is replaced" % (who, where, x[0], category(x), have.get(x[0])))
                    return
                if st["new"]: raise Violation("list-damaged", "%s: %s: the new list was damaged after it was published (%d of %d machines readable)" % (who, where, len(got), len(rest)))
                raise Violation("list-damaged", "%s: %s: the list holds %d complete records%s; it was %d and should become %d" % (
                    who, where, len(got), "" if clean else " and a torn one", len(before), len(rest)))
            def policy(i, held):
                if st["check"]: st["check"] = False; judge("at operation %d (%s)" % (i, s.ops[-1].show()))
                o = held[src.choose(len(held), "next process")] if len(held) > 1 else held[0]
                for p in (o.path, o.path2):
                    if p and (p == "data/unknown.pb" or os.path.realpath(os.path.join(w, p)) == U or p in ("data", "data/")):
                        if o.op in ("open", "write", "copy", "writev", "rename", "unlink", "truncate", "close", "link") or o.path2: st["check"] = True
                return o, F.act(o)
            code = s.run(policy)
            src.ev(k, code, F.what)
            what = F.what or "no fault"
            judge("after the run (%s, exit status %s)" % (what, code))
            if code == 0 and broken: raise Violation("failed-step", "%s: the filter failed, yet the script reports success" % who)
            if not F.harmful() and not broken and code != 0: raise Violation("failed", "%s fails without a fault: %s" % (who, s.stdout[-400:]))
            if code == 0 and not s.killed:
                if slurp(U) == old and [x[:2] for x in before] != [x[:2] for x in rest]: raise Violation("not-updated", "%s: success, but the list is the old one" % who)
                for c in CATS:
                    got, clean = records(slurp(os.path.join(root, sub, c + ".pb")))
                    exp = [x for x in want if category(x) == c]
                    if not clean or got != exp: raise Violation("categories", "%s (%s): success, but %s.pb holds %s records, expected %d" % (who, what, c, got and len(got), len(exp)))
                size = os.path.getsize(U)
                txt = slurp(os.path.join(root, "unknown.txt"))
                if size < 1000000:
                    ls = [l.split(" ")[0] for l in (txt or b"").decode().split("\n") if l]
                    if txt is None or ls != [x[0] for x in rest]:
                        raise Violation("stale-text", "%s (%s): success, but the text list has %s machines and the list has %d (%d bytes)" % (who, what, None if txt is None else len(ls), len(rest), size))
            src.count["runs_ok" if code == 0 else "runs_failed"] += 1
            src.count["published"] += st["new"]
            src.state(f.args[0], code, F.kind, st["new"], min(len(ms), 3), min(len(rest), 3))
            changed = slurp(U) != old
            old = slurp(U)
            last = None if changed or code == 0 else sub
            for x in want:
                if changed and category(x) != "unknown": decided[x[0]] = (sub, category(x))
        # nothing got lost over the whole history
        for m, (sub, c) in decided.items():
            rs, ok = records(slurp(os.path.join(root, sub, c + ".pb")))
            if m not in [r[0] for r in rs or []]: raise Violation("decided-lost", "after %d runs: %s was decided in %s but its record is gone" % (runs, m, sub))
        src.interesting = True
        src.note.update(machines=len(start), runs=runs)
        src.ev(sorted(decided.items())[:50])

# ------------------------------------------------------------------------------ C13

def c13(src):
    ms = draw_list(src, 0, 10)
    n = src.int(5, 11, "shards") if src.chance(0.1, "many shards") else src.pick([2, 1, 3, 4, 3], "shards")
    off = src.pick([0, 0, 1], "array offset")
    with scratch() as d:
        w = os.path.join(d, "w"); root = os.path.join(w, "data"); os.makedirs(root)
        os.symlink(REPO + "/Code", os.path.join(w, "Code"))
        U = os.path.join(root, "unknown.txt")
        rng = random.Random(src.subseed("annotations"))
        notes = src.chance(0.4, "annotated")
        text = "".join(m + (rng.choice(["", " | x", " | Unknown 12"]) if notes else "") + "\n" for m in ms)
        write(U, text)
        E = ptsim.environment(d, 1, BBSIM_CODE=REPO + "/Code", USER="../" * 8 + d.lstrip("/") + "/u")
        f = Filter(src, real=0.4)
        infile = os.path.join(d, "ref-in.txt"); shutil.copyfile(U, infile)
        want = f.outcome(ms, d, infile, E)
        rest = [x[0] for x in want if category(x) == "unknown"]
        who = "%d machines in %d shards, %s" % (len(ms), n, f.name)
        src.note.update(what=who)
        sh = lambda x: ["bash", REPO + "/Tools/" + x]
        def step(cmd, envv=E, fault=None, watch=None, **kw):
            s = System(w, cmd, env=envv, src=src, max_ops=60000)
            st = dict(check=False)
            def policy(i, held):
                if watch and st["check"]: st["check"] = False; watch("at operation %d (%s)" % (i, s.ops[-1].show()))
                o = held[src.choose(len(held), "next process")] if len(held) > 1 else held[0]
                if kw.get("guard"): kw["guard"](o)
                if "data/unknown.txt" in (o.path, o.path2): st["check"] = True
                return o, (fault.act(o) if fault else GO)
            s.run(policy)
            if watch: watch("after the run")
            return s
        def untouched(where):
            if slurp(U) != text.encode(): raise Violation("list-damaged", "%s: %s: the list changed before every shard was done" % (who, where))
        rel = lambda o: o.op == "exec" or o.path.startswith("data/")
        if src.chance(0.3, "earlier round"):
            # an earlier round under the same name was never finished: its shards, some done, are still there
            m = src.pick([n, 1, 2, 5, 3], "its shards")
            cut = [len(ms) * i // m for i in range(m + 1)]
            os.makedirs(os.path.join(root, "s/split/in"))
            for i in range(m):
                old = ms[cut[i]:cut[i + 1]]
                write(os.path.join(root, "s/split/in/in.%08d" % i), "".join(x + "\n" for x in old))
                if src.chance(0.8, "done then"): write_shard(os.path.join(root, "s/split/%08d" % i), [x + ("9",) for x in stub_verdicts(old, "9")])
            src.fault("leftovers")
        # setup, possibly killed and run again
        while src.chance(0.2, "setup interrupted"):
            F = Faults(src, 30, (0, 3, 2, 2, 2, 1, 0), rel)
            s = step(sh("sbatch_filter_setup.sh") + ["data", "s", str(n)], fault=F, watch=untouched)
            if s.code == 0 and F.what is None: break
        s = step(sh("sbatch_filter_setup.sh") + ["data", "s", str(n)], watch=untouched)
        if s.code: raise Violation("failed", "%s: setup fails without a fault: %s" % (who, s.stdout[-300:]))
        S = os.path.join(root, "s", "split")
        ins = sorted(os.listdir(os.path.join(S, "in")))
        if ins != ["in.%08d" % i for i in range(n)]: raise Violation("shards", "%s: setup made %s" % (who, ins))
        parts = [slurp(os.path.join(S, "in", x)).decode() for x in ins]
        if "".join(parts) != text or any(p and not p.endswith("\n") for p in parts):
            raise Violation("shards", "%s: the shards do not hold the lines of the list, each once: %s" % (who, [p.count("\n") for p in parts]))
        cp = slurp(os.path.join(root, "s", "in.txt"))
        if cp is not None and cp != text.encode(): raise Violation("shards", "%s: the copy of the input differs from it" % who)
        if cp is None : raise Violation("no-copy", "%s: setup skips the copy of a list of %d bytes" % (who, len(text)))
        # array jobs: waves of jobs in seeded interleavings, some hurt, some never run
        good, todo = set(), list(range(n))
        skip = {i for i in range(n) if src.chance(0.08, "never runs")}
        lossy = {}
        if f.salt is not None:
            for i in range(n):
                c = parts[i].count("\n")
                if c and src.chance(0.08, "filter misbehaves"): lossy[i] = misbehaviour(src, c)
        for wave in range(3):
            if not todo: break
            todo = [i for i in todo if i not in skip] + ([src.choose(n, "done again")] if good and src.chance(0.2, "rerun a finished job") else [])
            todo = sorted(set(todo))
            random.Random(src.subseed("order")).shuffle(todo)
            width = 1 + src.choose(3, "jobs at once")
            again = []
            while todo:
                batch, todo = todo[:width], todo[width:]
                script = "".join("( export SLURM_ARRAY_TASK_ID=%d; exec bash %s/Tools/sbatch_filter_array.sh data/s/split %d %s ) &\n" % (
                    i - off, REPO, off, " ".join(f.args + lossy.get(i, []))) for i in batch) + "wait\n"
                write(os.path.join(d, "batch.sh"), script)
                F = Faults(src, src.pick([60, 20, 200], "span"), (6, 1, 1, 3, 2, 1, 1), rel) if wave < 2 else None
                def guard(o):
                    if not (o.writes() or o.for_writing() or o.op in ("unlink", "rename", "mkdir", "truncate", "rmdir")): return
                    p = os.path.relpath(os.path.join(w, o.path), w)
                    if o.op == "mkdir" and os.path.isdir(os.path.join(w, p)): return
                    top = o.name.split(".")
                    if not p.startswith("data/s/split/"): 
                        if p.startswith("data/"): raise Violation("foreign-write", "%s: an array job writes %s" % (who, p))
                        return
                    owner = p.split("/")[3]
                    if len(top) > 1:
                        j = int(top[1])
                        who_is.setdefault(j, owner)
                        if who_is[j] != owner: raise Violation("foreign-write", "%s: the job of shard %s touches %s" % (who, who_is[j], p))
                who_is = {}
                s = step(["bash", os.path.join(d, "batch.sh")], fault=F, watch=untouched, guard=guard)
                if len(set(who_is.values())) != len(who_is): raise Violation("foreign-write", "%s: two jobs write the same shard: %s" % (who, who_is))
                for i in batch:
                    o = os.path.join(S, "%08d" % i)
                    if os.path.exists(o + "/success"):
                        if i in lossy: raise Violation("false-success", "%s: shard %d is marked done though its filter %s" % (who, i, lossy[i]))
                        shard = [l.split(" ")[0] for l in parts[i].split("\n") if l]
                        if not f.tree:
                            mine = [x for x in want if x[0] in shard]
                            for c in CATS:
                                got, clean = records(slurp(o + "/%s.pb" % c))
                                if not clean or got != [x for x in mine if category(x) == c]:
                                    raise Violation("false-success", "%s: shard %d is marked done (%s), but %s.pb holds %s records instead of %d" % (who, i, F and F.what, c, got and len(got), len([x for x in mine if category(x) == c])))
                            t = [l.split(" ")[0] for l in (slurp(o + "/unknown.txt") or b"").decode().split("\n") if l]
                            if t != [x[0] for x in mine if category(x) == "unknown"]: raise Violation("false-success", "%s: shard %d is marked done (%s), but its unknown.txt is incomplete" % (who, i, F and F.what))
                        good.add(i)
                    else:
                        good.discard(i)
                        if not (F and F.harmful()) and i not in lossy: raise Violation("failed", "%s: the job of shard %d fails without a fault: %s" % (who, i, s.stdout[-500:]))
                        if i not in again: again.append(i)
            todo = [i for i in again if i not in lossy] if src.chance(0.75, "rerun failed jobs") else []
        complete = good == set(range(n))
        src.count["complete" if complete else "incomplete"] += 1
        # finish, possibly hurt, possibly repeated
        new = "".join(x + "\n" for x in rest)
        for k in range(3):
            F = Faults(src, src.pick([30, 10], "span"), (3, 3, 2, 2, 2, 2, 1), rel) if k < 2 and src.chance(0.8, "finish hurt") else None
            state = dict(new=False)
            def watch(where):
                if not complete: untouched(where); return
                data = slurp(U)
                if data is None: raise Violation("list-lost", "%s: finish, %s: the list is gone" % (who, where))
                ls = [l.split(" ")[0] for l in data.decode().split("\n") if l]
                if ls == rest and (not data or data.endswith(b"\n")): return
                if data == text.encode(): return
                raise Violation("list-damaged", "%s: finish, %s: the list holds %d machines; it was %d and should become %d" % (who, where, len(ls), len(ms), len(rest)))
            s = step(sh("sbatch_filter_finish.sh") + ["data", "s", str(n)], fault=F, watch=watch)
            src.ev("finish", s.code, F and F.what)
            if not complete:
                if s.code == 0: raise Violation("published-early", "%s: finish succeeds though only shards %s are done" % (who, sorted(good)))
                break
            if s.code == 0 and not s.killed:
                ls = [l.split(" ")[0] for l in slurp(U).decode().split("\n") if l]
                if ls != rest: raise Violation("not-updated", "%s: finish succeeds (%s) but the list holds %d machines, %d are undecided" % (who, F and F.what, len(ls), len(rest)))
                for c in CATS:
                    got, clean = records(slurp(os.path.join(root, "s", c + ".pb")) or b"")
                    if not clean or got != [x for x in want if category(x) == c]:
                        raise Violation("combined", "%s: finish succeeds (%s) but the combined %s.pb holds %s records, expected %d" % (who, F and F.what, c, got and len(got), len([x for x in want if category(x) == c])))
                break
            if not (F and F.harmful()): raise Violation("failed", "%s: finish fails without a fault: %s" % (who, s.stdout[-400:]))
        src.interesting = True
        src.state(n, complete, min(len(ms), 4), f.args[0], len(lossy), len(skip))

def stub_verdicts(machines, salt):
    out = []
    for m in machines:
        p = io_pb2.TMRecord()
        stub_filter.decide(m, salt, p.status, env.Halting_Lib.set_big_int, io_pb2.INF_CTL)
        out.append((m,) + verdict(p))
    return out

def write_shard(o, rows):
    """A finished shard, made without the scripts."""
    os.makedirs(o)
    for c in CATS:
        with IO.Proto.Writer(os.path.join(o, c + ".pb")) as w:
            for x in rows:
                if category(x) != c: continue
                r = env.make_record(x[0])
                stub_filter.decide(x[0], x[3], r.proto.status, env.Halting_Lib.set_big_int, io_pb2.INF_CTL)
                w.write_record(r)
    write(os.path.join(o, "unknown.txt"), "".join(x[0] + "\n" for x in rows if category(x) == "unknown"))
    write(os.path.join(o, "success"), "")

def c13_job(src):
    """One shard's job run several times with different filters, each run possibly hurt: the mark of success
    stands only for the complete results of the last run that got as far as filtering; then the finishing step."""
    ms = draw_list(src, 1, 8)
    shards = src.int(1, 3, "shards")
    me = src.choose(shards, "shard")
    with scratch() as d:
        w = os.path.join(d, "w"); root = os.path.join(w, "data"); S = os.path.join(root, "s/split")
        os.makedirs(os.path.join(S, "in"))
        os.symlink(REPO + "/Code", os.path.join(w, "Code"))
        U = os.path.join(root, "unknown.txt")
        cut = [len(ms) * i // shards for i in range(shards + 1)]
        part = [ms[cut[i]:cut[i + 1]] for i in range(shards)]
        text = "".join(m + "\n" for m in ms); write(U, text)
        final = {}
        for i in range(shards):
            write(os.path.join(S, "in/in.%08d" % i), "".join(m + "\n" for m in part[i]))
            if i != me:
                final[i] = [x + ("5",) for x in stub_verdicts(part[i], "5")]
                write_shard(os.path.join(S, "%08d" % i), final[i])
        E = ptsim.environment(d, 1, BBSIM_CODE=REPO + "/Code", USER="../" * 8 + d.lstrip("/") + "/u", SLURM_ARRAY_TASK_ID=str(me))
        O = os.path.join(S, "%08d" % me)
        cur = None
        if src.chance(0.6, "done before"): cur = [x + ("7",) for x in stub_verdicts(part[me], "7")]; write_shard(O, cur)
        rel = lambda o: o.op == "exec" or o.path.startswith("data/")
        def sound(where, rows):
            for c in CATS:
                got, clean = records(slurp(O + "/%s.pb" % c))
                exp = [x[:3] for x in rows if category(x) == c]
                if not clean or got != exp: raise Violation("false-success", "shard %d is marked done %s, but %s.pb holds %s records, expected %d" % (me, where, c, got and len(got), len(exp)))
            t = [l.split(" ")[0] for l in (slurp(O + "/unknown.txt") or b"").decode().split("\n") if l]
            if t != [x[0] for x in rows if category(x) == "unknown"]: raise Violation("false-success", "shard %d is marked done %s, but its unknown.txt is not complete" % (me, where))
        ok = cur is not None
        for k in range(src.int(1, 2, "job runs")):
            salt = str(100 + src.choose(1000, "salt"))
            extra = []
            if part[me] and src.chance(0.25, "filter misbehaves"): extra = misbehaviour(src, len(part[me]))
            F = Faults(src, src.pick([12, 30, 4, 90], "span"), (3, 3, 1, 3, 3, 1, 1), rel)
            started = []
            s = System(w, ["bash", REPO + "/Tools/sbatch_filter_array.sh", "data/s/split", "0", HERE + "/stub_filter.py", "--salt", salt] + extra, env=E, src=src, max_ops=20000)
            def policy(i, held):
                o = held[src.choose(len(held), "next process")] if len(held) > 1 else held[0]
                a = F.act(o)
                if a == GO and o.op == "open" and o.path.endswith("in.%08d" % me): started.append(i)
                return o, a
            code = s.run(policy)
            src.ev(k, code, F.what)
            where = "after run %d (%s%s, exit status %s)" % (k, F.what or "no fault", " " + " ".join(extra) if extra else "", code)
            new = [x + (salt,) for x in stub_verdicts(part[me], salt)]
            if code == 0 and extra: raise Violation("false-success", "the job of shard %d ends normally though its filter was given %s" % (me, extra))
            if code != 0 and not F.harmful() and not extra: raise Violation("failed", "the job of shard %d fails without a fault: %s" % (me, s.stdout[-400:]))
            ok = os.path.exists(O + "/success")
            if code == 0 and not s.killed and not ok: raise Violation("no-mark", "the job of shard %d ended normally without marking success" % me)
            if started: cur = new
            if ok:
                if extra and started: raise Violation("false-success", "shard %d is marked done %s" % (me, where))
                if cur is None: raise Violation("false-success", "shard %d is marked done %s, but its job never filtered" % (me, where))
                sound(where, cur)
            if slurp(U) != text.encode(): raise Violation("list-damaged", "the list changed %s" % where)
            src.count["job_ok" if code == 0 else "job_failed"] += 1
            src.state(code, F.kind, ok, bool(started), bool(extra), (F.what or "")[:60])
        final[me] = cur
        s = System(w, ["bash", REPO + "/Tools/sbatch_filter_finish.sh", "data", "s", str(shards)], env=E, src=src, max_ops=20000)
        s.run()
        if not ok:
            if s.code == 0: raise Violation("published-early", "finish succeeds though shard %d is not done" % me)
            if slurp(U) != text.encode(): raise Violation("list-damaged", "finish changed the list though shard %d is not done" % me)
        else:
            rest = [x[0] for i in range(shards) for x in final[i] if category(x) == "unknown"]
            if s.code: raise Violation("failed", "finish fails though every shard is done: %s" % s.stdout[-300:])
            ls = [l.split(" ")[0] for l in slurp(U).decode().split("\n") if l]
            if ls != rest: raise Violation("not-updated", "finish succeeds, the list holds %d machines, %d are undecided" % (len(ls), len(rest)))
        src.interesting = True

ASSUME = ["a kill leaves the effects of completed system calls; no power loss", "a sub-directory name is used again only while its previous run did not replace the list (the scripts delete it)",
          "the number of shards given to the finishing step is the one given to setup"]
COMP = {"real": ["Tools/*.sh", "Code/*.py filters and file tools they call", "bash, coreutils, python3", "kernel file system (scratch directory)"],
        "stub": ["process scheduling at file operations (ptrace + seccomp)", "results of failing system calls", "SLURM (task numbers, order, job failures)", "half of the runs: a filter with known verdicts"]}
def check(prop):
    if prop == "C12":
        return Check(prop, [Scenario("pipeline", c12, 2000, 60000, 110, 2400)], "list, filters, number of pipeline runs, kill points and I/O errors drawn per run; the list is judged after every operation that touches it", ASSUME, COMP, prepare=ptsim.prepare)
    return Check(prop, [Scenario("shards", c13, 2000, 60000, 130, 2400), Scenario("job", c13_job, 4000, 60000, 60, 1200)], "list, shard count, filter, order and interleaving of jobs, kills, reruns and I/O errors drawn per run", ASSUME, COMP, prepare=ptsim.prepare)
