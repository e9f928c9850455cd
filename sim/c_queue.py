"""C01-C03: the distributed work queue on the simulated MPI."""
import io, pickle, random, sys
import core
sys.path.insert(0, core.REPO + "/Code")
import Work_Queue            # shared base class, imported with the real `time`
import core, mpisim
from core import Violation, Check, Scenario

class Job:
    __slots__ = ("id", "depth", "payload")
    def __init__(self, id, depth, payload): self.id, self.depth, self.payload = id, depth, payload
    def __reduce__(self): return (Job, (self.id, self.depth, self.payload))
    def __eq__(self, o): return isinstance(o, Job) and (self.id, self.depth, self.payload) == (o.id, o.depth, o.payload)
    def __hash__(self): return hash(self.id)
    def __repr__(self): return "Job%s" % (self.id,)

SHAPES = ["leafy", "chain", "bushy", "burst", "mixed", "wide"]

class Tree:
    """Job tree as a function of the job id: independent of the schedule."""
    def __init__(self, src, small):
        self.seed = src.subseed("tree")
        if small:
            self.shape = src.pick(["bushy", "chain", "leafy", "wide", "burst"], "shape")
            self.initial = src.pick([1, 2, 0, 3, 5], "initial jobs")
            self.depth = src.pick([1, 2, 0, 3], "depth")
        else:
            self.shape = src.pick(SHAPES, "shape")
            self.initial = src.pick([0, 1, 2, 5, 12, 40, 150, 400], "initial jobs")
            self.depth = src.pick([0, 1, 2, 3, 5], "depth")
        self.cap = 700
    def fanout(self, job):
        if job.depth >= self.depth: return 0
        r = random.Random("%d/%s" % (self.seed, job.id))
        s = self.shape
        if s == "leafy": return r.choice([0, 0, 0, 1])
        if s == "chain": return 1
        if s == "bushy": return r.choice([0, 1, 2, 3])
        if s == "burst": return r.choice([0] * 12 + [35, 60, 120])
        if s == "mixed": return r.choice([0, 0, 0, 1, 2, 8, 30])
        return r.choice([0, 0, 0, 0, 0, 31, 26, 25, 24, 5])
    def chunks(self, job):
        """How the children are pushed: list of push sizes; 0 = push_jobs([])."""
        n = self.fanout(job)
        r = random.Random("%d/%s/c" % (self.seed, job.id))
        out = []
        while n > 0:
            k = r.choice([1, 2, n, n, min(n, 31)])
            k = min(k, n); out.append(k); n -= k
        if r.random() < 0.03: out.append(0)
        return out

def jobs_in(obj):
    if isinstance(obj, Job): return [obj]
    if isinstance(obj, dict): obj = list(obj.keys()) + list(obj.values())
    if isinstance(obj, (list, tuple, set, frozenset)): return [j for x in obj for j in jobs_in(x)]
    return []

def simulate(src, prop, small=False):
    nworkers = src.pick([1, 2, 3, 2], "workers") if small else src.pick([1, 2, 3, 4, 7, 2, 3], "workers")
    tree = Tree(src, small)
    w = mpisim.World(src, nworkers + 1)
    mods = [mpisim.load_rank(w, r) for r in range(nworkers + 1)]
    want = {}                # id -> Job as pushed
    where = {}               # id -> rank or ("fly", rank)
    popped = {}
    outstanding = [0]
    ended = [None] * (nworkers + 1)
    total = [0]
    limit = [30] * (nworkers + 1)
    got = [[] for _ in range(nworkers + 1)]   # advice received during the current push
    advised = [None] * (nworkers + 1)     # time of last advice sent
    unread = [0] * (nworkers + 1)         # messages of worker not yet received by the coordinator
    ever_sent = [0] * (nworkers + 1)
    popped_state = [None] * (nworkers + 1)
    woke = [w.now]
    clean_clock = not w.clock_faults
    inflight_to = [0] * (nworkers + 1)

    def on_send(s, d, tag, obj):
        for j in jobs_in(obj):
            if where.get(j.id) != s and prop == "C01":
                raise Violation("job-not-held", "process %d sent %r, which is held by %r" % (s, j, where.get(j.id)))
            where[j.id] = ("fly", d)
        src.count["messages"] += 1
        if d == 0: unread[s] += 1; ever_sent[s] += 1
        else: inflight_to[d] += 1
        if s == 0 and not isinstance(obj, (list, tuple)) and obj is not None:
            src.count["advice"] += 1
            advised[d] = w.now
            if prop == "C03" and not (isinstance(obj, int) and not isinstance(obj, bool) and obj >= 25):
                raise Violation("bad-advice", "coordinator advised worker %d of backlog limit %r" % (d, obj))
        if prop == "C02" and s == 0 and isinstance(obj, (list, tuple)) and not obj:
            # the end signal
            if outstanding[0]:
                raise Violation("early-end", "end of work announced to worker %d while %d job(s) are not handed out: %s" % (
                    d, outstanding[0], list(j for j in want if j not in popped)[:5]))
    def on_recv(r, s, tag, obj):
        for j in jobs_in(obj): where[j.id] = r
        if r == 0: unread[s] -= 1
        else: inflight_to[r] -= 1
        if r > 0 and isinstance(obj, int): limit[r] = obj; got[r].append(obj)
    def on_cancel(m):
        if m.dst: inflight_to[m.dst] -= 1
    def on_block(rank, what):
        if rank != 0 or prop != "C03" or not what.startswith(("probe", "recv", "wait")): return
        # the coordinator goes to sleep: it must not sit on jobs an idle worker asked for
        held = sum(1 for v in where.values() if v == 0)
        if held:
            for p in w.procs[1:]:
                if not p.done and p.cond is not None and not p.cond() and p.what.startswith(("recv", "wait", "probe")) \
                        and unread[p.rank] == 0 and ever_sent[p.rank] and inflight_to[p.rank] == 0:
                    raise Violation("idle-worker-not-fed", "coordinator waits while holding %d job(s) and worker %d is idle" % (held, p.rank))
        if clean_clock and advised_due[0]:
            for r in range(1, nworkers + 1):
                if advised[r] is None or advised[r] < advised_due[0]:
                    raise Violation("advice-not-renewed", "worker %d got no new advice although the last one was over 30 s old" % r)
    advised_due = [None]
    w.on_send, w.on_recv, w.on_block, w.on_cancel = on_send, on_recv, on_block, on_cancel

    def new_job(parent, i, depth):
        id = "%s.%d" % (parent, i)
        r = random.Random("%d/%s/p" % (tree.seed, id))
        j = Job(id, depth, (r.random(), "x" * r.choice([0, 0, 5, 300])))
        want[id] = (j.id, j.depth, j.payload); outstanding[0] += 1; total[0] += 1
        return j

    def coordinator():
        m = mods[0].Master(pout=io.StringIO())
        for i in range(tree.initial):
            j = new_job("r", i, 0); where[j.id] = 0
            m.push_job(j)
        res = m.run_master()
        src.ev("coordinator done", res)
        return res

    def before_push(rank):
        if prop != "C03": return None
        got[rank].clear()
        pend = [m for m in w.procs[rank].mail if m.src == 0]
        return limit[rank], [(m, o) for m in pend for o in [pickle.loads(m.data)] if isinstance(o, int)]
    def check_backlog(rank, before):
        if prop != "C03": return
        n = sum(1 for id, v in where.items() if v == rank)
        old, pend = before
        # advice that had arrived when the push began counts, later advice may
        live = [o for m, o in pend if not m.cancelled]
        ok = [limit[rank]] if not live else [live[-1]] + got[rank][len(live):]
        if len(live) != len(pend): ok = [old, limit[rank]] + [o for _, o in pend] + got[rank]
        if len(live) > 1: src.count["stacked_advice"] += 1
        if n > max(ok):
            raise Violation("backlog", "worker %d keeps %d jobs after a push, limit %d" % (rank, n, max(ok)))

    def worker(rank):
        def go():
            q = mods[rank].MPI_Worker_Work_Queue(0, pout=io.StringIO())
            n = 0
            while True:
                j = q.pop_job()
                if j is None:
                    ended[rank] = True
                    src.ev("worker ends", rank)
                    if outstanding[0] and prop in ("C01", "C02"):
                        raise Violation("early-end" if prop == "C02" else "job-lost", "worker %d was told to stop while %d job(s) are not handed out: %s" % (
                            rank, outstanding[0], [i for i in want if i not in popped][:5]))
                    return True
                n += 1
                if not isinstance(j, Job) or j.id not in want:
                    raise Violation("invented-job", "worker %d popped %r" % (rank, j))
                if j.id in popped:
                    raise Violation("duplicate-job", "job %s popped by workers %d and %d" % (j.id, popped[j.id], rank))
                if (j.id, j.depth, j.payload) != want[j.id]:
                    raise Violation("altered-job", "job %s changed" % j.id)
                popped[j.id] = rank; where[j.id] = "done"; outstanding[0] -= 1
                src.count["jobs"] += 1
                for _ in range(src.weighted([5, 3, 1], "work")): w.yield_("compute")
                if total[0] < tree.cap:
                    k = 0
                    for size in tree.chunks(j):
                        kids = [new_job(j.id, k + i, j.depth + 1) for i in range(size)]
                        k += size
                        for c in kids: where[c.id] = rank
                        before = before_push(rank)
                        if size == 1 and k % 2: q.push_job(kids[0])
                        else: q.push_jobs(kids)
                        src.count["pushes"] += 1
                        check_backlog(rank, before)
        return go

    w.max_steps = 60000 + 400 * tree.cap
    w.spawn(0, coordinator)
    for r in range(1, nworkers + 1): w.spawn(r, worker(r))

    # hook the wake-up of the coordinator's blocking wait for the renewal clause
    orig_yield = w.yield_
    def yield_(what, cond=None):
        orig_yield(what, cond)
        p = w.me()
        if p.rank == 0 and cond is not None and what.startswith(("probe", "recv")) :
            if what.startswith("probe"):
                last = max([a if a is not None else -1e9 for a in advised[1:]])
                advised_due[0] = w.now if w.now - last > 30.0 else None
    w.yield_ = yield_
    w.run()
    src.count["steps"] += w.steps
    # history checks
    lost = [i for i in want if i not in popped]
    if lost and prop in ("C01",):
        raise Violation("job-lost", "%d of %d jobs were never handed out: %s (held: %s)" % (len(lost), len(want), lost[:5], [where[i] for i in lost[:5]]))
    if prop == "C02":
        if w.procs[0].result is not True and w.procs[0].result is False:
            raise Violation("coordinator-result", "coordinator returned %r" % (w.procs[0].result,))
    src.interesting = src.interesting or (nworkers > 1 and total[0] > 1)
    src.note.update(workers=nworkers, initial=tree.initial, jobs=total[0], steps=w.steps, shape=tree.shape)

def scen(prop, small):
    def fn(src): simulate(src, prop, small)
    return fn

RULE = ("A run draws workers (1-7), job tree, schedule strategy (uniform, priorities, bursts, slow network, slow coordinator), "
        "message delays, blocking sends, stalls, clock skew and jumps; non-trivial = more than one worker or a fault; distinct = event-log hash")
ASSUME = ["messages between two processes become visible in the order sent, across tags (Open MPI ob1 ordering)",
          "MPI loses and duplicates no message and a failed rank aborts the job, so loss, duplication and single-rank crashes are not injected",
          "small non-blocking sends are buffered; cancelling one may or may not succeed"]
COMP = {"real": ["Code/MPI_Work_Queue.py (one module instance per rank)", "Code/Work_Queue.py"], "stub": ["mpi4py (simulated)", "time (simulated)", "job payloads"]}

def check(prop):
    return Check(prop, [Scenario("endgame", scen(prop, True), 16000, 800000, 60, 1200),
                        Scenario("queue", scen(prop, False), 9000, 200000, 70, 1500)], RULE, ASSUME, COMP)
