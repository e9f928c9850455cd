import importlib
MODULES = {"C01": "c_queue", "C02": "c_queue", "C03": "c_queue", "C04": "c_enum", "C05": "c_enum", "C06": "c_alarm", "C07": "c_alarm", "C16": "c_alarm", "C08": "c_disk", "C09": "c_disk", "C14": "c_disk", "C10": "c_cpp", "C11": "c_cpp", "C12": "c_pipe", "C13": "c_pipe", "C15": "c_clock"}
_q = "Seeded search over schedules, delays and clock faults of the real queue code on a simulated MPI; assumes per-pair message ordering (Open MPI). Not exhaustive."
_e = "Seeded search over orders, distributions, cuts and options for small sizes and limits; verdicts cross-checked by an independent step simulator up to a step bound. Not exhaustive."
_a = "Seeded search over the instants CPython 3.12 can run a signal handler or fail at; the fault-free verdict of the same tree is the reference. Not exhaustive."
_d = "Seeded search over kill points, cuts and disk errors on a simulated disk under the real tools; record contents are known independently. Not exhaustive."
_c = "Seeded search over process schedules, kills and I/O errors of the real programs and scripts at system-call granularity (ptrace); small sizes and step limits. Not exhaustive."
_k = "Seeded search over clock jumps at every reading, strike instants and hash seeds; small enumerations. Not exhaustive."
NOTE = {"C08": _d, "C09": _d, "C14": _d, "C10": _c, "C11": _c, "C12": _c, "C13": _c, "C15": _k, "C01": _q, "C02": _q, "C03": _q, "C04": _e, "C05": _e, "C06": _a, "C07": _a, "C16": _a}
TECHNIQUE = {
 "C08": "deterministic simulation of the disk: kills and cuts at seeded points under writers and enumerations; exact-prefix oracle",
 "C09": "deterministic simulation of the disk: seeded open/read/write/flush/close errors under every tool; completeness oracle",
 "C14": "deterministic simulation of the disk: tools on seeded intact and torn files vs independently known contents",
 "C10": "deterministic simulation of processes: seeded system-call faults under the real C++ programs; exit status vs complete output",
 "C11": "deterministic simulation of process trees: seeded schedules, kills and I/O errors under the parallel scripts vs serial run and reference model",
 "C12": "deterministic simulation of process trees: the filter pipeline killed, torn and failing at seeded operations; list judged at every operation that touches it",
 "C13": "deterministic simulation of process trees: sharded filter jobs in seeded interleavings, kills, reruns; conservation and all-or-nothing publication",
 "C15": "deterministic simulation of the clock: seeded jumps at every reading, timer strikes and hash seeds; records identical up to durations",
 "C01": "deterministic simulation of MPI ranks: seeded schedules, delays, stalls, clock jumps; exactly-once ledger",
 "C02": "deterministic simulation of MPI ranks: termination oracle, deadlock detector, bounded progress",
 "C04": "deterministic simulation: enumeration in seeded orders and on simulated MPI ranks vs reference tree and step simulator",
 "C05": "deterministic simulation: stop and resume at seeded cut points, chained, vs uninterrupted run and reference tree",
 "C06": "deterministic simulation: seeded timer strikes at interpreter signal-delivery points vs uninterrupted verdict",
 "C07": "deterministic simulation: simulated interval timer, strikes and errors at seeded instants; armed/escape invariants",
 "C16": "deterministic simulation: internal errors injected at seeded instants of an enumeration vs fault-free records",
 "C03": "deterministic simulation of MPI ranks: job-location ledger checked at every push and blocking wait",
}
def get(prop):
    return importlib.import_module(MODULES[prop]).check(prop)
