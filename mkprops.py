#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Distributed work queue hands out every job exactly once",
  "In a distributed run, every job given to the work queue, whether queued before the start or pushed later by any worker, is returned by exactly one worker's pop, exactly once and unaltered, before the run ends. No job is lost, duplicated, invented or changed, whatever the relative speed of the processes, the message delays and the clock readings.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of coordinator and workers, all message delays, all job trees, all clock readings and jumps, 1-8 workers",
  "The only test is a script run once under mpirun with one job tree and whatever schedule the OS gives it; the timer-driven traffic (10 s) is never reached.",
  ["Code/MPI_Work_Queue.py", "Code/Work_Queue.py"],
  [("local queue and surplus hand-back", "Code/MPI_Work_Queue.py:MPI_Worker_Work_Queue"), ("batching of jobs to idle workers", "Code/MPI_Work_Queue.py:Master.run_master")],
  [("master_queue", "jobs held by the coordinator", "Code/MPI_Work_Queue.py"), ("local_queue", "jobs held by a worker", "Code/MPI_Work_Queue.py")],
  ["pop_job/push_job(s) results", "message payloads"])

p("C02", "Distributed run ends exactly when all work is done",
  "A worker is told that there is no more work only after every job has been handed out and every worker has run out of jobs. Once that is the case the coordinator and every worker finish within a bounded number of steps, and before that no state is reachable in which every process waits for another or in which a process fails.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings, message delays, blocking or buffered sends, stalls of any process, clock jumps and job trees",
  "Termination detection depends on the order in which messages of different kinds become visible; a test run sees one order.",
  ["Code/MPI_Work_Queue.py"],
  [("idle-worker bookkeeping and final empty batch", "Code/MPI_Work_Queue.py:Master.run_master"), ("request for work when the local queue is empty", "Code/MPI_Work_Queue.py:MPI_Worker_Work_Queue.pop_job")],
  [("worker_state", "which workers are known to be idle", "Code/MPI_Work_Queue.py")], ["pop_job results", "process exit", "global deadlock detector"])

p("C03", "Worker backlog stays bounded and idle workers are fed",
  "After a worker pushes jobs it keeps no more of them than the backlog limit it was last advised of (30 before any advice) and returns the rest to the coordinator. The coordinator never goes back to waiting for messages while it holds jobs and knows of an idle worker, and, while clocks run steadily, whenever it handles messages more than 30 s after its last advice it advises every worker anew of a limit that is a whole number of at least 25.",
  ["schedules", "histories", "configurations"],
  "all interleavings, delays, clock readings and bursts of pushed jobs",
  "The limit only matters for long runs with large bursts and timer-driven updates; no test observes backlog sizes.",
  ["Code/MPI_Work_Queue.py"],
  [("surplus hand-back", "Code/MPI_Work_Queue.py:_send_extra"), ("limit advice", "Code/MPI_Work_Queue.py:_update_max_queue_size, Master.run_master")],
  [("max_queue_size", "advised backlog limit", "Code/MPI_Work_Queue.py")], ["job location ledger built from message payloads", "state at each blocking wait"])

p("C04", "Enumeration output is the same for every order and distribution",
  "For given machine size and limits, the multiset of records an enumeration writes (machine, verdict, steps, score) is the same depth-first, breadth-first, in any randomized order and spread in any way over distributed workers. It is exactly the tree-normal-form tree: the starting machine, plus every allowed child of every halting machine at the undefined transition it reached, each once; and every verdict agrees with direct step-by-step simulation (halting steps, score, and the undefined transition reached; non-halting machines never halt).",
  ["schedules", "programs", "configurations", "histories"],
  "all processing orders, seeds, worker counts and message schedules; sizes up to 4x2/2x4 with bounded simulation limits",
  "Tests compare a handful of serial runs; none varies the order or distributes the enumeration.",
  ["Code/Enumerate.py", "Code/TM_Enum.py", "Code/Work_Queue.py", "Code/MPI_Work_Queue.py", "Code/Macro_Simulator.py", "Code/IO/TM_Record.py"],
  [("expansion of halting machines", "Code/Enumerate.py:Enumerator.add_result, expand_undefined_transition"), ("allowed children", "Code/TM_Enum.py:enum_children"), ("work queues", "Code/Work_Queue.py")],
  None, ["output record files"])

p("C05", "Interrupted and resumed enumeration equals an uninterrupted one",
  "Stopping an enumeration after any number of machines writes every machine processed so far with its verdict and every unprocessed machine as undecided, each exactly once. Resuming from the machines left undecided, any number of times and with any cuts, yields in total exactly the records of the uninterrupted run with the same options, including searches that allow machines without a halting transition.",
  ["crash_points", "histories", "configurations"],
  "all cut points, chains of cuts, processing orders and option combinations for small sizes",
  "No test stops and resumes an enumeration.",
  ["Code/Enumerate.py", "Code/IO/TM_Record.py", "Code/IO/Proto.py", "Code/TM_Enum.py"],
  [("dump of the remaining queue", "Code/Enumerate.py:Enumerator.continue_enum"), ("re-reading of input machines", "Code/Enumerate.py:enum_initial_tms"), ("machine encoding", "Code/IO/TM_Record.py")],
  None, ["output record files"])

p("C06", "A time-limit interrupt never falsifies a machine's verdict",
  "Whatever the instant at which the per-machine time limit strikes, each of the machine's two results - halting and quasihalting - ends either undecided or exactly as an uninterrupted run gives it (steps, score, reached transition, reason, state). A machine whose halting result is left undecided is marked as timed out. No partial or wrong result is recorded, and an enumeration continues correctly from it.",
  ["schedules", "programs", "fault_sequences"],
  "all instants at which the timer signal can be handled, for all machines and deciders",
  "Tests never let the timer strike; a strike lands at one of tens of thousands of instants per machine.",
  ["Code/Macro_Simulator.py", "Code/Alarm.py", "Code/Halting_Lib.py", "Code/Enumerate.py", "Code/Lin_Recur_Detect.py"],
  [("timer wrapper", "Code/Macro_Simulator.py:run_timer"), ("publication of verdicts", "Code/Halting_Lib.py:set_halting, set_inf_recur"), ("timer to exception", "Code/Alarm.py")],
  None, ["TM record after the run", "enumeration output"])

p("C07", "The time limit always ends a run and never leaks out of it",
  "A machine whose processing exceeds the time limit is abandoned as soon as the timer strikes and is recorded as timed out; processing of the following machines continues normally. After processing of a machine ends in any way - verdict, timeout or internal error - no timer remains armed and no timeout is ever raised outside the processing of the machine it was set for.",
  ["schedules", "fault_sequences", "histories"],
  "all strike instants, internal errors before the strike, sequences of machines",
  "Needs a timer strike at, or an error before, a particular instant.",
  ["Code/Macro_Simulator.py", "Code/Alarm.py", "Code/Enumerate.py"],
  [("arm and cancel", "Code/Alarm.py:Alarm"), ("timer wrapper", "Code/Macro_Simulator.py:run_timer"), ("error containment", "Code/Enumerate.py:Enumerator.run")],
  [("is_alarm_on", "whether a strike may raise", "Code/Alarm.py")], ["simulated interval timer", "exceptions escaping"])

p("C08", "Record files survive crashes: a torn file reads back its exact prefix",
  "However a record file is cut off by a crash, reading it returns exactly the records that are complete in it, in order and unaltered, then reports an error if and only if the cut lies inside a record (for a compressed file: if its end is missing); it never invents, skips or silently drops a record. Every record written before a completed flush or save survives a kill of the process, for plain and compressed files and for machines of any size the format supports.",
  ["crash_points", "inputs", "histories"],
  "all crash points and file cuts, all record sequences, buffer sizes and flush points",
  "Tests only read back complete files of a few small records.",
  ["Code/IO/Proto.py", "Code/IO/TM_Record.py", "Code/IO/General.py", "Code/Enumerate.py"],
  [("length-prefixed records", "Code/IO/Proto.py:Writer, Reader"), ("periodic save", "Code/Enumerate.py:Enumerator.save"), ("machine packing", "Code/IO/TM_Record.py")],
  None, ["bytes on the simulated disk", "records read back"])

p("C09", "Disk errors in the Python tools are never silent",
  "If opening, reading, writing, flushing or closing a machine file fails (full disk, I/O error, missing permission), the Python tool that was running ends with an error. It ends normally only if every output file is complete, and even when it fails the output files hold only a prefix of the records they were meant to hold.",
  ["fault_sequences", "crash_points", "inputs"],
  "all positions of read, write, flush and close errors in all tools that read or write machine files",
  "Tests never inject an I/O error.",
  ["Code/IO/Proto.py", "Code/IO/StdText.py", "Code/IO/General.py", "Code/Enumerate.py", "Code/IO_Convert.py", "Code/IO_Categorize.py", "Code/CTL_Filter.py", "Code/CPS_Filter.py"],
  [("context-managed readers and writers", "Code/IO/*.py")], None, ["exit status or exception", "bytes on the simulated disk"])

p("C10", "Disk errors in the C++ enumerators are never silent",
  "A C++ enumeration, continuation or simulation program exits with status 0 only if it could read all of its input and every byte of its output files reached the disk. A full disk, I/O error, unwritable output, missing or unreadable input, or a torn machine in the input leads to a non-zero exit, and whatever was written is a prefix of the complete output.",
  ["fault_sequences", "configurations"],
  "all positions of write, open and read errors, plain and compressed output, all programs",
  "There are no tests of the C++ programs.",
  ["cpp/src/lr_enum.cpp", "cpp/src/lr_enum_continue.cpp", "cpp/src/lb_enum.cpp", "cpp/src/lb_enum_continue.cpp", "cpp/src/direct_sim_all.cpp"],
  [("stream state at exit", "cpp/src/*.cpp")], None, ["exit status", "output files"])

p("C11", "Split, parallel and resumed C++ enumeration equals the serial run",
  "Enumerating with a low step limit, splitting the machines still running at random into chunks, continuing every chunk with a higher limit in any order or in parallel, in one or several stages, and merging the results gives exactly the halting, non-halting and unknown machines (for Lazy Beaver: the step counts, each with a machine that attains it) of one serial run with that limit, each once. A killed chunk can be run again. If any chunk fails or is killed, the parallel enumeration script reports failure and does not present partial results as finished.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "all step limits, chunk counts, shuffles, completion orders and failures of chunk processes",
  "There are no tests of the C++ programs or of the scripts.",
  ["cpp/src/enumerator.cpp", "cpp/src/lr_enum.cpp", "cpp/src/lr_enum_continue.cpp", "cpp/src/lb_enum.cpp", "cpp/src/lb_enum_continue.cpp", "cpp/scripts/lr_enum_local_parallel.sh", "cpp/scripts/lb_enum_local_parallel.sh", "cpp/scripts/shuffle_split.py"],
  [("expansion of the tree and output of undecided machines", "cpp/src/enumerator.cpp"), ("split, run, merge", "cpp/scripts/*_local_parallel.sh")], None, ["output files", "exit status of the script"])

p("C12", "A crash of the filter pipeline never loses an undecided machine",
  "Whatever the moment at which a run of the local filter pipeline is killed or a step of it fails, the directory's list of undecided machines is at every instant either the complete list from before the run or the complete list of machines the filter left undecided, and it changes to the latter only once the filter and the split of its results have succeeded, with every decided machine on disk. Running the pipeline again then ends with every machine of the original list in exactly one place: decided by some filter run, or still undecided. The human-readable copy of a small list matches the list when the run succeeds.",
  ["crash_points", "fault_sequences", "histories"],
  "all kill points and step failures of the pipeline and any number of reruns",
  "There are no tests of the scripts.",
  ["Tools/filter.sh", "Code/IO_Categorize.py", "Code/CTL_Filter.py", "Code/CPS_Filter.py", "Code/Reverse_Engineer_Filter.py"],
  [("work directory, then replacement of the list", "Tools/filter.sh"), ("split of results", "Code/IO_Categorize.py")], None, ["files on disk", "exit status"])

p("C13", "Sharded filtering covers every machine and publishes all or nothing",
  "When a machine list is filtered in shards by independent jobs running in any order, the shards together cover every line of the list exactly once and no job touches another job's shard. The list of undecided machines is replaced only if every shard completed, and then holds exactly the machines no shard decided; if a job failed, was killed or never ran, the finishing step fails and leaves the list as it was.",
  ["schedules", "crash_points", "configurations"],
  "all shard counts, list lengths, job orders and job failures, kills of the finishing step",
  "There are no tests of the scripts.",
  ["Tools/sbatch_filter_setup.sh", "Tools/sbatch_filter_array.sh", "Tools/sbatch_filter_finish.sh"],
  [("split into shards", "Tools/sbatch_filter_setup.sh"), ("all-shards-done check and publication", "Tools/sbatch_filter_finish.sh")], None, ["files on disk", "exit status"])

p("C14", "Machine-file tools conserve machines and order, also on damaged input",
  "Categorizing, converting, sorting, sampling, counting and comparing machine files neither lose, duplicate nor alter machines: categories partition the input in order, conversion keeps the sequence, sorting is a permutation in order, a sample is distinct members of the input of exactly the requested size, a count is the number of readable records, comparing two text lists splits their lines into common, left-only and right-only ones in order. A machine, or several, that the target format cannot hold is refused. On a record or bbchallenge file cut off inside a record each tool fails or reports the damage as an ERROR instead of treating the damaged rest as data, and what it wrote comes only from complete records.",
  ["inputs", "crash_points", "histories"],
  "all record sequences, file formats, cut points and random seeds",
  "Tests do not run these tools.",
  ["Code/IO_Categorize.py", "Code/IO_Convert.py", "Code/IO_Sort.py", "Code/IO_Sample.py", "Code/IO_Count.py", "Code/IO/Proto.py", "Code/IO/StdText.py", "Code/IO/BBC.py", "Code/IO/Morphett.py", "Tools/venn_diff.py"],
  [("readers and writers", "Code/IO/*.py")], None, ["output files", "exit status or exception"])

p("C15", "Results never depend on the wall clock or on hash order",
  "The records a run produces are the same, apart from recorded durations, whatever the system clock shows and however it jumps forwards or backwards during the run, and whatever the interpreter's hash seed; recorded durations are never negative, and no clock reading makes a run fail. A randomized run with a given seed is exactly repeatable.",
  ["fault_sequences", "configurations", "programs"],
  "all clock readings and jumps at every reading, all hash seeds, all machines",
  "Tests run with the real clock and one hash seed.",
  ["Code/IO/Timer.py", "Code/Macro_Simulator.py", "Code/Enumerate.py", "Code/IO/TM_Record.py"],
  [("clamped timers", "Code/IO/Timer.py"), ("seeded shuffling", "Code/Enumerate.py")], None, ["output record files"])

p("C16", "An internal failure stays confined to the machine it happened on",
  "If processing one machine fails at any point with an internal error (out of memory, recursion limit, arithmetic error), that machine's record is written exactly once, marked as failed, and without a partial or wrong verdict. All other machines get exactly the records they would have got without the failure, and the run completes.",
  ["fault_sequences", "programs", "histories"],
  "all failure points during the processing of any machine of an enumeration",
  "Tests never inject an internal error.",
  ["Code/Enumerate.py", "Code/Macro_Simulator.py", "Code/Halting_Lib.py"],
  [("error containment", "Code/Enumerate.py:Enumerator.run"), ("publication of verdicts", "Code/Halting_Lib.py")], None, ["output record files"])

NA = []
def na(id, title, statement, files, reason):
    p(id, title, statement, ["inputs", "programs"], "all inputs", "Input space is infinite; tests sample it.", files, [(f.split("/")[-1], f) for f in files])
    NA.append({"property": id, "reason": reason})

pure = "Sequential pure function of its input: no concurrency, time, I/O or multi-party behaviour for the property to depend on, so simulated schedules and faults add nothing to plain input sampling; "
na("N01", "Decider verdicts are mathematically sound for every machine",
   "A machine reported as non-halting by any decider (linear recurrence, closed tape languages, closed position sets, reverse engineering, backtracking) never halts when run from the blank tape.",
   ["Code/Lin_Recur_Detect.py", "Code/CTL2.py", "Code/CTL3.py", "Code/CTL4.py", "Code/CPS.py", "Code/Reverse_Engineer_Filter.py", "Code/Backtracking_Filter.py"],
   pure + "the part that depends on interrupts, order and faults is decided under C04, C06 and C16, where verdicts are compared with a reference simulator.")
na("N02", "Accelerated simulation is exact",
   "Macro, chain-step and proof-system acceleration give exactly the configuration, step count and score of direct step-by-step simulation.",
   ["Code/Macro/Simulator.py", "Code/Macro/Chain_Simulator.py", "Code/Macro/Proof_System.py", "Code/Macro/Turing_Machine.py"], pure + "halting results are cross-checked inside C04.")
na("N03", "Huge-integer and algebraic arithmetic is exact",
   "Arithmetic, comparison and formatting of the huge-integer and symbolic expression types agree with exact integer arithmetic.",
   ["Code/Exp_Int.py", "Code/Algebraic_Expression.py", "Code/Math.py"], pure + "no seam to simulate.")
na("N04", "Normal-form conversion and permutation preserve behaviour",
   "Converting a machine to a normal form or permuting states and symbols preserves its behaviour, and the conversion is idempotent.",
   ["Code/TNF.py", "Code/LNF.py", "Code/Permute.py"], pure + "no seam to simulate.")
na("N05", "Text machine formats parse and print consistently",
   "For each text format, printing and re-parsing a machine gives the same machine.",
   ["Code/IO/StdText.py", "Code/IO/Morphett.py", "Code/IO/OldText.py", "Code/IO/BBC.py"], pure + "file-level conservation and damage behaviour is decided under C14.")
na("N06", "The Rust validator accepts only correct rules",
   "The Rust rule validator accepts a rule set only if every rule follows by the stated induction.",
   ["rust/src"], "Its locked crates are not available offline so it cannot be built here, and it is a sequential pure checker without time, I/O concurrency or multi-party behaviour.")

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
json.dump(NA, open(os.path.join(here, "na.json"), "w"), indent=1)
