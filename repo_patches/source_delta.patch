From 9d47fa0ac70acd505d98ea97bded9883f6ece95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:06 +0000
Subject: [PATCH 01/33] fix: MPI work queue used fractional batch sizes as
 slice indices

target_queue_size was computed with true division, so any batch or
hand-back limited by it raised TypeError and aborted the distributed run.
---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From 29456817721785795c4c6bea54bf84af78fff461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:48 +0000
Subject: [PATCH 02/33] fix: record whether a machine's search allows no
 halting transition

TM_Record never stored allow_no_halt, so an enumeration resumed from a file
treated the last undefined transition as halting and lost machines.
---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..d5ec99b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -150,6 +150,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From 6713fd09c1b96751226683c0e992abe6ecc36987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:59 +0000
Subject: [PATCH 03/33] fix: store and read back machines with more than 7
 states or symbols

The list encoding never advanced its read position, appended to an existing
table, altered the machine it stored and was bypassed when a halting
transition was filled in; 8 symbols overflowed the packed encoding.
---
 Code/IO/TM_Record.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index d5ec99b..b8c2050 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -91,14 +91,16 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
                                            symbols = list(range(symbol_in)))
 
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
+  tm_list.Clear()
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
+      symbol_out = trans.symbol_out
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        symbol_out = -1
+      tm_list.ttable_list.append(symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
@@ -108,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
   for state_in in range(tm_list.num_states):
     for symbol_in in range(tm_list.num_symbols):
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
+      i += 3
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints,
@@ -119,14 +122,14 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
@@ -178,7 +181,7 @@ class TM_Record:
     self.tme.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From ad63f74673320a15a85c4f5ee95e205c9b26250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:34 +0000
Subject: [PATCH 04/33] fix: cancel the time limit when processing a machine
 fails

An exception other than the timeout left the timer armed; it then struck
outside of any handler and ended the whole enumeration.
---
 Code/Macro_Simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..3e7a27e 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -59,8 +59,11 @@ def run_timer(tm_record : TM_Record, options,
     start_time = time.time()
     Alarm.ALARM.set_alarm(time_limit_sec)
 
-    run_options(tm_record, options)
-    Alarm.ALARM.cancel_alarm()
+    try:
+      run_options(tm_record, options)
+    finally:
+      # Never leave the alarm running, even if run_options() fails.
+      Alarm.ALARM.cancel_alarm()
 
   except Alarm.AlarmException:
     Alarm.ALARM.cancel_alarm()
-- 
2.43.0


From f3cec323cee5b56027a6af43e3eab7ceac33c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 05/33] fix: publish halting and quasihalting results in one
 step

A timeout striking inside set_halting() or set_inf_recur() left a decision
without its step count, score or reached transition.
---
 Code/Halting_Lib.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index e3fef50..5397286 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -137,15 +137,19 @@ def set_halting(tm_status  : io_pb2.BBStatus,
                 from_state  : Optional[int],
                 from_symbol : Optional[int]):
   """Specify that we know that this machine halts."""
-  tm_status.halt_status.is_decided = True
-  tm_status.halt_status.is_halting = True
-  set_big_int(tm_status.halt_status.halt_steps, halt_steps)
+  # Note: Publish the complete result in one step, a timeout (Alarm) could strike
+  # at any point in here and must not leave a half-written decision.
+  halt_status = io_pb2.HaltStatus()
+  halt_status.is_decided = True
+  halt_status.is_halting = True
+  set_big_int(halt_status.halt_steps, halt_steps)
   if halt_score is not None:
-    set_big_int(tm_status.halt_status.halt_score, halt_score)
+    set_big_int(halt_status.halt_score, halt_score)
   if from_state is not None:
-    tm_status.halt_status.from_state = from_state
+    halt_status.from_state = from_state
   if from_symbol is not None:
-    tm_status.halt_status.from_symbol = from_symbol
+    halt_status.from_symbol = from_symbol
+  tm_status.halt_status.MergeFrom(halt_status)
 
   # NOTE: We are treating Halting machines as Not Quasihalting.
   # Technically, Aaronson's definition calls Halting machines Quasihalting also.
@@ -186,16 +190,19 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
         q_last_seen = states_last_seen[state]
 
   # Either way, we have made a conclusive decision.
-  tm_status.quasihalt_status.is_decided = True
+  # Note: Published in one step, see set_halting().
+  quasihalt_status = io_pb2.QuasihaltStatus()
+  quasihalt_status.is_decided = True
   if q_state == None:
     # We can definitively say that this machine does NOT quasihalt.
     # Instead it enters Lin Recurrence cycling through all states forever.
-    tm_status.quasihalt_status.is_quasihalting = False
+    quasihalt_status.is_quasihalting = False
   else:
-    tm_status.quasihalt_status.is_quasihalting = True
+    quasihalt_status.is_quasihalting = True
     # Quasihalting time is technically the step after the last time a specific
     # state was last seen.
-    set_big_int(tm_status.quasihalt_status.quasihalt_steps, q_last_seen + 1)
+    set_big_int(quasihalt_status.quasihalt_steps, q_last_seen + 1)
     # Note: A TM may quasihalt at different times with respect to different
     # states. This is guaranteed to be the final quasihalt (max steps).
-    tm_status.quasihalt_status.quasihalt_state = q_state
+    quasihalt_status.quasihalt_state = q_state
+  tm_status.quasihalt_status.MergeFrom(quasihalt_status)
-- 
2.43.0


From 5ffbdf4a94e1f4d86a01fe9c30d06bf6a7040338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 06/33] fix: --no-prover failed every machine while recording
 prover statistics

sim.prover is None then; the AttributeError raised in the finally block also
replaced a pending timeout, so the machine was not recorded as timed out.
---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index 3e7a27e..8eaccb9 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -178,13 +178,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 692b3204d4e639f52701a85a032736aef05bb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 07/33] fix: skipping a record of a truncated file went past
 its end

---
 Code/IO/Proto.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..d831ba1 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -108,7 +108,13 @@ class Reader:
     pb_len = self._read_message_len()
     if pb_len != None:
       # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      # Note: seek() will happily go past the end of a truncated file, so
+      # actually read the last byte to make sure that it is there.
+      if pb_len > 0:
+        self.infile.seek(pb_len - 1, 1)
+        if len(self.infile.read(1)) != 1:
+          raise IO_Error("Unexpected EOF while skipping data block "
+                         f"(expected {pb_len} bytes).")
       return True
     return False
 
-- 
2.43.0


From 7d0a71db7d9ae81f627c1b0e250cd1d86b640bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 08/33] fix: text formats could not read or write .gz files

---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From d7a5228948a2b348857260e203e06102ebae9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 09/33] fix: text writer wrote a blank line for a machine too
 large for the format

---
 Code/IO/StdText.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index 5ad55d7..a798c6e 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -45,8 +45,15 @@ class Writer:
     if self.outfilename:
       self.outfile.close()
 
+  def _write_ttable(self, tm : Turing_Machine.Simple_Machine) -> None:
+    ttable = tm.ttable_str()
+    if not ttable:
+      # Don't write a blank line: readers would take it for the end of the file.
+      raise ValueError(f"TM too large for text format ({tm.num_states}x{tm.num_symbols})")
+    self.outfile.write(ttable)
+
   def write_record(self, tm_record : TM_Record) -> None:
-    self.outfile.write(tm_record.tm().ttable_str())
+    self._write_ttable(tm_record.tm())
     halt_status = tm_record.proto.status.halt_status
     if halt_status.is_halting:
       # Remove _ from int strings so that we can sort them with `sort`.
@@ -59,7 +66,7 @@ class Writer:
 
   def write_tm(self, tm : Turing_Machine.Simple_Machine) -> None:
     """Convenience method to just write a TM directly without wrapping it in a record."""
-    self.outfile.write(tm.ttable_str())
+    self._write_ttable(tm)
     self.outfile.write("\n")
 
   def flush(self):
-- 
2.43.0


From 50fc178feb55f3aad907d9af410e16093c6936a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 10/33] fix: index readers could not be used as context
 managers

---
 Code/IO/BBC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..f6a0d8e 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -147,6 +147,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -164,7 +165,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -178,6 +179,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From 969327ba12625aee631a71c072b218afc2f3cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:04 +0000
Subject: [PATCH 11/33] fix: refuse truncated machines in the input of the C++
 programs

---
 cpp/src/turing_machine.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..cb2abb1 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -134,6 +134,7 @@ TuringMachine* ReadTuringMachine(std::istream* instream,
       // Each trans in a row takes up exactly 3 bytes, Ex: "1RB".
       // End of row is indicated by an underscore ("_").
       for (;i < line.size() && line[i] != '_'; i += 3) {
+        ASSERT(i + 3 <= line.size());
         TuringMachine::LookupResult trans;
         if (line[i] == '-') {
           // Undecided transition
@@ -165,6 +166,16 @@ TuringMachine* ReadTuringMachine(std::istream* instream,
       transitions.push_back(row);
       i += 1;
     }
+    // Make sure that this is a complete TM (and not a truncated line).
+    ASSERT(!transitions.empty());
+    ASSERT(!transitions[0].empty());
+    for (const auto& row : transitions) {
+      ASSERT(row.size() == transitions[0].size());
+      for (const TuringMachine::LookupResult& trans : row) {
+        ASSERT(trans.state < static_cast<State>(transitions.size()));
+        ASSERT(trans.symbol < static_cast<Symbol>(row.size()));
+      }
+    }
     return new TuringMachine(transitions, base_name);
   } else {
     // Couldn't read line, so we're done.
-- 
2.43.0


From acbbafe25e24b367aab43a3d5fe8b272041cf986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 12/33] fix: continuing an enumeration counted undecided
 transitions as writing 1

---
 cpp/src/turing_machine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index cb2abb1..e31dd5a 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -30,8 +30,10 @@ TuringMachine::TuringMachine(
   int num_halts = 0;
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
-      max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      if (!trans.undecided) {
+        max_state = std::max(max_state, trans.state);
+        max_symbol = std::max(max_symbol, trans.symbol);
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
-- 
2.43.0


From 38b4b018dc50fe448b04efe4bda6879c041ec853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 13/33] fix: only_unknown was not initialised without Boost

---
 cpp/src/lin_recur_enumerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..6a2b627 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -33,6 +33,7 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     out_unknown_stream_(&out_unknown_buf_),
 #endif
     max_steps_(max_steps),
+    only_unknown(only_unknown_in),
     proc_id_(proc_id)
 {
 #ifdef BOOST_FOUND
@@ -42,8 +43,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 1ada0eb74bd8090249d9970120f09101ce0aa4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 14/33] fix: C++ enumerators reported success after I/O errors

---
 cpp/src/direct_sim_all.cpp         |  6 ++++
 cpp/src/lazy_beaver_enumerator.cpp | 12 ++++++-
 cpp/src/lazy_beaver_enumerator.h   |  5 +++
 cpp/src/lb_enum.cpp                |  1 +
 cpp/src/lb_enum_continue.cpp       |  4 +++
 cpp/src/lin_recur_enumerator.cpp   | 51 +++++++++++++++++++++++++++---
 cpp/src/lin_recur_enumerator.h     |  8 +++++
 cpp/src/lr_enum.cpp                |  1 +
 cpp/src/lr_enum_continue.cpp       |  5 +++
 cpp/src/util.cpp                   | 17 ++++++++++
 cpp/src/util.h                     |  8 +++++
 11 files changed, 112 insertions(+), 6 deletions(-)

diff --git a/cpp/src/direct_sim_all.cpp b/cpp/src/direct_sim_all.cpp
index a612b6d..1975502 100644
--- a/cpp/src/direct_sim_all.cpp
+++ b/cpp/src/direct_sim_all.cpp
@@ -19,7 +19,9 @@ void DirectSimMain(const std::string& in_tms_filename, const long num_steps,
   int num_unknown = 0;
   // Go through all TMs in infile simulating each.
   std::ifstream in_tms_stream(in_tms_filename, std::ios::in | std::ios::binary);
+  CheckStream(in_tms_stream, in_tms_filename);
   std::ofstream out_tms_stream(out_tms_filename, std::ios::out | std::ios::binary);
+  CheckStream(out_tms_stream, out_tms_filename);
   while (true) {
     std::unique_ptr<TuringMachine> tm(ReadTuringMachine(&in_tms_stream, ""));
     if (tm == nullptr) {
@@ -38,8 +40,12 @@ void DirectSimMain(const std::string& in_tms_filename, const long num_steps,
         num_unknown += 1;
         out_tms_stream << " Unknown " << sim.step_num() << std::endl;
       }
+      CheckStream(out_tms_stream, out_tms_filename);
     }
   }
+  CheckReadAll(in_tms_stream, in_tms_filename);
+  out_tms_stream.close();
+  CheckStream(out_tms_stream, out_tms_filename);
 
   std::cout << "Finished simulating " << num_steps << " steps"
             << "  Total: " << num_total
diff --git a/cpp/src/lazy_beaver_enumerator.cpp b/cpp/src/lazy_beaver_enumerator.cpp
index d1695b3..73ecc93 100644
--- a/cpp/src/lazy_beaver_enumerator.cpp
+++ b/cpp/src/lazy_beaver_enumerator.cpp
@@ -19,19 +19,27 @@ LazyBeaverEnum::LazyBeaverEnum(const long max_steps,
                                const std::string& print_prefix)
   : BaseEnumerator(/* allow_no_halt = */ false),
     max_steps_(max_steps),
+    out_witness_filename_(out_witness_filename),
+    out_nonhalt_filename_(out_nonhalt_filename),
     print_prefix_(print_prefix) {
   out_witness_stream_.reset(
     new std::ofstream(out_witness_filename, std::ios::out | std::ios::binary));
+  CheckStream(*out_witness_stream_, out_witness_filename_);
   if (!out_nonhalt_filename.empty()) {
     out_nonhalt_stream_.reset(
       new std::ofstream(out_nonhalt_filename, std::ios::out | std::ios::binary));
+    CheckStream(*out_nonhalt_stream_, out_nonhalt_filename_);
   }
 }
 
-LazyBeaverEnum::~LazyBeaverEnum() {
+LazyBeaverEnum::~LazyBeaverEnum() {}
+
+void LazyBeaverEnum::close() {
   out_witness_stream_->close();
+  CheckStream(*out_witness_stream_, out_witness_filename_);
   if (out_nonhalt_stream_) {
     out_nonhalt_stream_->close();
+    CheckStream(*out_nonhalt_stream_, out_nonhalt_filename_);
   }
 }
 
@@ -74,12 +82,14 @@ EnumExpandParams LazyBeaverEnum::filter_tm(const TuringMachine& tm) {
       *out_witness_stream_ << sim.step_num() << "\t";
       WriteTuringMachine(tm, out_witness_stream_.get());
       *out_witness_stream_ << "\n";
+      CheckStream(*out_witness_stream_, out_witness_filename_);
     }
   } else {
     // Non-halting machine.
     if (out_nonhalt_stream_) {
       WriteTuringMachine(tm, out_nonhalt_stream_.get());
       *out_nonhalt_stream_ << "\n";
+      CheckStream(*out_nonhalt_stream_, out_nonhalt_filename_);
     }
   }
 
diff --git a/cpp/src/lazy_beaver_enumerator.h b/cpp/src/lazy_beaver_enumerator.h
index ea65bca..2b8206f 100644
--- a/cpp/src/lazy_beaver_enumerator.h
+++ b/cpp/src/lazy_beaver_enumerator.h
@@ -26,6 +26,9 @@ class LazyBeaverEnum : public BaseEnumerator {
 
   void print_stats() const;
 
+  // Close all output files. Exits with an error if they are not complete.
+  void close();
+
  private:
   virtual EnumExpandParams filter_tm(const TuringMachine& tm);
 
@@ -34,6 +37,8 @@ class LazyBeaverEnum : public BaseEnumerator {
   std::set<long> steps_realized_;
 
   // Output streams
+  const std::string out_witness_filename_;
+  const std::string out_nonhalt_filename_;
   std::unique_ptr<std::ofstream> out_witness_stream_;
   std::unique_ptr<std::ofstream> out_nonhalt_stream_;
 
diff --git a/cpp/src/lb_enum.cpp b/cpp/src/lb_enum.cpp
index 126a7f2..cdae354 100644
--- a/cpp/src/lb_enum.cpp
+++ b/cpp/src/lb_enum.cpp
@@ -22,6 +22,7 @@ void EnumerateAll(const int num_states, const int num_symbols, const long max_st
   // Depth-first search of all TMs in TNF (but allowing A0->0R?).
   LazyBeaverEnum enumerator(max_steps, out_witness_filename, out_nonhalt_filename);
   enumerator.enumerate(new TuringMachine(num_states, num_symbols));
+  enumerator.close();
 
   enumerator.print_stats();
   std::cout << "Stat : Runtime = " << timer.time_elapsed_s() << std::endl;
diff --git a/cpp/src/lb_enum_continue.cpp b/cpp/src/lb_enum_continue.cpp
index f629b6c..21568d7 100644
--- a/cpp/src/lb_enum_continue.cpp
+++ b/cpp/src/lb_enum_continue.cpp
@@ -19,6 +19,7 @@ void ContinueEnumerateFromFile(const std::string& in_tms_filename,
   LazyBeaverEnum enumerator(max_steps, out_witness_filename, "",
                             std::to_string(proc_num));
   std::ifstream in_tms_stream(in_tms_filename, std::ios::in | std::ios::binary);
+  CheckStream(in_tms_stream, in_tms_filename);
   for (int i = 0;; ++i) {
     // For now, we use a dummy base name for TMs which is just the "(4)" for
     // the TM 4 in the file.
@@ -34,6 +35,9 @@ void ContinueEnumerateFromFile(const std::string& in_tms_filename,
     }
   }
 
+  CheckReadAll(in_tms_stream, in_tms_filename);
+  enumerator.close();
+
   enumerator.print_stats();
   std::cout << "Stat : Runtime = " << timer.time_elapsed_s() << std::endl;
 }
diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 6a2b627..c32fe59 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -7,6 +7,7 @@
 
 #ifdef BOOST_FOUND
 #include <boost/iostreams/filtering_streambuf.hpp>
+#include <boost/iostreams/concepts.hpp>
 #include <boost/iostreams/copy.hpp>
 #include <boost/iostreams/filter/gzip.hpp>
 #endif
@@ -18,6 +19,26 @@
 
 namespace busy_beaver {
 
+#ifdef BOOST_FOUND
+namespace {
+
+// Boost writes directly to the buffer of a std::ostream and loses the error if
+// that fails. This sink leaves errors in the state of the stream instead.
+class StreamSink : public boost::iostreams::sink {
+ public:
+  explicit StreamSink(std::ostream* stream) : stream_(stream) {}
+  std::streamsize write(const char* s, std::streamsize n) {
+    stream_->write(s, n);
+    return n;
+  }
+
+ private:
+  std::ostream* stream_;
+};
+
+}  // namespace
+#endif
+
 LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
                            const long max_steps,
                            const std::string& out_halt_filename,
@@ -34,6 +55,9 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
 #endif
     max_steps_(max_steps),
     only_unknown(only_unknown_in),
+    out_halt_filename_(out_halt_filename),
+    out_inf_filename_(out_inf_filename),
+    out_unknown_filename_(out_unknown_filename),
     proc_id_(proc_id)
 {
 #ifdef BOOST_FOUND
@@ -53,9 +77,9 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     out_unknown_buf_.push(boost::iostreams::gzip_compressor());
   }
 
-  out_halt_buf_   .push(out_halt_stream_2_);
-  out_inf_buf_    .push(out_inf_stream_2_);
-  out_unknown_buf_.push(out_unknown_stream_2_);
+  out_halt_buf_   .push(StreamSink(&out_halt_stream_2_));
+  out_inf_buf_    .push(StreamSink(&out_inf_stream_2_));
+  out_unknown_buf_.push(StreamSink(&out_unknown_stream_2_));
 #else
   if (compress_output) {
     std::cerr << "Compressing TM output without compiling with Boost isn't supported\n";
@@ -66,13 +90,28 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
   out_inf_stream_.open(out_inf_filename, std::ios::out | std::ios::binary);
   out_unknown_stream_.open(out_unknown_filename, std::ios::out | std::ios::binary);
 #endif
+  check_output();
 }
 
-LinRecurEnum::~LinRecurEnum() {
-#if BOOST_FOUND
+LinRecurEnum::~LinRecurEnum() {}
+
+void LinRecurEnum::check_output() const {
+#ifdef BOOST_FOUND
+  CheckStream(out_halt_stream_2_, out_halt_filename_);
+  CheckStream(out_inf_stream_2_, out_inf_filename_);
+  CheckStream(out_unknown_stream_2_, out_unknown_filename_);
+#endif
+  CheckStream(out_halt_stream_, out_halt_filename_);
+  CheckStream(out_inf_stream_, out_inf_filename_);
+  CheckStream(out_unknown_stream_, out_unknown_filename_);
+}
+
+void LinRecurEnum::close() {
+#ifdef BOOST_FOUND
   boost::iostreams::close(out_halt_buf_   );
   boost::iostreams::close(out_inf_buf_    );
   boost::iostreams::close(out_unknown_buf_);
+  check_output();
 
   out_halt_stream_2_   .close();
   out_inf_stream_2_    .close();
@@ -82,6 +121,7 @@ LinRecurEnum::~LinRecurEnum() {
   out_inf_stream_    .close();
   out_unknown_stream_.close();
 #endif
+  check_output();
 }
 
 void LinRecurEnum::print_stats(const std::string& prefix) const {
@@ -132,6 +172,7 @@ EnumExpandParams LinRecurEnum::filter_tm(const TuringMachine& tm) {
     WriteTuringMachine(tm, &out_unknown_stream_);
     out_unknown_stream_ << "\n";
   }
+  check_output();
 
   // Data needed for enumeration expansion.
   return {result.is_halted, result.last_state, result.last_symbol};
diff --git a/cpp/src/lin_recur_enumerator.h b/cpp/src/lin_recur_enumerator.h
index 146984c..1112956 100644
--- a/cpp/src/lin_recur_enumerator.h
+++ b/cpp/src/lin_recur_enumerator.h
@@ -32,8 +32,12 @@ class LinRecurEnum : public BaseEnumerator {
 
   void print_stats(const std::string& prefix) const;
 
+  // Close all output files. Exits with an error if they are not complete.
+  void close();
+
  private:
   virtual EnumExpandParams filter_tm(const TuringMachine& tm);
+  void check_output() const;
 
   const long max_steps_;
 
@@ -61,6 +65,10 @@ class LinRecurEnum : public BaseEnumerator {
   std::ofstream out_unknown_stream_;
 #endif
 
+  const std::string out_halt_filename_;
+  const std::string out_inf_filename_;
+  const std::string out_unknown_filename_;
+
   // Stats
   const std::string proc_id_;
   Timer timer_;
diff --git a/cpp/src/lr_enum.cpp b/cpp/src/lr_enum.cpp
index 516784b..18b466d 100644
--- a/cpp/src/lr_enum.cpp
+++ b/cpp/src/lr_enum.cpp
@@ -35,6 +35,7 @@ void LinRecurEnumerate(
       *init_tm, InitialState, BlankSymbol, next, 0));
   }
   enumerator.enumerate(init_tm.release());
+  enumerator.close();
 
   enumerator.print_stats("Final");
 }
diff --git a/cpp/src/lr_enum_continue.cpp b/cpp/src/lr_enum_continue.cpp
index 89afea8..8a60bfd 100644
--- a/cpp/src/lr_enum_continue.cpp
+++ b/cpp/src/lr_enum_continue.cpp
@@ -7,6 +7,7 @@
 #include "enumerator.h"
 #include "lin_recur_enumerator.h"
 #include "turing_machine.h"
+#include "util.h"
 
 
 namespace busy_beaver {
@@ -29,6 +30,7 @@ void ContinueLinRecurEnumerate(
 
   // Go through all TMs in infile enumerating each (and all children).
   std::ifstream in_tms_stream(in_tms_filename, std::ios::in | std::ios::binary);
+  CheckStream(in_tms_stream, in_tms_filename);
   while (true) {
     TuringMachine* tm = ReadTuringMachine(&in_tms_stream, "");
     if (tm == nullptr) {
@@ -39,6 +41,9 @@ void ContinueLinRecurEnumerate(
     }
   }
 
+  CheckReadAll(in_tms_stream, in_tms_filename);
+  enumerator.close();
+
   enumerator.print_stats("Final");
 }
 
diff --git a/cpp/src/util.cpp b/cpp/src/util.cpp
index ac51ef3..3c77bdf 100644
--- a/cpp/src/util.cpp
+++ b/cpp/src/util.cpp
@@ -1,6 +1,8 @@
 #include "util.h"
 
 #include <chrono>
+#include <cstdlib>
+#include <iostream>
 
 
 namespace busy_beaver {
@@ -20,4 +22,19 @@ char* NowTimestamp() {
   return std::ctime(&start_time_t);
 }
 
+void CheckStream(const std::ios& stream, const std::string& filename) {
+  if (stream.fail()) {
+    std::cerr << "I/O error: " << filename << std::endl;
+    // Note: This does not run destructors, so no more output is written.
+    std::exit(1);
+  }
+}
+
+void CheckReadAll(const std::ios& stream, const std::string& filename) {
+  if (stream.bad() || !stream.eof()) {
+    std::cerr << "I/O error: " << filename << std::endl;
+    std::exit(1);
+  }
+}
+
 }  // namespace busy_beaver
diff --git a/cpp/src/util.h b/cpp/src/util.h
index f5f0073..f648bb9 100644
--- a/cpp/src/util.h
+++ b/cpp/src/util.h
@@ -2,6 +2,8 @@
 #define BUSY_BEAVER_UTIL_H_
 
 #include <chrono>
+#include <ios>
+#include <string>
 
 
 namespace busy_beaver {
@@ -21,6 +23,12 @@ class Timer {
 
 char* NowTimestamp();
 
+// Exit with an error if opening, reading or writing `filename` failed.
+void CheckStream(const std::ios& stream, const std::string& filename);
+
+// Exit with an error if reading `filename` stopped before the end of the file.
+void CheckReadAll(const std::ios& stream, const std::string& filename);
+
 }  // namespace busy_beaver
 
 #endif  // BUSY_BEAVER_UTIL_H_
-- 
2.43.0


From 12fc63cd3cb959150c690b166e6e4f95974de302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 15/33] fix: parallel enumeration scripts ignored failed chunks

---
 cpp/scripts/lb_enum_local_parallel.sh          | 11 ++++++++++-
 cpp/scripts/lr_enum_local_parallel.sh          | 11 ++++++++++-
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 11 ++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/cpp/scripts/lb_enum_local_parallel.sh b/cpp/scripts/lb_enum_local_parallel.sh
index c3c69c1..3fddefc 100755
--- a/cpp/scripts/lb_enum_local_parallel.sh
+++ b/cpp/scripts/lb_enum_local_parallel.sh
@@ -32,12 +32,21 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/tms_init $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   INPUT_TMS=${DATA_DIR}/tms_init.part_${chunk_num}_of_${NUM_PROCESSES}
   ./lb_enum_continue $INPUT_TMS $MAX_STEPS ${DATA_DIR}/steps_part_${chunk_num}_of_${NUM_PROCESSES} ${chunk_num} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: Not all enumerations completed." 1>&2
+  exit 1
+fi
 
 echo
 date
diff --git a/cpp/scripts/lr_enum_local_parallel.sh b/cpp/scripts/lr_enum_local_parallel.sh
index 4d3d848..7081d64 100755
--- a/cpp/scripts/lr_enum_local_parallel.sh
+++ b/cpp/scripts/lr_enum_local_parallel.sh
@@ -54,6 +54,7 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/unknown_init.txt $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   ./lr_enum_continue \
     ${DATA_DIR}/unknown_init.txt.part_${chunk_num}_of_${NUM_PROCESSES} \
@@ -65,9 +66,17 @@ for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
     ${ALLOW_NO_HALT} \
     ${COMPRESS_OUTPUT} \
     ${ONLY_UNKNOWN} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: Not all enumerations completed." 1>&2
+  exit 1
+fi
 
 if [ "${COMPRESS_OUTPUT}" = "true" ]; then
   gzip ${DATA_DIR}/*_init*txt*
diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 33d25c3..8405bcf 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -45,6 +45,7 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/unknown_init.txt $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   ./lr_enum_continue \
     ${DATA_DIR}/unknown_init.txt.part_${chunk_num}_of_${NUM_PROCESSES} \
@@ -55,9 +56,17 @@ for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
     ${chunk_num} \
     ${ALLOW_NO_HALT} \
     ${COMPRESS_OUTPUT} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: Not all enumerations completed." 1>&2
+  exit 1
+fi
 
 if [ "${COMPRESS_OUTPUT}" = "true" ]; then
   gzip ${DATA_DIR}/*_init*txt*
-- 
2.43.0


From 0adc32c23c142a3e6305c237b1da0d6e9dd901a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:05 +0000
Subject: [PATCH 16/33] fix: dev_null enumeration script failed merging files
 it does not write

---
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 8405bcf..3a35881 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -75,15 +75,11 @@ fi
 echo
 date
 echo "(4) Merging the results"
+# Note: Halting and infinite machines are not saved and we don't include
+# ${DATA_DIR}/unknown_init.txt which is redundant.
 if [ "${COMPRESS_OUTPUT}" = "false" ]; then
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt
-  # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt
 else
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt.gz
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt.gz
-  # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt.gz
 fi
 
-- 
2.43.0


From 613066c57f0dcd45816c115870dae9009733bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 17/33] fix: TM_Analyze fails when no record has a step count

---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..3a8555e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0


From 96083b1b3834387cea21e98e1fa481b9c5b10859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 18/33] fix: negative time-out duration when the clock is set
 back

---
 Code/Macro_Simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index 8eaccb9..41d4958 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -68,7 +68,8 @@ def run_timer(tm_record : TM_Record, options,
   except Alarm.AlarmException:
     Alarm.ALARM.cancel_alarm()
     tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
-      time.time() - start_time)
+      # The clock may have been set back meanwhile.
+      max(time.time() - start_time, 0))
 
 def run_options(tm_record : TM_Record, options) -> None:
   """Run the Accelerated Turing Machine Simulator, running a few simple filters
-- 
2.43.0


From ac5cdf1cb00d86bcb08ee5cb09b99fcdc5112f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 19/33] fix: sbatch_filter_setup.sh compares the list size as a
 string

---
 Tools/sbatch_filter_setup.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_setup.sh b/Tools/sbatch_filter_setup.sh
index e1de59c..e9ddf82 100644
--- a/Tools/sbatch_filter_setup.sh
+++ b/Tools/sbatch_filter_setup.sh
@@ -22,7 +22,7 @@ rm -rf ${WORK_DIR}
 mkdir -p ${WORK_DIR}/split/in/ ${WORK_DIR}/logs/
 
 # Pull in holdouts from previous filter (skip this copy if holdouts file is too large).
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.txt)" < 10000000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.txt) < 10000000000 )); then
   cp ${ROOT_DIR}/unknown.txt ${WORK_DIR}/in.txt
 fi
 
-- 
2.43.0


From aba250cc69e6fc39cea242eb82b9ea92d57029bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 20/33] fix: filter.sh compares the list size as a string and
 leaves a stale text list

---
 Tools/filter.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index ee139aa..6507fc0 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -37,6 +37,6 @@ cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
 # Only convert to text if it's reasonably small.
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.pb)" < 1000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.pb) < 1000000 )); then
   ${TOOLS_DIR}/../Code/IO_Convert.py ${ROOT_DIR}/unknown.{pb,txt}
 fi
-- 
2.43.0


From 00951a26cbc233101d8fedc6a5fdf3473707cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 21/33] fix: filter.sh leaves a torn list of undecided machines
 when killed while replacing it

---
 Tools/filter.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index 6507fc0..3a6333e 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -31,8 +31,9 @@ time "$@" --infile=${WORK_DIR}/in.pb --outfile=${WORK_DIR}/out.pb
 # Categorize outputs
 time ${TOOLS_DIR}/../Code/IO_Categorize.py ${WORK_DIR}/out.pb --out-dir=${WORK_DIR}/
 
-# Update for next filter
-cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb
+# Update for next filter. Copy and rename so that the list is never incomplete.
+cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb.tmp
+mv ${ROOT_DIR}/unknown.pb.tmp ${ROOT_DIR}/unknown.pb
 
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
-- 
2.43.0


From 23118231323554cac3ad52a2c22274111add1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 22/33] fix: sbatch_filter_finish.sh drops decided machines
 without a step count

---
 Tools/sbatch_filter_finish.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_finish.sh b/Tools/sbatch_filter_finish.sh
index c41f8e8..44ffa12 100644
--- a/Tools/sbatch_filter_finish.sh
+++ b/Tools/sbatch_filter_finish.sh
@@ -31,7 +31,7 @@ fi
 cat ${WORK_DIR}/split/0*/unknown.txt > ${ROOT_DIR}/unknown.txt
 
 # Combine outputs
-for x in halt.{small,large}.pb unknown.pb qhalt.{small,large}.pb infinite.pb; do
+for x in halt.{small,large,unk}.pb unknown.pb qhalt.{small,large,unk}.pb infinite.pb; do
   cat ${WORK_DIR}/split/0*/${x} > ${WORK_DIR}/${x}
 done
 
-- 
2.43.0


From 65b3d283ae79447358f51022c2eebea7eb8757eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:26 +0000
Subject: [PATCH 23/33] fix: sbatch_filter_finish.sh leaves a torn list of
 undecided machines when killed while replacing it

---
 Tools/sbatch_filter_finish.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Tools/sbatch_filter_finish.sh b/Tools/sbatch_filter_finish.sh
index 44ffa12..4764dc1 100644
--- a/Tools/sbatch_filter_finish.sh
+++ b/Tools/sbatch_filter_finish.sh
@@ -27,8 +27,9 @@ if (( $(ls ${WORK_DIR}/split/0*/success | wc -l) != ${NUM_SHARDS})); then
   exit 1
 fi
 
-# Update holdouts for next filter
-cat ${WORK_DIR}/split/0*/unknown.txt > ${ROOT_DIR}/unknown.txt
+# Update holdouts for next filter. Write and rename so that the list is never incomplete.
+cat ${WORK_DIR}/split/0*/unknown.txt > ${ROOT_DIR}/unknown.txt.tmp
+mv ${ROOT_DIR}/unknown.txt.tmp ${ROOT_DIR}/unknown.txt
 
 # Combine outputs
 for x in halt.{small,large,unk}.pb unknown.pb qhalt.{small,large,unk}.pb infinite.pb; do
-- 
2.43.0


From 4e99244fee15c3e144b66fdb447e323279f904ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:20 +0000
Subject: [PATCH 24/33] fix: C++ reader took a machine cut off at a row
 separator for a smaller machine

---
 cpp/src/turing_machine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index e31dd5a..195a58c 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -171,6 +171,7 @@ TuringMachine* ReadTuringMachine(std::istream* instream,
     // Make sure that this is a complete TM (and not a truncated line).
     ASSERT(!transitions.empty());
     ASSERT(!transitions[0].empty());
+    ASSERT(line.back() != '_');
     for (const auto& row : transitions) {
       ASSERT(row.size() == transitions[0].size());
       for (const TuringMachine::LookupResult& trans : row) {
-- 
2.43.0


From 509b08ff1935fbb1ce84aca56e5267d137dc98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:41 +0000
Subject: [PATCH 25/33] fix: --seed=0 was replaced by a seed from the clock

---
 Code/Enumerate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..e5630e2 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -258,7 +258,7 @@ def main(args):
   (options, args) = parser.parse_args(args)
 
   ## Set complex defaults
-  if options.randomize and not options.seed:
+  if options.randomize and options.seed is None:
     options.seed = int(1000*time.time())
 
   if not options.outfilename:
-- 
2.43.0


From c7b736bf58da0dd7f06548c510ffe369e660f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:04 +0000
Subject: [PATCH 26/33] fix: filter.sh ignored a failure to read the size of
 the new list

---
 Tools/filter.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index 3a6333e..4583c61 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -38,6 +38,7 @@ mv ${ROOT_DIR}/unknown.pb.tmp ${ROOT_DIR}/unknown.pb
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
 # Only convert to text if it's reasonably small.
-if (( $(wc -c < ${ROOT_DIR}/unknown.pb) < 1000000 )); then
+SIZE=$(wc -c < ${ROOT_DIR}/unknown.pb)
+if (( SIZE < 1000000 )); then
   ${TOOLS_DIR}/../Code/IO_Convert.py ${ROOT_DIR}/unknown.{pb,txt}
 fi
-- 
2.43.0


From 338b18633c19c357e793653b5efba9057196f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:35 +0000
Subject: [PATCH 27/33] fix: --no-output with --num-enum failed at the
 requested number of machines

---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index e5630e2..06e9d7a 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From b10350f5ebce157b9fc0c34dc8d48f0cedbb4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:54 +0000
Subject: [PATCH 28/33] fix: interrupted rerun of an array job could leave its
 old success mark without results

---
 Tools/sbatch_filter_array.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Tools/sbatch_filter_array.sh b/Tools/sbatch_filter_array.sh
index 464337b..ed0d4d4 100644
--- a/Tools/sbatch_filter_array.sh
+++ b/Tools/sbatch_filter_array.sh
@@ -23,6 +23,8 @@ INDEX=$(printf "%08d" $ARRAY_ID)
 OUT_DIR=${WORK_DIR}/${INDEX}/
 IN_FILE=${WORK_DIR}/in/in.${INDEX}
 
+# Remove the success mark of an earlier run first, so that it never outlives the results.
+rm -f ${OUT_DIR}/success
 rm -rf ${OUT_DIR}
 mkdir -p ${OUT_DIR}
 
-- 
2.43.0


From bd51b5e44a651a3854bacda55846895255a54b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:18 +0000
Subject: [PATCH 29/33] fix: venn_diff printed left-only lines in arbitrary
 order and failed on repeated common lines

---
 Tools/venn_diff.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/Tools/venn_diff.py b/Tools/venn_diff.py
index f2e32a7..341f254 100755
--- a/Tools/venn_diff.py
+++ b/Tools/venn_diff.py
@@ -11,16 +11,13 @@ from pathlib import Path
 
 
 def venn_diff(in_left, in_right, out_inter, out_lonly, out_ronly):
-  left_lines = set()
-  for line in in_left:
-    left_lines.add(line)
-
-  left_only = left_lines
-  left_all = frozenset(left_lines)
+  # Using a dict (instead of a set) to keep the lines in order.
+  left_only = dict.fromkeys(in_left)
+  left_all = frozenset(left_only)
   for line in in_right:
     if line in left_all:
       # Line is in both left and right
-      left_only.remove(line)
+      left_only.pop(line, None)
       out_inter.write(line)
 
     else:
-- 
2.43.0


From a85505cf979f5fe7eff6558ad806499b2d4445e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:18 +0000
Subject: [PATCH 30/33] fix: writing several machines in Morphett format
 silently merged them into one

---
 Code/IO/Morphett.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..0b989c3 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -18,6 +18,7 @@ class Writer:
   def __init__(self, outfilename : Path):
     self.outfilename = Path(outfilename)
     self.outfile = None
+    self.has_record = False
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
@@ -31,6 +32,10 @@ class Writer:
 
 
   def write_record(self, tm_record : TM_Record) -> None:
+    if self.has_record:
+      # Nothing separates machines in this format: the quintuples of several would be read as one.
+      raise ValueError("Morphett format can only hold one TM")
+    self.has_record = True
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
     tm.symbols[0] = "_"
-- 
2.43.0


From f8e865907a2fd61d660547cc0bc4a5bd714ee901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:14 +0000
Subject: [PATCH 31/33] fix: prover failed on machines sent between processes
 (compared strings by identity)

---
 Code/Macro/Proof_System.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..4c8a86d 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -809,7 +809,7 @@ class Proof_System(object):
                                            wrote_offset)
       self.num_loops += 1
 
-      if gen_sim.op_state is not Turing_Machine.RUNNING:
+      if gen_sim.op_state != Turing_Machine.RUNNING:
         if self.verbose:
           print()
           self.print_this("** Failed: Machine stopped running:", gen_sim.op_state)
-- 
2.43.0


From 498080832928dbd6b1b2fbe64025c61d7cdd9af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:05 +0000
Subject: [PATCH 32/33] fix: finish went on without all shards when counting
 them failed

---
 Tools/sbatch_filter_finish.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_finish.sh b/Tools/sbatch_filter_finish.sh
index 4764dc1..2ee86cb 100644
--- a/Tools/sbatch_filter_finish.sh
+++ b/Tools/sbatch_filter_finish.sh
@@ -23,7 +23,8 @@ rm -rf ${TMP_DIR}
 mkdir -p ${TMP_DIR}
 
 # Make sure all shards succeeded.
-if (( $(ls ${WORK_DIR}/split/0*/success | wc -l) != ${NUM_SHARDS})); then
+NUM_DONE=$(ls ${WORK_DIR}/split/0*/success | wc -l)
+if (( ${NUM_DONE} != ${NUM_SHARDS} )); then
   exit 1
 fi
 
-- 
2.43.0


From f5a10bbcabb9051378e3c51505318f79d45a0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:12 +0000
Subject: [PATCH 33/33] fix: machines that leave a state for good inside a
 macro step were recorded as not quasihalting

States visited by the last macro step before its repeat-in-place began were taken
to be visited for ever. Take only those visited within the repeat, and note when
the others were last seen.
---
 Code/Macro/Simulator.py      |  7 +++++--
 Code/Macro/Turing_Machine.py | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..2af98ad 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,11 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      self.inf_recur_states = trans.inf_recur_states
+      # trans could visit some states only before the repeat.
+      if self.compute_steps and self.states_last_seen is not None:
+        for state, trans_last_seen in trans.states_last_seen.items():
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..8d9f2cd 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -52,7 +52,7 @@ class Transition(object):
                condition,
                symbol_out, state_out, dir_out,
                num_base_steps, states_last_seen,
-               condition_details = None):
+               condition_details = None, inf_recur_states = None):
     self.condition = condition
     self.condition_details = condition_details if condition_details else []
     self.symbol_out = symbol_out
@@ -60,6 +60,8 @@ class Transition(object):
     self.dir_out = dir_out
     self.num_base_steps = num_base_steps
     self.states_last_seen = states_last_seen
+    # If condition is INF_REPEAT: The states which are visited infinitely often.
+    self.inf_recur_states = inf_recur_states
 
   # TODO: Deprecate
   def to_legacy_tuple(self):
@@ -99,11 +101,14 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   num_loops = 0
   tape = list(start_tape)
   states_last_seen = {}
+  inf_recur_states = None
 
   # Once we run long enough use this to detect repeat-in-place.
   # If `old_config` is ever repeated, we know it will repeat forever.
   # Format: (state, dir, pos, tape)
   old_config = None
+  # num_base_steps at which we reached `old_config`.
+  old_base_steps = None
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
 
@@ -127,6 +132,9 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      # States last seen before `old_config` are not part of the repeat.
+      inf_recur_states = [state for state, last_seen in states_last_seen.items()
+                          if last_seen >= old_base_steps]
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -135,6 +143,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      old_base_steps = num_base_steps
       next_config_save *= 2
 
     if num_loops > max_loops:
@@ -147,6 +156,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Base machine stopped running (HALT, INF_REPEAT, etc.)
       condition = trans.condition
       condition_details = trans.condition_details + [pos]
+      inf_recur_states = trans.inf_recur_states
       break
     if not (0 <= pos < len(tape)):
       # We ran off one end of the macro symbol. We're done.
@@ -160,7 +170,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     # Block_Macro_Machine, but Backsymbol_Macro_Machine will need to modify
     # this and state_out.
     symbol_out=tape, state_out=state, dir_out=dir,
-    num_base_steps=num_base_steps, states_last_seen=states_last_seen)
+    num_base_steps=num_base_steps, states_last_seen=states_last_seen,
+    inf_recur_states=inf_recur_states)
 
 
 class Turing_Machine(object):
-- 
2.43.0

