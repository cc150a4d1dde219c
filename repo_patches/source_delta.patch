From 230cdeafee423b95baa02488fc874d4b78947e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 01/23] Add simulation hooks guarded by cfg(splr_sim)

---
 src/lib.rs           |  4 +++
 src/sim.rs           | 63 ++++++++++++++++++++++++++++++++++++++++++++
 src/solver/search.rs | 19 +++++++++++--
 3 files changed, 84 insertions(+), 2 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index d1a107a..abf476e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::upper_case_acronyms)]
+#![allow(unexpected_cfgs)] // `splr_sim`, see module `sim`
 /*!
 # A modern CDCL SAT solver in Rust
 
@@ -60,6 +61,9 @@ pub mod processor;
 pub mod solver;
 /// Module `state` is a collection of internal data.
 pub mod state;
+/// Module `sim` provides hooks for deterministic simulation.
+#[cfg(splr_sim)]
+pub mod sim;
 /// Module `types` provides various building blocks, including some common traits.
 pub mod types;
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..5d68425
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,63 @@
+//! Hooks for deterministic simulation. Compiled only with `--cfg splr_sim`.
+//!
+//! They move heuristic events (the end of a stage, the start of a cycle or a segment, a restart)
+//! to other legal moments, so that short runs reach the inprocessing code. A hook never changes
+//! what an event does. All choices come from a stream that the simulator seeds per thread; a
+//! thread that has not been configured behaves as if the hooks were absent.
+use std::cell::Cell;
+
+/// The events that can be moved.
+#[derive(Clone, Copy, Debug)]
+pub enum Site {
+    Stage = 0,
+    Cycle = 1,
+    Segment = 2,
+    Restart = 3,
+}
+
+thread_local! {
+    static STREAM: Cell<u64> = const { Cell::new(0) };
+    static RATE: Cell<[u16; 4]> = const { Cell::new([0; 4]) };
+    static FIRED: Cell<[u64; 4]> = const { Cell::new([0; 4]) };
+}
+
+/// Set the stream and the rate (out of 1024) of each site for the current thread.
+pub fn configure(seed: u64, rate: [u16; 4]) {
+    STREAM.set(seed);
+    RATE.set(rate);
+    FIRED.set([0; 4]);
+}
+
+/// How often each site has fired in the current thread.
+pub fn fired() -> [u64; 4] {
+    FIRED.get()
+}
+
+/// Return `true` if the event at `site` should happen now.
+pub fn coin(site: Site) -> bool {
+    let rate = RATE.get()[site as usize];
+    if rate == 0 {
+        return false;
+    }
+    let s = STREAM.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
+    STREAM.set(s);
+    let mut x = s;
+    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
+    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
+    x ^= x >> 31;
+    let fire = (x & 1023) < u64::from(rate);
+    if fire {
+        let mut f = FIRED.get();
+        f[site as usize] += 1;
+        FIRED.set(f);
+    }
+    fire
+}
+
+/// Possibly turn the beginning of a stage into the beginning of a cycle or a segment.
+pub fn stage_kind(kind: Option<bool>) -> Option<bool> {
+    match (kind, coin(Site::Cycle), coin(Site::Segment)) {
+        (None, false, _) => None,
+        (k, _, segment) => Some(k.unwrap_or(false) || segment),
+    }
+}
diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..1d4af49 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -219,6 +219,17 @@ impl SolveIF for Solver {
     }
 }
 
+/// a hook for simulation: always `false` unless compiled with `--cfg splr_sim`
+macro_rules! sim_coin {
+    ($site: ident) => {{
+        #[cfg(splr_sim)]
+        let fired = crate::sim::coin(crate::sim::Site::$site);
+        #[cfg(not(splr_sim))]
+        let fired = false;
+        fired
+    }};
+}
+
 /// main loop; returns `Ok(true)` for SAT, `Ok(false)` for UNSAT.
 fn search(
     asg: &mut AssignStack,
@@ -252,7 +263,7 @@ fn search(
             num_learnt += 1;
         }
         let stage_counter = num_learnt; // - state.num_chrono_bt;
-        if state.stm.stage_ended(/* num_learnt */ stage_counter) {
+        if state.stm.stage_ended(/* num_learnt */ stage_counter) || sim_coin!(Stage) {
             if let Some(p) = state.elapsed() {
                 if 1.0 <= p {
                     return Err(SolverError::TimeOut);
@@ -270,6 +281,8 @@ fn search(
             dump_stage(asg, cdb, state, previous_stage);
             let next_stage: Option<bool> =
                 state.stm.prepare_new_stage(/* num_learnt */ stage_counter);
+            #[cfg(splr_sim)]
+            let next_stage = crate::sim::stage_kind(next_stage);
             let scale = state.stm.current_scale();
             let max_scale = state.stm.max_scale();
             if cfg!(feature = "reward_annealing") {
@@ -395,7 +408,9 @@ fn search(
         //     cdb.refer(cdb::property::TEma::LBD),
         //     cdb.refer(cdb::property::TEma::Entanglement),
         // )
-        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr {
+        } else if cdb.refer(cdb::property::TEma::LBD).trend() > state.config.rst_lbd_thr
+            || sim_coin!(Restart)
+        {
             RESTART!(asg, cdb, state);
         }
         if let Some(na) = asg.best_assigned() {
-- 
2.43.0


From a8878806d564b22b62648b8acc51279dfa2ef3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 02/23] fix: count variables added by add_var in the problem
 description

Modules instantiated from state.cnf at the start of solve() were sized
without the variables added through SatSolverIF::add_var, and were then
indexed beyond their end.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index d5b9845..0019352 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From 1f5a36d8927385eb4e140b5d9d4000ad8ae1e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 03/23] fix: do not take empty occurrence lists for pure
 literals

With enable_eliminator off, Eliminator::prepare returns early and every
list stays empty; solve() then asserted every variable as a pure literal
and answered UNSAT (with an invalid proof) for satisfiable formulas.
---
 src/processor/simplify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..5d55f74 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,8 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        // The occur lists have been built only while the eliminator is running.
+        if !self.is_running() || w.aborted {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0


From 20a58e66aa109e09e39df69e2b43c950c91a3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 04/23] fix: drop falsified literals from resolvents of
 variable elimination

A resolvent could be watched by two literals that had been falsified and
propagated before; such a clause was never visited again, and solve()
ended with SolverBug (an unsatisfied clause in the extended model).
---
 src/processor/eliminate.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/processor/eliminate.rs b/src/processor/eliminate.rs
index 47522f3..ad06b28 100644
--- a/src/processor/eliminate.rs
+++ b/src/processor/eliminate.rs
@@ -58,13 +58,21 @@ pub fn eliminate_var(
     for p in pos.iter() {
         let learnt_p = cdb[*p].is(FlagClause::LEARNT);
         for n in neg.iter() {
-            match merge(asg, cdb, *p, *n, vi, vec) {
+            if merge(asg, cdb, *p, *n, vi, vec) == 0 {
+                #[cfg(feature = "trace_elimination")]
+                println!(
+                    " - eliminate_var {}: fusion {}{} and {}{}",
+                    vi, p, cdb[*p], n, cdb[*n],
+                );
+                continue;
+            }
+            // Falsified literals have been propagated already (or will be soon).
+            // A clause which watches two of them would never be visited again.
+            let l0 = vec[0];
+            vec.retain(|l| asg.assigned(*l) != Some(false));
+            match vec.len() {
                 0 => {
-                    #[cfg(feature = "trace_elimination")]
-                    println!(
-                        " - eliminate_var {}: fusion {}{} and {}{}",
-                        vi, p, cdb[*p], n, cdb[*n],
-                    );
+                    return Err(SolverError::RootLevelConflict((l0, asg.reason(l0.vi()))));
                 }
                 1 => {
                     let lit = vec[0];
@@ -73,19 +81,9 @@ pub fn eliminate_var(
                         " - eliminate_var {}: found assign {} from {}{} and {}{}",
                         vi, lit, p, cdb[*p], n, cdb[*n],
                     );
-                    match asg.assigned(lit) {
-                        Some(true) => (),
-                        Some(false) => {
-                            return Err(SolverError::RootLevelConflict((
-                                lit,
-                                asg.reason(lit.vi()),
-                            )));
-                        }
-                        None => {
-                            debug_assert!(asg.assigned(lit).is_none());
-                            cdb.certificate_add_assertion(lit);
-                            asg.assign_at_root_level(lit)?;
-                        }
+                    if asg.assigned(lit).is_none() {
+                        cdb.certificate_add_assertion(lit);
+                        asg.assign_at_root_level(lit)?;
                     }
                 }
                 _ => {
-- 
2.43.0


From 4ab7deb4408e44d93c5f75c0070e78f969f39c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 05/23] Bound the number of events moved by the simulation
 hooks

---
 src/sim.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 5d68425..188c016 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -3,7 +3,8 @@
 //! They move heuristic events (the end of a stage, the start of a cycle or a segment, a restart)
 //! to other legal moments, so that short runs reach the inprocessing code. A hook never changes
 //! what an event does. All choices come from a stream that the simulator seeds per thread; a
-//! thread that has not been configured behaves as if the hooks were absent.
+//! thread that has not been configured behaves as if the hooks were absent. The number of moved
+//! events is bounded, so that the search strategy is the usual one from some point on.
 use std::cell::Cell;
 
 /// The events that can be moved.
@@ -15,6 +16,9 @@ pub enum Site {
     Restart = 3,
 }
 
+/// How often each site may fire.
+const LIMIT: [u64; 4] = [3_000, 1_500, 1_500, 20_000];
+
 thread_local! {
     static STREAM: Cell<u64> = const { Cell::new(0) };
     static RATE: Cell<[u16; 4]> = const { Cell::new([0; 4]) };
@@ -36,7 +40,7 @@ pub fn fired() -> [u64; 4] {
 /// Return `true` if the event at `site` should happen now.
 pub fn coin(site: Site) -> bool {
     let rate = RATE.get()[site as usize];
-    if rate == 0 {
+    if rate == 0 || LIMIT[site as usize] <= FIRED.get()[site as usize] {
         return false;
     }
     let s = STREAM.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
-- 
2.43.0


From 5ee1e6451137669d1a804f39961080b50404efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 06/23] fix: do not truncate a fractional time limit to whole
 seconds

---
 src/state.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 0019352..b778a18 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,8 +1,8 @@
 /// Module `state` is a collection of internal data.
 #[cfg(feature = "platform_wasm")]
-use instant::{Duration, Instant};
+use instant::Instant;
 #[cfg(not(feature = "platform_wasm"))]
-use std::time::{Duration, Instant};
+use std::time::Instant;
 use {
     crate::{
         assign, cdb,
@@ -390,13 +390,10 @@ macro_rules! f {
 
 impl StateIF for State {
     fn is_timeout(&self) -> bool {
-        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
+        self.config.c_timeout.max(0.0) < self.start.elapsed().as_secs_f64()
     }
     fn elapsed(&self) -> Option<f64> {
-        Some(
-            self.start.elapsed().as_secs_f64()
-                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
-        )
+        Some(self.start.elapsed().as_secs_f64() / self.config.c_timeout.max(0.0))
     }
     fn progress_header(&mut self) {
         if !self.config.splr_interface || self.config.quiet_mode {
-- 
2.43.0


From 95ff152df952156fe64a93d80587986e0a4b1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 07/23] fix: return IOError when reading the clauses of a CNF
 file fails

---
 src/solver/build.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..c8bf455 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -315,7 +315,7 @@ impl Solver {
                         return Err(SolverError::EmptyClause);
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
-- 
2.43.0


From a6b044828b302fc1b67ac5d8a8d1bfdd379fd04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 08/23] fix: reject out-of-range literals when loading a CNF
 file

---
 src/solver/build.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index c8bf455..5242840 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -12,6 +12,7 @@ use {
 use std::{
     fs::File,
     io::{BufRead, BufReader},
+    num::IntErrorKind,
     path::Path,
 };
 
@@ -302,7 +303,18 @@ impl Solver {
                                 ends_zero = true;
                                 break;
                             }
+                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Ok(val) => v.push(Lit::from(val)),
+                            Err(e)
+                                if matches!(
+                                    e.kind(),
+                                    IntErrorKind::PosOverflow | IntErrorKind::NegOverflow
+                                ) =>
+                            {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Err(_) => (),
                         }
                     }
-- 
2.43.0


From 527e7b662f7fc0673c8d1444a2e077ccc47420a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 09/23] fix: return IOError for a CNF header with malformed
 numbers

---
 src/types/cnf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..e14b823 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -120,11 +120,11 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next()
+                        && let Some(c) = iter.next()
                     {
-                        nv = v;
-                        nc = c;
+                        nv = v.parse().map_err(|_| SolverError::IOError)?;
+                        nc = c.parse().map_err(|_| SolverError::IOError)?;
                         found_valid_header = true;
                         break;
                     }
-- 
2.43.0


From 177144053188a84e5b8476a1ccb52a7161b081b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 10/23] fix: dump unit clauses and no empty clause from
 CNF::dump_to_string

---
 src/cnf/mod.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..352a796 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -196,20 +196,23 @@ impl CnfIf for CNF {
         }
     }
     fn dump_to_string(&self) -> String {
-        format!(
-            "p cnf {} {}\n{} 0\n",
+        let mut units = self.assign.iter().copied().collect::<Vec<_>>();
+        units.sort_unstable_by_key(|l| (l.unsigned_abs(), *l));
+        let mut text = format!(
+            "p cnf {} {}\n",
             self.num_vars,
-            self.clauses.len(),
-            self.clauses
-                .iter()
-                .map(|cls| cls
-                    .iter()
-                    .map(|ch| format!("{ch}"))
-                    .collect::<Vec<_>>()
-                    .join(" "))
-                .collect::<Vec<_>>()
-                .join(" 0\n"),
-        )
+            units.len() + self.clauses.len()
+        );
+        for l in units.iter() {
+            text.push_str(&format!("{l} 0\n"));
+        }
+        for cls in self.clauses.iter() {
+            for l in cls.iter() {
+                text.push_str(&format!("{l} "));
+            }
+            text.push_str("0\n");
+        }
+        text
     }
 }
 
-- 
2.43.0


From df2a3d68d2b28b8d058e5ad7870185631e006b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 11/23] fix: flush in CNF::save so that a failed write is
 reported

---
 src/cnf/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 352a796..da5ab22 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -190,6 +190,7 @@ impl CnfIf for CNF {
         if let Ok(f) = File::create(file) {
             let mut buf = std::io::BufWriter::new(f);
             buf.write_all(self.dump_to_string().as_bytes())
+                .and_then(|_| buf.flush())
                 .map_err(|_| CNFOperationError::WritingCNFFile)
         } else {
             Err(CNFOperationError::CreatingCNFFile)
-- 
2.43.0


From f210a47156e8420658121bb8de838ff17dfe9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 12/23] fix: report corrupted CNF files as errors in CNF::load

---
 src/cnf/mod.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index da5ab22..582775a 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -4,6 +4,7 @@ use std::{
     collections::HashSet,
     fs::File,
     io::{BufRead, BufReader},
+    num::IntErrorKind,
     path::Path,
 };
 
@@ -129,11 +130,18 @@ impl CnfIf for CNF {
                 Ok(_) if found_valid_header => {
                     let mut vec: Vec<i32> = Vec::new();
                     for seg in buf.split(' ') {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
+                        match seg.parse::<i32>() {
+                            Ok(0) => break,
+                            Ok(l) => vec.push(l),
+                            Err(e)
+                                if matches!(
+                                    e.kind(),
+                                    IntErrorKind::PosOverflow | IntErrorKind::NegOverflow
+                                ) =>
+                            {
+                                return Err(CNFOperationError::ParsingCNF);
                             }
-                            vec.push(l);
+                            Err(_) => (),
                         }
                     }
                     debug_assert!(!vec.is_empty());
@@ -151,11 +159,11 @@ impl CnfIf for CNF {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next()
+                        && let Some(c) = iter.next()
                     {
-                        nv = v as u32;
-                        nc = c;
+                        nv = v.parse().map_err(|_| CNFOperationError::ParsingCNF)?;
+                        nc = c.parse().map_err(|_| CNFOperationError::ParsingCNF)?;
                         found_valid_header = true;
                         cnf.no_check_uniqueness = TOO_MANY_CLAUSES < nc;
                     }
@@ -174,8 +182,8 @@ impl CnfIf for CNF {
         if clause_extists_already {
             assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() < TOO_MANY_CLAUSES && cnf.num_clauses() != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From 975cf9eb76be778e4cb5941dc4598d24bba9e1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 13/23] fix: include the assertions in the CNF dump of a solver
 at the root level

---
 src/cdb/db.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..9b24fad 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1279,7 +1279,12 @@ impl ClauseDBIF for ClauseDB {
             return;
         };
         let mut buf = std::io::BufWriter::new(out);
-        let na = asg.derefer(crate::assign::property::Tusize::NumAssertedVar);
+        // the whole trail consists of assertions at the root level
+        let na = if asg.decision_level() == 0 {
+            asg.stack_len()
+        } else {
+            asg.len_upto(0)
+        };
         let nc = self.iter().skip(1).filter(|c| !c.is_dead()).count();
         buf.write_all(format!("p cnf {} {}\n", nv, nc + na).as_bytes())
             .unwrap();
@@ -1294,7 +1299,7 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(b"0\n").unwrap();
         }
         buf.write_all(b"c from trail\n").unwrap();
-        for x in asg.stack_iter().take(asg.len_upto(0)) {
+        for x in asg.stack_iter().take(na) {
             buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
                 .unwrap();
         }
-- 
2.43.0


From bb97f5c7f4db94b6d55cac87926f040a62a64d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 14/23] fix: do not record a refused assignment in the
 certificate

---
 src/solver/build.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 5242840..58e4d42 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -179,9 +179,11 @@ impl SatSolverIF for Solver {
             return Err(SolverError::InvalidLiteral);
         }
         let lit = Lit::from(val);
-        self.cdb.certificate_add_assertion(lit);
         match self.asg.assigned(lit) {
-            None => self.asg.assign_at_root_level(lit).map(|_| self),
+            None => {
+                self.cdb.certificate_add_assertion(lit);
+                self.asg.assign_at_root_level(lit).map(|_| self)
+            }
             Some(true) => Ok(self),
             Some(false) => Err(SolverError::RootLevelConflict((
                 lit,
-- 
2.43.0


From cdb7c413240901606405e33362841ab7b46f40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 15/23] fix: reject out-of-range literals in inject_assignment

---
 src/solver/validate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..d3b9f8a 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -12,7 +12,8 @@ pub trait ValidateIF {
     ///
     /// # Errors
     ///
-    /// if solver becomes inconsistent.
+    /// * `SolverError::InvalidLiteral` if a literal is out of range for var index.
+    /// * other errors if solver becomes inconsistent.
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent;
     /// return `true` is the loaded assignment set is satisfiable (a model of a problem).
     fn validate(&self) -> Option<Vec<i32>>;
@@ -41,6 +42,9 @@ impl ValidateIF for Solver {
             return Err(SolverError::Inconsistent);
         }
         for i in vec {
+            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
+                return Err(SolverError::InvalidLiteral);
+            }
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
         Ok(())
-- 
2.43.0


From 9950e70bdf1cc25af3dfb92b668d1bfda4a099ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 16/23] fix: accept the empty assignment for a formula without
 variables

---
 src/solver/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index d3b9f8a..aed6f93 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -38,7 +38,7 @@ impl ValidateIF for Solver {
     ///```
     ///
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent {
-        if vec.is_empty() {
+        if vec.is_empty() && 0 < self.asg.num_vars {
             return Err(SolverError::Inconsistent);
         }
         for i in vec {
-- 
2.43.0


From d54cbaac5455d375534890283bb52748b8b747e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 17/23] fix: flush the answer so that a failed write is
 reported

---
 src/bin/splr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..eb8b5e4 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -154,7 +154,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 for x in v {
                     buf.write_all(format!("{x} ").as_bytes())?;
                 }
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -187,7 +188,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, &mut buf)?;
                 buf.write_all(b"s UNSATISFIABLE\n")?;
-                buf.write_all(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -216,7 +218,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, buf)?;
                 buf.write_all(format!("c {}\n{}\n", e, colored(Err(e), true)).as_bytes())?;
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
-- 
2.43.0


From e87cddbc406721f48bea60f9bfd4eefb064f3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 18/23] fix: do not wrap around a huge SPLR_TIMEOUT

---
 src/bin/splr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index eb8b5e4..537ac19 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -74,7 +74,7 @@ fn main() {
         let input = cnf_file.as_ref().to_string();
         let no_color = config.no_color;
         thread::spawn(move || {
-            thread::sleep(Duration::from_millis(timeout * 1000));
+            thread::sleep(Duration::from_secs(timeout));
             println!(
                 "{} (TimeOut): {}",
                 colored(Err(&SolverError::TimeOut), no_color),
-- 
2.43.0


From 904326fc5cbcee12f66031a5b612a84f235d6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 19/23] fix: let only one thread report a result under
 SPLR_TIMEOUT

---
 src/bin/splr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 537ac19..729056a 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -14,6 +14,7 @@ use {
         fs::File,
         io::{BufWriter, Write},
         path::PathBuf,
+        sync::Mutex,
         thread,
         time::Duration,
     },
@@ -24,6 +25,10 @@ const GREEN: &str = "\x1B[001m\x1B[032m";
 const BLUE: &str = "\x1B[001m\x1B[034m";
 const RESET: &str = "\x1B[000m";
 
+/// Held from the report of a result to the end of the process, so that only one of the main thread
+/// and the time-out thread reports.
+static REPORT: Mutex<()> = Mutex::new(());
+
 fn colored(v: Result<bool, &SolverError>, no_color: bool) -> Cow<'static, str> {
     if no_color {
         match v {
@@ -75,6 +80,7 @@ fn main() {
         let no_color = config.no_color;
         thread::spawn(move || {
             thread::sleep(Duration::from_secs(timeout));
+            let _report = REPORT.lock();
             println!(
                 "{} (TimeOut): {}",
                 colored(Err(&SolverError::TimeOut), no_color),
@@ -85,6 +91,7 @@ fn main() {
     }
     let mut s = match Solver::build(&config) {
         Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
+            let _report = REPORT.lock();
             println!(
                 "\x1B[1G\x1B[K{}: {}",
                 colored(Ok(false), config.no_color),
@@ -98,6 +105,7 @@ fn main() {
         Ok(solver) => solver,
     };
     let res = s.solve();
+    let _report = REPORT.lock();
     save_result(&mut s, &res, &cnf_file, ans_file);
     std::process::exit(match res {
         Ok(Certificate::SAT(_)) => 10,
-- 
2.43.0


From 47eb50fd702b9f6a570564277056f9b2c74abd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 20/23] fix: do not announce a certificate that could not be
 saved

---
 src/bin/splr.rs              | 12 +++---
 src/cdb/db.rs                |  4 +-
 src/cdb/mod.rs               |  3 +-
 src/cdb/unsat_certificate.rs | 72 +++++++++++++++++++-----------------
 src/solver/build.rs          | 10 +++--
 5 files changed, 56 insertions(+), 45 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 729056a..bd7dfd7 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -180,11 +180,13 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 _ => (),
             }
             if s.state.config.use_certification {
-                s.save_certification();
-                println!(
-                    " Certificate|file: {}",
-                    s.state.config.io_pfile.to_string_lossy()
-                );
+                match s.save_certification() {
+                    Ok(()) => println!(
+                        " Certificate|file: {}",
+                        s.state.config.io_pfile.to_string_lossy()
+                    ),
+                    Err(why) => println!(" Certificate|Abort: failed to save by {why}!"),
+                }
             }
             println!("{}: {}", colored(Ok(false), s.state.config.no_color), input);
             if let Err(why) = (|| {
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 9b24fad..294122a 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1135,8 +1135,8 @@ impl ClauseDBIF for ClauseDB {
     fn certificate_add_assertion(&mut self, lit: Lit) {
         self.certification_store.add_clause(&[lit]);
     }
-    fn certificate_save(&mut self) {
-        self.certification_store.close();
+    fn certificate_save(&mut self) -> std::io::Result<()> {
+        self.certification_store.close()
     }
     fn check_size(&self) -> Result<bool, SolverError> {
         if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..7e78951 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -127,7 +127,8 @@ pub trait ClauseDBIF:
     /// record an asserted literal to unsat certification.
     fn certificate_add_assertion(&mut self, lit: Lit);
     /// save the certification record to a file.
-    fn certificate_save(&mut self);
+    /// * `Err(_)` -- the file is missing or incomplete.
+    fn certificate_save(&mut self) -> std::io::Result<()>;
     /// check the number of clauses
     /// * `Err(SolverError::OutOfMemory)` -- the db size is over the limit.
     /// * `Ok(true)` -- enough small
diff --git a/src/cdb/unsat_certificate.rs b/src/cdb/unsat_certificate.rs
index e3efd05..87e9dfe 100644
--- a/src/cdb/unsat_certificate.rs
+++ b/src/cdb/unsat_certificate.rs
@@ -25,7 +25,9 @@ impl CertificationStore {
     }
     pub fn add_clause(&mut self, _clause: &[Lit]) {}
     pub fn delete_clause(&mut self, _vec: &[Lit]) {}
-    pub fn close(&mut self) {}
+    pub fn close(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "no_IO"))]
@@ -39,6 +41,8 @@ pub struct CertificationStore {
     queue: Vec<i32>,
     target: Option<PathBuf>,
     buffer: Option<BufWriter<File>>,
+    /// the reason why the certification can't be saved
+    failure: Option<std::io::Error>,
 }
 
 impl Clone for CertificationStore {
@@ -53,13 +57,18 @@ impl Instantiate for CertificationStore {
         #[cfg(not(feature = "no_IO"))]
         if config.use_certification {
             let cert: PathBuf = config.io_odir.join(&config.io_pfile);
-            if let Ok(out) = File::create(&cert) {
-                return CertificationStore {
+            return match File::create(&cert) {
+                Ok(out) => CertificationStore {
                     queue: Vec::with_capacity(DUMP_INTERVAL + 1024),
                     buffer: Some(BufWriter::new(out)),
                     target: Some(cert),
-                };
-            }
+                    failure: None,
+                },
+                Err(e) => CertificationStore {
+                    failure: Some(e),
+                    ..CertificationStore::default()
+                },
+            };
         }
         CertificationStore::default()
     }
@@ -88,47 +97,42 @@ impl CertificationStore {
             self.dump_to_file();
         }
     }
-    pub fn close(&mut self) {
-        if self.buffer.is_none() {
-            return;
-        }
+    pub fn close(&mut self) -> std::io::Result<()> {
         self.dump_to_file();
-        if let Some(ref mut buf) = self.buffer {
-            let _ = buf.write_all(b"0\n");
-            self.buffer = None;
+        if let Some(mut buf) = self.buffer.take() {
             self.target = None;
+            buf.write_all(b"0\n")?;
+            buf.flush()?;
         }
+        self.failure.take().map_or(Ok(()), Err)
     }
 }
 
 #[cfg(not(feature = "no_IO"))]
 impl CertificationStore {
     fn dump_to_file(&mut self) {
+        if let Some(ref mut buf) = self.buffer
+            && let Err(e) = Self::dump(buf, &self.queue)
+        {
+            self.buffer = None;
+            self.failure = Some(e);
+        }
+        self.queue.clear();
+    }
+    fn dump(buf: &mut BufWriter<File>, queue: &[i32]) -> std::io::Result<()> {
         let mut index = 0;
-        if let Some(ref mut buf) = self.buffer {
-            while index < self.queue.len() {
-                let l = self.queue[index];
-                if l < 0 && buf.write_all(b"d ").is_err() {
-                    self.buffer = None;
-                    break;
-                }
-                for _ in 0..(l.unsigned_abs() as usize) {
-                    index += 1;
-                    if buf
-                        .write_all(format!("{} ", self.queue[index]).as_bytes())
-                        .is_err()
-                    {
-                        self.buffer = None;
-                        return;
-                    }
-                }
-                if buf.write_all(b"0\n").is_err() {
-                    self.buffer = None;
-                    break;
-                }
+        while index < queue.len() {
+            let l = queue[index];
+            if l < 0 {
+                buf.write_all(b"d ")?;
+            }
+            for _ in 0..(l.unsigned_abs() as usize) {
                 index += 1;
+                buf.write_all(format!("{} ", queue[index]).as_bytes())?;
             }
+            buf.write_all(b"0\n")?;
+            index += 1;
         }
-        self.queue.clear();
+        Ok(())
     }
 }
diff --git a/src/solver/build.rs b/src/solver/build.rs
index 58e4d42..a7109da 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -105,7 +105,11 @@ pub trait SatSolverIF: Instantiate {
     fn build(config: &Config) -> Result<Solver, SolverError>;
     #[cfg(not(feature = "no_IO"))]
     /// dump an UNSAT certification file
-    fn save_certification(&mut self);
+    ///
+    /// # Errors
+    ///
+    /// if the file couldn't be created or written completely.
+    fn save_certification(&mut self) -> std::io::Result<()>;
     #[cfg(not(feature = "no_IO"))]
     /// dump the current status as a CNF
     fn dump_cnf(&self, fname: &Path);
@@ -239,8 +243,8 @@ impl SatSolverIF for Solver {
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump an UNSAT certification file
-    fn save_certification(&mut self) {
-        self.cdb.certificate_save();
+    fn save_certification(&mut self) -> std::io::Result<()> {
+        self.cdb.certificate_save()
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump all active clauses and assertions as a CNF file.
-- 
2.43.0


From 7762a59a78e95e578c5ce855310d57a8b0b3ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 21/23] fix: announce the certificate file with its directory

---
 src/bin/splr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index bd7dfd7..3aa94d2 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -183,7 +183,11 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 match s.save_certification() {
                     Ok(()) => println!(
                         " Certificate|file: {}",
-                        s.state.config.io_pfile.to_string_lossy()
+                        s.state
+                            .config
+                            .io_odir
+                            .join(&s.state.config.io_pfile)
+                            .to_string_lossy()
                     ),
                     Err(why) => println!(" Certificate|Abort: failed to save by {why}!"),
                 }
-- 
2.43.0


From 72da595df5fa97d1bab3b49dc770b47f270b3662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 22/23] fix: wrap the search position of clauses with 65536 or
 more literals at the first free position

The position was truncated to 16 bits; 0 or 1 made propagation take the
other watched literal as the new one.
---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..5a3653b 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = u16::try_from(k + 1).unwrap_or(2);
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = u16::try_from(k + 1).unwrap_or(2);
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0


From f9a065f45b3dc74c63dd739a9eee4593516855da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:16 +0000
Subject: [PATCH 23/23] fix: accept any white space between the literals in
 CNF::load

Literals next to a tab, a carriage return or the end of a line without
the final zero were dropped silently.
---
 src/cnf/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 582775a..b01c77f 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -125,11 +125,11 @@ impl CnfIf for CNF {
             buf.clear();
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
-                Ok(_) if buf == "\n" => (),
+                Ok(_) if buf.trim().is_empty() => (),
                 Ok(_) if buf.starts_with('c') => (),
                 Ok(_) if found_valid_header => {
                     let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
+                    for seg in buf.split_whitespace() {
                         match seg.parse::<i32>() {
                             Ok(0) => break,
                             Ok(l) => vec.push(l),
-- 
2.43.0

