From 0f1a466708547321543952b8937a61f36ec15919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/43] fix: don't treat vars as pure literals when the
 eliminator is disabled

With enable_eliminator == false, occurrence lists are never built, so that
Eliminator::stats returned (0, 0) for every var and the preprocessor asserted
all of them positively. Satisfiable formulas were reported as UNSAT.
---
 src/processor/simplify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..13c5a6a 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -308,6 +308,10 @@ impl EliminateIF for Eliminator {
         self.var_queue.heap[1..].iter()
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
+        if !self.enable {
+            // the occurrence lists are built only if the eliminator is enabled.
+            return None;
+        }
         let w = &self[vi];
         if w.aborted {
             None
-- 
2.43.0


From 964a9d71e497c9c699480e8f054e57dd43498691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 02/43] fix: keep State::cnf in step with the vars added by
 add_var

solve() builds the eliminator from State::cnf, which kept the number of vars
given at construction. After add_var, clauses over the new vars made it access
its tables out of bounds.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index d5b9845..0019352 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From 916b6c1194f891e801e20573896ccfdc966b55c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 03/43] fix: read clauses up to their terminating 0, regardless
 of newlines

The file reader took each line as exactly one clause: it dropped everything
after the first clause on a line, and split a clause which spans lines.
---
 src/solver/build.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..4782386 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -287,37 +287,35 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
+        // literals of the clause being read; a clause ends with '0', not with a newline.
+        let mut v: Vec<Lit> = Vec::new();
         loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
                 Ok(_) => {
                     let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
                     for s in iter {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
                             }
                             Ok(val) => v.push(Lit::from(val)),
                             Err(_) => (),
                         }
                     }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
-                        }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
-                    }
                 }
                 Err(e) => panic!("{}", e),
             }
         }
+        // the last clause might lack its terminator
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From 0008b370f009bf249623683ddf0583f8a57f4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 04/43] fix: reject out-of-range literals in a CNF file with
 InvalidLiteral

SatSolverIF::build documents it, but the reader accepted any number and indexed
the tables out of bounds; numbers beyond i32 were silently skipped.
---
 src/solver/build.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 4782386..7f7395f 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -12,6 +12,7 @@ use {
 use std::{
     fs::File,
     io::{BufRead, BufReader},
+    num::IntErrorKind,
     path::Path,
 };
 
@@ -304,7 +305,18 @@ impl Solver {
                                 }
                                 v.clear();
                             }
+                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Ok(val) => v.push(Lit::from(val)),
+                            Err(e)
+                                if matches!(
+                                    e.kind(),
+                                    IntErrorKind::PosOverflow | IntErrorKind::NegOverflow
+                                ) =>
+                            {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Err(_) => (),
                         }
                     }
-- 
2.43.0


From cdbd2531e1aa89aff80f444a0876f89ab07be8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 05/43] fix: return IOError for a broken header or an
 unreadable line

Loading a file whose header has non-numeric counts, or which holds bytes that
are not UTF-8, panicked instead of returning the documented error.
---
 src/solver/build.rs | 2 +-
 src/types/cnf.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 7f7395f..3e9c815 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -321,7 +321,7 @@ impl Solver {
                         }
                     }
                 }
-                Err(e) => panic!("{}", e),
+                Err(_) => return Err(SolverError::IOError),
             }
         }
         // the last clause might lack its terminator
diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..98446bd 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -120,8 +120,8 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
                         nc = c;
-- 
2.43.0


From 3059571375a5127f9eba7d80c8fee692d99f1f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/43] fix: keep unit clauses in a CNF made by from_vec_i32

They were only recorded as assignments, which neither num_clauses nor
dump_to_string/save take into account: a saved CNF had lost its units.
---
 src/cnf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index c9090c7..3331ddf 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -97,6 +97,8 @@ impl CnfIf for CNF {
                         return Err(CNFOperationError::AddignConflictingAssingment);
                     }
                     cnf.assign.insert(l);
+                    cnf.cls_map.insert(ref_c.clone());
+                    cnf.clauses.push(ref_c.clone());
                 }
                 _ => {
                     let mut cc = ref_c.clone();
-- 
2.43.0


From d1eb585b09e01462eb6ee36fad0d91bf9d02877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 07/43] fix: don't write an empty clause when dumping a CNF
 without clauses

The dump of an empty CNF held a line ' 0', that is, an unsatisfiable formula.
---
 src/cnf/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 3331ddf..e2a8183 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -199,18 +199,19 @@ impl CnfIf for CNF {
     }
     fn dump_to_string(&self) -> String {
         format!(
-            "p cnf {} {}\n{} 0\n",
+            "p cnf {} {}\n{}",
             self.num_vars,
             self.clauses.len(),
             self.clauses
                 .iter()
                 .map(|cls| cls
                     .iter()
-                    .map(|ch| format!("{ch}"))
+                    .map(|ch| format!("{ch} "))
                     .collect::<Vec<_>>()
-                    .join(" "))
+                    .join("")
+                    + "0\n")
                 .collect::<Vec<_>>()
-                .join(" 0\n"),
+                .join(""),
         )
     }
 }
-- 
2.43.0


From 286d2a2395482bd34b9ffafc1750861eff52a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 08/43] fix: accept tabs between the literals in CNF::load

---
 src/cnf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index e2a8183..2a72426 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -130,7 +130,7 @@ impl CnfIf for CNF {
                 Ok(_) if buf.starts_with('c') => (),
                 Ok(_) if found_valid_header => {
                     let mut vec: Vec<i32> = Vec::new();
-                    for seg in buf.split(' ') {
+                    for seg in buf.split_whitespace() {
                         if let Ok(l) = seg.parse::<i32>() {
                             if l == 0 {
                                 break;
-- 
2.43.0


From eca3bc668084679531452515b3dbb3f899fd1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 09/43] fix: don't truncate the time limit to whole seconds

A limit below one second became 0: the search gave TimeOut at the end of the
first stage however early that was.
---
 src/state.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 0019352..9f93341 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -1,8 +1,8 @@
 /// Module `state` is a collection of internal data.
 #[cfg(feature = "platform_wasm")]
-use instant::{Duration, Instant};
+use instant::Instant;
 #[cfg(not(feature = "platform_wasm"))]
-use std::time::{Duration, Instant};
+use std::time::Instant;
 use {
     crate::{
         assign, cdb,
@@ -390,13 +390,10 @@ macro_rules! f {
 
 impl StateIF for State {
     fn is_timeout(&self) -> bool {
-        Duration::from_secs(self.config.c_timeout as u64) < self.start.elapsed()
+        self.config.c_timeout < self.start.elapsed().as_secs_f64()
     }
     fn elapsed(&self) -> Option<f64> {
-        Some(
-            self.start.elapsed().as_secs_f64()
-                / Duration::from_secs(self.config.c_timeout as u64).as_secs_f64(),
-        )
+        Some(self.start.elapsed().as_secs_f64() / self.config.c_timeout.max(0.0))
     }
     fn progress_header(&mut self) {
         if !self.config.splr_interface || self.config.quiet_mode {
-- 
2.43.0


From 09192a8596842055514d54c0830fc0ed2351c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 10/43] fix: don't certify an assignment rejected by
 add_assignment

The rejected literal was written to the certificate as a lemma, though the
problem does not imply it.
---
 src/solver/build.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index 3e9c815..d2d6aaf 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -179,9 +179,11 @@ impl SatSolverIF for Solver {
             return Err(SolverError::InvalidLiteral);
         }
         let lit = Lit::from(val);
-        self.cdb.certificate_add_assertion(lit);
         match self.asg.assigned(lit) {
-            None => self.asg.assign_at_root_level(lit).map(|_| self),
+            None => {
+                self.cdb.certificate_add_assertion(lit);
+                self.asg.assign_at_root_level(lit).map(|_| self)
+            }
             Some(true) => Ok(self),
             Some(false) => Err(SolverError::RootLevelConflict((
                 lit,
-- 
2.43.0


From 34dc2a1c243e94537cf3e052f8be88797267236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 11/43] fix: let CNF::load read clauses up to their terminating
 0, regardless of newlines

Clauses spread over several lines were loaded as several clauses, and only the first
of the clauses sharing a line was loaded.
---
 src/cnf/mod.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 2a72426..7c12241 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -122,6 +122,8 @@ impl CnfIf for CNF {
         let mut found_valid_header = false;
         let mut clause_extists_already = false;
         let mut cnf = CNF::default();
+        // literals of the clause being read; a clause ends with '0', not with a newline.
+        let mut vec: Vec<i32> = Vec::new();
         loop {
             buf.clear();
             match reader.read_line(&mut buf) {
@@ -129,25 +131,19 @@ impl CnfIf for CNF {
                 Ok(_) if buf == "\n" => (),
                 Ok(_) if buf.starts_with('c') => (),
                 Ok(_) if found_valid_header => {
-                    let mut vec: Vec<i32> = Vec::new();
                     for seg in buf.split_whitespace() {
-                        if let Ok(l) = seg.parse::<i32>() {
-                            if l == 0 {
-                                break;
-                            }
-                            vec.push(l);
+                        match seg.parse::<i32>() {
+                            Ok(0) => match cnf.add_clause(std::mem::take(&mut vec)) {
+                                Ok(_) => num_clause += 1,
+                                Err(CNFOperationError::AddingClauseExists) => {
+                                    clause_extists_already = true
+                                }
+                                Err(e) => return Err(e),
+                            },
+                            Ok(l) => vec.push(l),
+                            Err(_) => (),
                         }
                     }
-                    debug_assert!(!vec.is_empty());
-                    if let Err(e) = cnf.add_clause(vec) {
-                        if e == CNFOperationError::AddingClauseExists {
-                            clause_extists_already = true;
-                        } else {
-                            return Err(e);
-                        }
-                    } else {
-                        num_clause += 1;
-                    }
                 }
                 Ok(_) => {
                     let mut iter = buf.split_whitespace();
@@ -170,6 +166,14 @@ impl CnfIf for CNF {
         if !found_valid_header {
             return Err(CNFOperationError::ParsingCNF);
         }
+        // the last clause might lack its terminator
+        if !vec.is_empty() {
+            match cnf.add_clause(vec) {
+                Ok(_) => num_clause += 1,
+                Err(CNFOperationError::AddingClauseExists) => clause_extists_already = true,
+                Err(e) => return Err(e),
+            }
+        }
         if cnf.num_vars() != nv {
             println!("Warning: there are less variables than its declaration.");
         }
-- 
2.43.0


From 1dd73a89e7a68d3d51acc1de6ab02da6a9897341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 12/43] fix: let CNF::load return ParsingCNF for a broken
 header

It panicked if a count in the header wasn't a number.
---
 src/cnf/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 7c12241..2066054 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -149,10 +149,10 @@ impl CnfIf for CNF {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<u32>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
-                        nv = v as u32;
+                        nv = v;
                         nc = c;
                         found_valid_header = true;
                         cnf.no_check_uniqueness = TOO_MANY_CLAUSES < nc;
-- 
2.43.0


From eed30607c680a4f71cc898403729d41a701c6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 13/43] fix: let Ewa and Ewa2 start with a pool whose average
 is the initial value

The pool holds values divided by N, but it was filled with the undivided initial value,
so that the average was off by (1 - N) times the initial value forever.
---
 src/types/ema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/ema.rs b/src/types/ema.rs
index 9164c39..0bdd5ad 100644
--- a/src/types/ema.rs
+++ b/src/types/ema.rs
@@ -320,7 +320,7 @@ impl<const N: usize> Ewa<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
         }
     }
@@ -398,7 +398,7 @@ impl<const N: usize> Ewa2<N> {
                 fast: initial,
                 slow: initial,
             },
-            pool: [initial; N],
+            pool: [initial / N as f64; N],
             last: 0,
             #[cfg(feature = "EMA_calibration")]
             cals: initial,
-- 
2.43.0


From 26abdb241caf602733d6d33270fb2a1378c171fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 14/43] fix: let Ewa2::reset_to replace the values averaged so
 far

---
 src/types/ema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/ema.rs b/src/types/ema.rs
index 0bdd5ad..8e85e12 100644
--- a/src/types/ema.rs
+++ b/src/types/ema.rs
@@ -368,6 +368,7 @@ impl<const N: usize> EmaMutIF for Ewa2<N> {
     }
     fn reset_to(&mut self, val: f64) {
         self.ema.fast = val;
+        self.pool = [val / N as f64; N];
     }
     #[cfg(not(feature = "EMA_calibration"))]
     fn reset_fast(&mut self) {
-- 
2.43.0


From a4a6c333c0fde6627677a15fad45da607b7c9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 15/43] fix: dump the asserted literals in dump_cnf

---
 src/cdb/db.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..6dc51e0 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1279,9 +1279,13 @@ impl ClauseDBIF for ClauseDB {
             return;
         };
         let mut buf = std::io::BufWriter::new(out);
-        let na = asg.derefer(crate::assign::property::Tusize::NumAssertedVar);
+        // asserted literals don't stay on the trail.
+        let asserted = (1..=nv)
+            .filter(|vi| asg.level(*vi) == asg.root_level())
+            .filter_map(|vi| asg.assign(vi).map(|b| Lit::from((vi, b))))
+            .collect::<Vec<_>>();
         let nc = self.iter().skip(1).filter(|c| !c.is_dead()).count();
-        buf.write_all(format!("p cnf {} {}\n", nv, nc + na).as_bytes())
+        buf.write_all(format!("p cnf {} {}\n", nv, nc + asserted.len()).as_bytes())
             .unwrap();
         for c in self.iter().skip(1) {
             if c.is_dead() {
@@ -1294,7 +1298,7 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(b"0\n").unwrap();
         }
         buf.write_all(b"c from trail\n").unwrap();
-        for x in asg.stack_iter().take(asg.len_upto(0)) {
+        for x in asserted.iter() {
             buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
                 .unwrap();
         }
-- 
2.43.0


From 9d48298dda5d8569d23070d1994484f4a5cb8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 16/43] fix: put a new variable into the order of decisions

SolverEvent::NewVar only enlarged the heap; until the next rebuild the
variable could not be selected, and selecting from an otherwise empty
heap ran out of it.
---
 src/assign/stack.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assign/stack.rs b/src/assign/stack.rs
index 238df38..9ba6b43 100644
--- a/src/assign/stack.rs
+++ b/src/assign/stack.rs
@@ -217,6 +217,7 @@ impl Instantiate for AssignStack {
                 self.expand_heap();
                 self.num_vars += 1;
                 self.var.push(Var::default());
+                self.insert_heap(self.num_vars);
             }
             SolverEvent::Reinitialize => {
                 self.cancel_until(self.root_level);
-- 
2.43.0


From 84087a857529dfc1ea95b8e33ee5549a9d7d5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 17/43] fix: keep search_from in range for clauses of more than
 65535 literals

The position wrapped around to 0 or 1; propagation then took the other
watched literal for an unwatched one and missed unit clauses.
---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..9d4b410 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0


From 558cfc4f2bff8e3ccf969e8388259d029f8023e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 18/43] fix: let transform_by_replacement keep counts, watch
 caches and certificate right

A learnt clause that became binary stayed counted as learnt, watch caches
could keep a literal no longer in the clause, and the certificate deleted
the new clause instead of the old one.
---
 src/cdb/db.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 6dc51e0..16ddc80 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -733,9 +733,6 @@ impl ClauseDBIF for ClauseDB {
                 //
                 //## Case:0
                 //
-                if certification_store.is_active() {
-                    certification_store.delete_clause(new_lits);
-                }
                 return RefClause::RegisteredClause(did);
             }
             //
@@ -749,13 +746,11 @@ impl ClauseDBIF for ClauseDB {
             watch_cache[!old_l0].remove_watch(&cid);
             watch_cache[!old_l1].remove_watch(&cid);
             binary_link.add(l0, l1, cid);
-
-            if certification_store.is_active() {
-                certification_store.add_clause(new_lits);
-                certification_store.delete_clause(&c.lits);
-            }
-            c.turn_off(FlagClause::LEARNT);
             self.num_bi_clause += 1;
+            if c.is(FlagClause::LEARNT) {
+                self.num_learnt -= 1;
+                c.turn_off(FlagClause::LEARNT);
+            }
 
             if certification_store.is_active() {
                 certification_store.add_clause(&c.lits);
@@ -772,6 +767,8 @@ impl ClauseDBIF for ClauseDB {
             let l1 = c.lit1();
 
             if (l0 == old_l0 && l1 == old_l1) || (l0 == old_l1 && l1 == old_l0) {
+                watch_cache[!l0].update_watch(cid, l1);
+                watch_cache[!l1].update_watch(cid, l0);
             } else if l0 == old_l0 {
                 watch_cache[!old_l1].remove_watch(&cid);
                 // assert!(watch_cache[!l0].iter().all(|e| e.0 != cid));
@@ -807,8 +804,8 @@ impl ClauseDBIF for ClauseDB {
             // maintain_watch_literal \\ assert!(watch_cache[!c.lits[1]].iter().any(|wc| wc.0 == cid && wc.1 == c.lits[0]));
 
             if certification_store.is_active() {
-                certification_store.add_clause(new_lits);
-                certification_store.delete_clause(&c.lits);
+                certification_store.add_clause(&c.lits);
+                certification_store.delete_clause(new_lits);
             }
         }
         RefClause::Clause(cid)
-- 
2.43.0


From c35657e60bd5e7194d821b95c6a6f92f4b63caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:37 +0000
Subject: [PATCH 19/43] fix: count a learnt clause that becomes permanent by
 subsumption

---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 16ddc80..a1b6138 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -543,6 +543,13 @@ impl ClauseDBIF for ClauseDB {
         self.freelist.push(cid);
         // assert_eq!(self.clause.iter().skip(1).filter(|c| !c.is_dead()).count(), self.num_clause);
     }
+    fn make_permanent(&mut self, cid: ClauseId) {
+        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     //
     fn transform_by_restoring_watch_cache(
         &mut self,
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..0ad8f4e 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -109,6 +109,8 @@ pub trait ClauseDBIF:
     fn remove_clause(&mut self, cid: ClauseId);
     /// un-register a clause `cid` from clause database and make the clause dead.
     fn remove_clause_sandbox(&mut self, cid: ClauseId);
+    /// change a learnt clause to a permanent one.
+    fn make_permanent(&mut self, cid: ClauseId);
     /// update watches of the clause
     fn transform_by_elimination(&mut self, cid: ClauseId, p: Lit) -> RefClause;
     /// generic clause transformer (not in use)
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..284d7a4 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.make_permanent(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From fc59a14af56ff22a1691915db664040f379cd771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 20/43] fix: keep the heap of decision vars ordered when the
 last var is involved

---
 src/assign/heap.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/assign/heap.rs b/src/assign/heap.rs
index 2552dca..b2bb8a4 100644
--- a/src/assign/heap.rs
+++ b/src/assign/heap.rs
@@ -126,11 +126,11 @@ impl VarHeapIF for AssignStack {
         let ai = self.activity(vi as usize);
         loop {
             let l = 2 * i; // left
-            if l < n as u32 {
+            if l <= n as u32 {
                 let vl = self.var_order.heap[l as usize];
                 let al = self.activity(vl as usize);
                 let r = l + 1; // right
-                let (target, vc, ac) = if r < (n as u32)
+                let (target, vc, ac) = if r <= (n as u32)
                     && al < self.activity(self.var_order.heap[r as usize] as usize)
                 {
                     let vr = self.var_order.heap[r as usize];
@@ -158,7 +158,10 @@ impl VarHeapIF for AssignStack {
     }
     fn remove_from_heap(&mut self, vi: VarId) {
         if let Some(i) = self.var_order.remove(vi) {
+            // the var moved to `i` can be better than its new parent
+            let moved = self.var_order.heap[i] as VarId;
             self.percolate_down(i as u32);
+            self.update_heap(moved);
         }
     }
 }
-- 
2.43.0


From 639fcb0322974ed3450612825220c85116121174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 21/43] fix: build without feature unsafe_access

---
 src/assign/propagate.rs | 6 +++---
 src/assign/select.rs    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 9d4b410..33ae656 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -49,7 +49,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
@@ -68,7 +68,7 @@ macro_rules! lit_assign {
 macro_rules! lit_assign {
     ($asg: expr, $lit: expr) => {
         match $lit {
-            l => match $asg.assign[l.vi()] {
+            l => match $asg.var[l.vi()].assign {
                 Some(x) if !bool::from(l) => Some(!x),
                 x => x,
             },
@@ -93,7 +93,7 @@ macro_rules! set_assign {
         match $lit {
             l => {
                 let vi = l.vi();
-                $asg.assign[vi] = Some(bool::from(l));
+                $asg.var[vi].assign = Some(bool::from(l));
             }
         }
     };
diff --git a/src/assign/select.rs b/src/assign/select.rs
index 72daca6..d628e09 100644
--- a/src/assign/select.rs
+++ b/src/assign/select.rs
@@ -21,7 +21,7 @@ macro_rules! var_assign {
 #[cfg(not(feature = "unsafe_access"))]
 macro_rules! var_assign {
     ($asg: expr, $var: expr) => {
-        $asg.assign[$var]
+        $asg.var[$var].assign
     };
 }
 
-- 
2.43.0


From fefd5b1c3c7bc7668e012ff19a5304b405d2385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 22/43] fix: build without feature rephase

---
 src/solver/search.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/search.rs b/src/solver/search.rs
index 1fa2c27..9f8b470 100644
--- a/src/solver/search.rs
+++ b/src/solver/search.rs
@@ -261,6 +261,7 @@ fn search(
                 return Err(SolverError::UndescribedError);
             }
             RESTART!(asg, cdb, state);
+            #[cfg(feature = "rephase")]
             asg.select_rephasing_target();
             asg.clear_asserted_literals(cdb)?;
 
-- 
2.43.0


From 74a1c09a91a3dca318fa902a56fba06ebf6ba135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:10 +0000
Subject: [PATCH 23/43] fix: build with feature suppress_reason_chain

---
 src/assign/propagate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 33ae656..c9433e9 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -347,7 +347,7 @@ impl PropagateIF for AssignStack {
         #[cfg(feature = "suppress_reason_chain")]
         macro_rules! minimized_reason {
             ($lit: expr) => {
-                if let r @ AssignReason::BinaryLink(_) = self.reason[$lit.vi()] {
+                if let r @ AssignReason::BinaryLink(_) = self.var[$lit.vi()].reason {
                     r
                 } else {
                     AssignReason::BinaryLink($lit)
-- 
2.43.0


From 489f553a3f91c69d1cfae1a4f50679990d492424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 24/43] fix: build with feature EMA_calibration and calibrate
 by the right factor

---
 src/types/ema.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/types/ema.rs b/src/types/ema.rs
index 8e85e12..a1dba8c 100644
--- a/src/types/ema.rs
+++ b/src/types/ema.rs
@@ -101,6 +101,10 @@ impl EmaMutIF for Ema {
     fn set_value(&mut self, x: f64) {
         self.val.fast = x;
         self.val.slow = x;
+        #[cfg(feature = "EMA_calibration")]
+        {
+            self.cal = 1.0;
+        }
     }
 }
 
@@ -120,6 +124,10 @@ impl Ema {
     pub fn with_value(mut self, x: f64) -> Ema {
         self.val.fast = x;
         self.val.slow = x;
+        #[cfg(feature = "EMA_calibration")]
+        {
+            self.cal = 1.0;
+        }
         self
     }
 }
@@ -147,7 +155,7 @@ impl EmaIF for Ema2 {
     }
     #[cfg(feature = "EMA_calibration")]
     fn get_slow(&self) -> f64 {
-        self.ema.slow / self.calf
+        self.ema.slow / self.cals
     }
     #[cfg(not(feature = "EMA_calibration"))]
     fn get_slow(&self) -> f64 {
@@ -348,7 +356,7 @@ impl<const N: usize> EmaIF for Ewa2<N> {
     }
     #[cfg(feature = "EMA_calibration")]
     fn trend(&self) -> f64 {
-        self.ema.fast * self.cals / self.slow
+        self.ema.fast * self.cals / self.ema.slow
     }
 }
 
@@ -384,8 +392,8 @@ impl<const N: usize> EmaMutIF for Ewa2<N> {
     }
     #[cfg(feature = "EMA_calibration")]
     fn reset_slow(&mut self) {
-        self.ema.slow = self.fast.get();
-        self.cals = self.calf;
+        self.ema.slow = self.ema.fast;
+        self.cals = 1.0;
     }
     fn as_view(&self) -> &EmaView {
         &self.ema
@@ -402,7 +410,7 @@ impl<const N: usize> Ewa2<N> {
             pool: [initial / N as f64; N],
             last: 0,
             #[cfg(feature = "EMA_calibration")]
-            cals: initial,
+            cals: 1.0,
             se: 1.0 / (N as f64),
             sx: 1.0 - 1.0 / (N as f64),
         }
-- 
2.43.0


From 7bcf38374b852e160ac457d442969ea8915a7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 25/43] fix: build with feature clause_rewarding

---
 src/cdb/activity.rs |  2 +-
 src/cdb/db.rs       | 10 +++++-----
 src/types/clause.rs |  7 ++++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cdb/activity.rs b/src/cdb/activity.rs
index 277bf3a..a0d885e 100644
--- a/src/cdb/activity.rs
+++ b/src/cdb/activity.rs
@@ -1,5 +1,5 @@
 #![cfg(feature = "clause_rewarding")]
-use {super::ClauseId, crate::types::*, std::num::NonZeroU32};
+use {super::ClauseDB, crate::types::*, std::num::NonZeroU32};
 
 /// clause activity
 /// Note: vivifier has its own conflict analyzer, which never call reward functions.
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index a1b6138..cf930c2 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -52,11 +52,11 @@ pub struct ClauseDB {
     //
     /// an index for counting elapsed time
     #[cfg(feature = "clause_rewarding")]
-    tick: usize,
+    pub(super) tick: usize,
     #[cfg(feature = "clause_rewarding")]
-    activity_decay: f64,
+    pub(super) activity_decay: f64,
     #[cfg(feature = "clause_rewarding")]
-    activity_anti_decay: f64,
+    pub(super) activity_anti_decay: f64,
 
     //
     //## LBD
@@ -1039,9 +1039,9 @@ impl ClauseDBIF for ClauseDB {
             num_reduction,
 
             #[cfg(feature = "clause_rewarding")]
-            ref tick,
+            tick,
             #[cfg(feature = "clause_rewarding")]
-            ref activity_decay,
+            activity_decay,
             ..
         } = self;
         *num_reduction += 1;
diff --git a/src/types/clause.rs b/src/types/clause.rs
index 8a2328e..0ef1bec 100644
--- a/src/types/clause.rs
+++ b/src/types/clause.rs
@@ -8,7 +8,8 @@ use {
 };
 
 /// A representation of 'clause'
-#[derive(Clone, Debug, Eq, PartialEq, PartialOrd)]
+#[derive(Clone, Debug, PartialEq, PartialOrd)]
+#[cfg_attr(not(feature = "clause_rewarding"), derive(Eq))]
 pub struct Clause {
     /// The literals in a clause.
     pub(crate) lits: Vec<Lit>,
@@ -24,11 +25,11 @@ pub struct Clause {
 
     #[cfg(any(feature = "boundary_check", feature = "clause_rewarding"))]
     /// the number of conflicts at which this clause was used in `conflict_analyze`
-    timestamp: usize,
+    pub(crate) timestamp: usize,
 
     #[cfg(feature = "clause_rewarding")]
     /// A dynamic clause evaluation criterion based on the number of references.
-    reward: f64,
+    pub(crate) reward: f64,
 
     #[cfg(feature = "boundary_check")]
     pub birth: usize,
-- 
2.43.0


From 6933a68f800128ddf263d7453d6243de201a0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:01 +0000
Subject: [PATCH 26/43] fix: build with feature EVSIDS

---
 src/assign/evsids.rs | 8 ++++----
 src/assign/stack.rs  | 4 ++--
 src/types/var.rs     | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/assign/evsids.rs b/src/assign/evsids.rs
index 1f4f09c..1d33de1 100644
--- a/src/assign/evsids.rs
+++ b/src/assign/evsids.rs
@@ -1,6 +1,6 @@
 /// Var Rewarding based on EVSIDS
 use {
-    super::{AssignStack, Var},
+    super::AssignStack,
     crate::types::*,
 };
 
@@ -13,7 +13,7 @@ impl ActivityIF<VarId> for AssignStack {
     }
     fn reward_at_analysis(&mut self, vi: VarId) {
         let s = self.activity_decay_step;
-        let t = self.ordinal;
+        let t = self.tick;
         let v = &mut self.var[vi];
         if v.timestamp == t {
             return;
@@ -37,11 +37,11 @@ impl ActivityIF<VarId> for AssignStack {
     }
     fn update_activity_tick(&mut self) {
         const INC_SCALE: f64 = 1.01;
-        if self.ordinal == 0 {
+        if self.tick == 0 {
             self.activity_decay *= 0.5;
             self.activity_anti_decay = 1.0 - self.activity_decay;
         }
-        self.ordinal += 1;
+        self.tick += 1;
         self.activity_decay_step *= INC_SCALE;
     }
 }
diff --git a/src/assign/stack.rs b/src/assign/stack.rs
index 9ba6b43..9fca638 100644
--- a/src/assign/stack.rs
+++ b/src/assign/stack.rs
@@ -92,11 +92,11 @@ pub struct AssignStack {
     pub(super) activity_decay: f64,
     /// the default value of var activity decay in configuration
     #[cfg(feature = "EVSIDS")]
-    activity_decay_default: f64,
+    pub(super) activity_decay_default: f64,
     /// its diff
     pub(super) activity_anti_decay: f64,
     #[cfg(feature = "EVSIDS")]
-    activity_decay_step: f64,
+    pub(super) activity_decay_step: f64,
 }
 
 impl Default for AssignStack {
diff --git a/src/types/var.rs b/src/types/var.rs
index 91e884a..87ce598 100644
--- a/src/types/var.rs
+++ b/src/types/var.rs
@@ -24,7 +24,7 @@ pub struct Var {
     // reward_ema: Ema2,
     #[cfg(feature = "boundary_check")]
     pub propagated_at: usize,
-    #[cfg(feature = "boundary_check")]
+    #[cfg(any(feature = "boundary_check", feature = "EVSIDS"))]
     pub timestamp: usize,
     #[cfg(feature = "boundary_check")]
     pub state: VarState,
@@ -43,7 +43,7 @@ impl Default for Var {
             // reward_ema: Ema2::new(200).with_slow(4_000),
             #[cfg(feature = "boundary_check")]
             propagated_at: 0,
-            #[cfg(feature = "boundary_check")]
+            #[cfg(any(feature = "boundary_check", feature = "EVSIDS"))]
             timestamp: 0,
             #[cfg(feature = "boundary_check")]
             state: VarState::Unassigned(0),
-- 
2.43.0


From 30114e960610349621c78a7b2d5c53817842429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 27/43] fix: drop a removed clause from the occurrence lists of
 assigned vars, too

---
 src/processor/simplify.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 13c5a6a..1805f00 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -393,6 +393,11 @@ impl Eliminator {
             if asg.assign(l.vi()).is_none() {
                 self.remove_lit_occur(asg, *l, cid);
                 self.enqueue_var(asg, l.vi(), true);
+            } else if bool::from(*l) {
+                // `cid` will be reused.
+                self[l.vi()].pos_occurs.delete_unstable(|&c| c == cid);
+            } else {
+                self[l.vi()].neg_occurs.delete_unstable(|&c| c == cid);
             }
         }
     }
-- 
2.43.0


From c5c56f56ffe3d9fed68cdbc16620378a2fcc48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 28/43] fix: clear falsified literals from the clauses made by
 the eliminator

---
 src/processor/simplify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 1805f00..56137af 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -290,6 +290,10 @@ impl EliminateIF for Eliminator {
                 .is_nan());
             // self.eliminate_combination_limit = cdb.derefer(cdb::property::Tf64::LiteralBlockEntanglement);
             self.eliminate(asg, cdb, state)?;
+            // A resolvent may contain literals which had been falsified and propagated before
+            // it was added. We have to remove them since nothing updates its watches anymore.
+            asg.clear_asserted_literals(cdb)?;
+            self.bwdsub_assigns = 0;
         } else {
             asg.propagate_sandbox(cdb)
                 .map_err(SolverError::RootLevelConflict)?;
-- 
2.43.0


From 081eaf60f303ed47fdf37954ad650bceec81914d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:05 +0000
Subject: [PATCH 29/43] fix: save the result and the certificate of a problem
 refuted while loading

---
 src/bin/splr.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index cc36b38..341e9c2 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -2,7 +2,8 @@
 /// SAT solver for Propositional Logic in Rust, which can't be compiled with feature 'no_IO'
 use {
     splr::{
-        Config, EmaIF, PropertyDereference, PropertyReference, SolverError, VERSION, assign,
+        CNFDescription, Config, EmaIF, Instantiate, PropertyDereference, PropertyReference,
+        SolverError, VERSION, assign,
         cdb::{self, ClauseDBIF},
         config::{self, CERTIFICATION_DEFAULT_FILENAME},
         solver::*,
@@ -85,11 +86,12 @@ fn main() {
     }
     let mut s = match Solver::build(&config) {
         Err(SolverError::EmptyClause | SolverError::RootLevelConflict(_)) => {
-            println!(
-                "\x1B[1G\x1B[K{}: {}",
-                colored(Ok(false), config.no_color),
-                config.cnf_file.file_name().unwrap().to_string_lossy(),
-            );
+            if !config.quiet_mode {
+                print!("\x1B[1G\x1B[K");
+            }
+            // No solver was built; an empty one can save the result and the certificate.
+            let mut s = Solver::instantiate(&config, &CNFDescription::default());
+            save_result(&mut s, &Ok(Certificate::UNSAT), &cnf_file, ans_file);
             std::process::exit(20);
         }
         Err(e) => {
-- 
2.43.0


From ae27474553926b66b047025d276abedcad76e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 30/43] fix: let inject_assignment reject literals out of range
 and accept an empty list

---
 src/solver/validate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..decdb28 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -12,7 +12,7 @@ pub trait ValidateIF {
     ///
     /// # Errors
     ///
-    /// if solver becomes inconsistent.
+    /// if solver becomes inconsistent, or a literal is out of range.
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent;
     /// return `true` is the loaded assignment set is satisfiable (a model of a problem).
     fn validate(&self) -> Option<Vec<i32>>;
@@ -37,10 +37,10 @@ impl ValidateIF for Solver {
     ///```
     ///
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent {
-        if vec.is_empty() {
-            return Err(SolverError::Inconsistent);
-        }
         for i in vec {
+            if *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize {
+                return Err(SolverError::InvalidLiteral);
+            }
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
         Ok(())
-- 
2.43.0


From e29370959deec39937654217ecea075d49b6072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 31/43] fix: let dmcr read an assignment set divided into
 several value lines

---
 src/bin/dmcr.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bin/dmcr.rs b/src/bin/dmcr.rs
index 2ec7add..6ff20b8 100644
--- a/src/bin/dmcr.rs
+++ b/src/bin/dmcr.rs
@@ -213,9 +213,16 @@ fn main() {
 
 fn read_assignment(rs: &mut dyn BufRead, cnf: &str, assign: &Option<PathBuf>) -> Option<Vec<i32>> {
     let mut buf = String::new();
+    // literals read so far; they can be divided into several value lines.
+    let mut v: Vec<i32> = Vec::new();
+    let mut found = false;
     loop {
         match rs.read_line(&mut buf) {
-            Ok(0) => return Some(Vec::new()),
+            Ok(0) if found => return Some(v),
+            Ok(0) => {
+                println!("There's no assignment set.");
+                return None;
+            }
             Ok(_) => {
                 if buf.starts_with('c') {
                     buf.clear();
@@ -235,16 +242,20 @@ fn read_assignment(rs: &mut dyn BufRead, cnf: &str, assign: &Option<PathBuf>) ->
                         buf.clear();
                     }
                 }
-                if let Some(stripped) = buf.strip_prefix("v ") {
-                    let mut v: Vec<i32> = Vec::new();
+                if let Some(stripped) = buf
+                    .strip_prefix('v')
+                    .filter(|s| s.is_empty() || s.starts_with(char::is_whitespace))
+                {
+                    found = true;
                     for s in stripped.split_whitespace() {
                         match s.parse::<i32>() {
-                            Ok(0) => break,
+                            Ok(0) => return Some(v),
                             Ok(x) => v.push(x),
                             Err(e) => panic!("{e} by {s}"),
                         }
                     }
-                    return Some(v);
+                    buf.clear();
+                    continue;
                 }
                 panic!("Failed to parse here: {buf}");
             }
-- 
2.43.0


From 103c301354890d16eda77c6b33d0220e65d57489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 32/43] fix: let dmcr report why an assignment set isn't
 injectable

---
 src/bin/dmcr.rs | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/bin/dmcr.rs b/src/bin/dmcr.rs
index 6ff20b8..f75b751 100644
--- a/src/bin/dmcr.rs
+++ b/src/bin/dmcr.rs
@@ -2,7 +2,7 @@
 // A simple DIMACS Model Checker in Rust, which can't be compiled with feature 'no_IO'
 #![allow(unused_imports)]
 use {
-    splr::{Config, SatSolverIF, Solver, ValidateIF},
+    splr::{Config, SatSolverIF, Solver, SolverError, ValidateIF},
     std::{
         env,
         fs::File,
@@ -14,7 +14,6 @@ use {
 const ABOUT: &str = "DIMACS-format Model Checker in Rust";
 const RED: &str = "\x1B[001m\x1B[031m";
 const GREEN: &str = "\x1B[001m\x1B[032m";
-const BLUE: &str = "\x1B[001m\x1B[034m";
 const RESET: &str = "\x1B[000m";
 
 struct TargetOpts {
@@ -133,10 +132,10 @@ fn main() {
     let mut config = Config::default();
     config.cnf_file = args.problem.clone();
     config.quiet_mode = true;
-    let (red, green, blue) = if args.no_color {
-        (RESET, RESET, RESET)
+    let (red, green) = if args.no_color {
+        (RESET, RESET)
     } else {
-        (RED, GREEN, BLUE)
+        (RED, GREEN)
     };
     let mut s = Solver::build(&config).expect("failed to load");
     if args.assign.is_none() {
@@ -152,13 +151,8 @@ fn main() {
         && let Ok(d) = File::open(f.as_path())
     {
         if let Some(vec) = read_assignment(&mut BufReader::new(d), cnf, &args.assign) {
-            if s.inject_assignment(&vec).is_err() {
-                println!(
-                    "{}{} seems an unsat problem but no proof.{}",
-                    blue,
-                    args.problem.to_str().unwrap(),
-                    RESET
-                );
+            if let Err(e) = s.inject_assignment(&vec) {
+                report_conflict(red, &args.problem, &vec, e);
                 return;
             }
         } else {
@@ -168,13 +162,8 @@ fn main() {
     }
     if !found {
         if let Some(vec) = read_assignment(&mut BufReader::new(stdin()), cnf, &args.assign) {
-            if s.inject_assignment(&vec).is_err() {
-                println!(
-                    "{}{} seems an unsat problem but no proof.{}",
-                    blue,
-                    args.problem.to_str().unwrap(),
-                    RESET,
-                );
+            if let Err(e) = s.inject_assignment(&vec) {
+                report_conflict(red, &args.problem, &vec, e);
                 return;
             }
             found = true;
@@ -211,6 +200,27 @@ fn main() {
     }
 }
 
+/// report why an assignment set can't be injected.
+fn report_conflict(red: &str, problem: &Path, vec: &[i32], error: SolverError) {
+    let reason = match error {
+        // the problem has asserted its negation
+        SolverError::RootLevelConflict((lit, _)) if !vec.contains(&i32::from(!lit)) => {
+            format!("{:?}", [i32::from(!lit)])
+        }
+        SolverError::RootLevelConflict((lit, _)) => {
+            format!("contradictory literals of {}", i32::from(lit).abs())
+        }
+        e => e.to_string(),
+    };
+    println!(
+        "{}An invalid assignment set for {}{} due to {}.",
+        red,
+        problem.to_str().unwrap(),
+        RESET,
+        reason,
+    );
+}
+
 fn read_assignment(rs: &mut dyn BufRead, cnf: &str, assign: &Option<PathBuf>) -> Option<Vec<i32>> {
     let mut buf = String::new();
     // literals read so far; they can be divided into several value lines.
-- 
2.43.0


From 47ac2f304837258c62bd81fab1ab0e7640799609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 33/43] fix: cut a long file name at a character boundary in
 the progress header

---
 src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 9f93341..a7bcddc 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -817,7 +817,11 @@ impl fmt::Display for State {
             CNFIndicator::LitVec(n) => format!("(embedded {n} element vector)"),
         };
         if width <= fname.len() {
-            fname.truncate(58 - vclen);
+            let mut end = 58 - vclen;
+            while !fname.is_char_boundary(end) {
+                end -= 1;
+            }
+            fname.truncate(end);
         }
         let fnlen = fname.len();
         if width < vclen + fnlen + 1 {
-- 
2.43.0


From 3d14de5deb210df18cb5378dc38fae349e3636d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 34/43] fix: record the same statistics with and without the
 progress report

---
 src/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index a7bcddc..2d0b23f 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -627,6 +627,9 @@ impl StateIF for State {
         );
         self[LogUsizeId::Stage] = self.stm.current_stage();
         self[LogUsizeId::StageCycle] = self.stm.current_cycle();
+        self[LogUsizeId::Simplify] = self[Stat::Simplify];
+        self[LogUsizeId::SubsumedClause] = self[Stat::SubsumedClause];
+        self[LogUsizeId::VivifiedVar] = self[Stat::VivifiedVar];
         self[LogUsizeId::Vivify] = self[Stat::Vivification];
         if self.config.show_cdb_heatmap {
             let big_change = 0.002;
@@ -770,7 +773,7 @@ impl State {
         self[LogUsizeId::Restart] = self[Stat::Restart];
         self[LogUsizeId::Stage] = self.stm.current_stage();
         self[LogUsizeId::StageCycle] = self.stm.current_cycle();
-        self[LogUsizeId::StageSegment] = self.stm.max_scale();
+        self[LogUsizeId::StageSegment] = self.stm.current_segment();
         self[LogUsizeId::Simplify] = self[Stat::Simplify];
         self[LogUsizeId::SubsumedClause] = self[Stat::SubsumedClause];
         self[LogUsizeId::VivifiedClause] = self[Stat::VivifiedClause];
-- 
2.43.0


From 040817fed861366ead01364160aeb67971d147e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 35/43] fix: reject i32::MIN as a literal instead of panicking

---
 src/types/cnf.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index 98446bd..3cd5e48 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -71,9 +71,17 @@ impl fmt::Display for CNFDescription {
 
 impl<V: AsRef<[i32]>> From<&[V]> for CNFDescription {
     fn from(vec: &[V]) -> Self {
+        // i32::MIN can't be a literal. The loader rejects it, as it isn't in this range.
         let num_of_variables = vec
             .iter()
-            .map(|clause| clause.as_ref().iter().map(|l| l.abs()).max().unwrap_or(0))
+            .map(|clause| {
+                clause
+                    .as_ref()
+                    .iter()
+                    .map(|l| l.checked_abs().unwrap_or(0))
+                    .max()
+                    .unwrap_or(0)
+            })
             .max()
             .unwrap_or(0) as usize;
         CNFDescription {
-- 
2.43.0


From d3dda28b5f0d0d34bec848cc84a5c551a7f6022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 36/43] fix: don't panic by absurd numbers in the header of a
 CNF file

---
 src/cdb/db.rs    | 3 ++-
 src/types/cnf.rs | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index cf930c2..1e0351b 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -239,7 +239,8 @@ impl Instantiate for ClauseDB {
     fn instantiate(config: &Config, cnf: &CNFDescription) -> ClauseDB {
         let nv = cnf.num_of_variables;
         let nc = cnf.num_of_clauses;
-        let mut clause = Vec::with_capacity(1 + nc);
+        // The number in a header isn't reliable, so don't ask for all of the memory in advance.
+        let mut clause = Vec::with_capacity(1 + nc.min(1 << 20));
         clause.push(Clause::default());
         let mut watcher = Vec::with_capacity(2 * (nv + 1));
         for _ in 0..2 * (nv + 1) {
diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index 3cd5e48..f515403 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -129,6 +129,7 @@ impl TryFrom<&Path> for CNFReader {
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
                         && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && v <= i32::MAX as usize
                         && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
-- 
2.43.0


From 855fe14d928e66919bac46c308efd80517672bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:35 +0000
Subject: [PATCH 37/43] fix: refuse a value of --crl that doesn't fit instead
 of truncating it

---
 src/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index c4ac8d7..1d65c0c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -177,7 +177,12 @@ impl Config {
                                 if let Ok(val) = str.parse::<usize>() {
                                     match name {
                                         "cl" => self.c_cls_lim = val,
-                                        "crl" => self.cls_rdc_lbd = val as u16,
+                                        "crl" => {
+                                            let Ok(val) = u16::try_from(val) else {
+                                                panic!("invalid value {name}");
+                                            };
+                                            self.cls_rdc_lbd = val;
+                                        }
                                         "ecl" => self.elm_cls_lim = val,
                                         "evl" => self.elm_grw_lim = val,
                                         "evo" => self.elm_var_occ = val,
-- 
2.43.0


From 8b07e599268d1be6534406a660246a4d4e783896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:06 +0000
Subject: [PATCH 38/43] fix: CNF::save reports a file it could not write
 completely

---
 src/cnf/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 2066054..7acbda1 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -196,6 +196,7 @@ impl CnfIf for CNF {
         if let Ok(f) = File::create(file) {
             let mut buf = std::io::BufWriter::new(f);
             buf.write_all(self.dump_to_string().as_bytes())
+                .and_then(|()| buf.flush())
                 .map_err(|_| CNFOperationError::WritingCNFFile)
         } else {
             Err(CNFOperationError::CreatingCNFFile)
-- 
2.43.0


From 9fc3557da95080ad11e6ab93fca67be3638839ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 39/43] fix: dump_cnf doesn't lose the tail of a dump silently

---
 src/cdb/db.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 1e0351b..59adddc 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1307,6 +1307,7 @@ impl ClauseDBIF for ClauseDB {
             buf.write_all(format!("{} 0\n", i32::from(*x)).as_bytes())
                 .unwrap();
         }
+        buf.flush().unwrap();
     }
     fn clause_heatmap(&self) -> [[f64; 9]; 7] {
         let mut stats: HashMap<(u16, u32), usize> = HashMap::new();
-- 
2.43.0


From 994df499e94cc0236e093b3beb474ef54e0f04f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 40/43] fix: say so if the result file could not be written
 completely

---
 src/bin/splr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 341e9c2..01e005d 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -156,7 +156,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 for x in v {
                     buf.write_all(format!("{x} ").as_bytes())?;
                 }
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -189,7 +190,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, &mut buf)?;
                 buf.write_all(b"s UNSATISFIABLE\n")?;
-                buf.write_all(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
@@ -218,7 +220,8 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 )?;
                 report(s, buf)?;
                 buf.write_all(format!("c {}\n{}\n", e, colored(Err(e), true)).as_bytes())?;
-                buf.write(b"0\n")
+                buf.write_all(b"0\n")?;
+                buf.flush()
             })() {
                 println!("Abort: failed to save by {why}!");
             }
-- 
2.43.0


From d6d0ed7b3b962af9bfeaa08f5a72770f718dc2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:07 +0000
Subject: [PATCH 41/43] fix: don't announce a certificate that could not be
 saved

---
 src/bin/splr.rs              | 16 +++++++++++-----
 src/cdb/db.rs                |  4 ++--
 src/cdb/mod.rs               |  2 +-
 src/cdb/unsat_certificate.rs | 18 ++++++++++--------
 src/solver/build.rs          |  8 ++++----
 5 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index 01e005d..c0db03a 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -174,11 +174,17 @@ fn save_result<S: AsRef<str> + std::fmt::Display>(
                 _ => (),
             }
             if s.state.config.use_certification {
-                s.save_certification();
-                println!(
-                    " Certificate|file: {}",
-                    s.state.config.io_pfile.to_string_lossy()
-                );
+                if s.save_certification() {
+                    println!(
+                        " Certificate|file: {}",
+                        s.state.config.io_pfile.to_string_lossy()
+                    );
+                } else {
+                    println!(
+                        "Abort: failed to save the certificate to {}!",
+                        s.state.config.io_pfile.to_string_lossy()
+                    );
+                }
             }
             println!("{}: {}", colored(Ok(false), s.state.config.no_color), input);
             if let Err(why) = (|| {
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 59adddc..6f29ee8 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1140,8 +1140,8 @@ impl ClauseDBIF for ClauseDB {
     fn certificate_add_assertion(&mut self, lit: Lit) {
         self.certification_store.add_clause(&[lit]);
     }
-    fn certificate_save(&mut self) {
-        self.certification_store.close();
+    fn certificate_save(&mut self) -> bool {
+        self.certification_store.close()
     }
     fn check_size(&self) -> Result<bool, SolverError> {
         if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index 0ad8f4e..3c75a14 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -129,7 +129,7 @@ pub trait ClauseDBIF:
     /// record an asserted literal to unsat certification.
     fn certificate_add_assertion(&mut self, lit: Lit);
     /// save the certification record to a file.
-    fn certificate_save(&mut self);
+    fn certificate_save(&mut self) -> bool;
     /// check the number of clauses
     /// * `Err(SolverError::OutOfMemory)` -- the db size is over the limit.
     /// * `Ok(true)` -- enough small
diff --git a/src/cdb/unsat_certificate.rs b/src/cdb/unsat_certificate.rs
index e3efd05..c834c52 100644
--- a/src/cdb/unsat_certificate.rs
+++ b/src/cdb/unsat_certificate.rs
@@ -25,7 +25,9 @@ impl CertificationStore {
     }
     pub fn add_clause(&mut self, _clause: &[Lit]) {}
     pub fn delete_clause(&mut self, _vec: &[Lit]) {}
-    pub fn close(&mut self) {}
+    pub fn close(&mut self) -> bool {
+        false
+    }
 }
 
 #[cfg(not(feature = "no_IO"))]
@@ -88,16 +90,16 @@ impl CertificationStore {
             self.dump_to_file();
         }
     }
-    pub fn close(&mut self) {
+    /// return `true` if the whole certificate was written.
+    pub fn close(&mut self) -> bool {
         if self.buffer.is_none() {
-            return;
+            return false;
         }
         self.dump_to_file();
-        if let Some(ref mut buf) = self.buffer {
-            let _ = buf.write_all(b"0\n");
-            self.buffer = None;
-            self.target = None;
-        }
+        self.target = None;
+        self.buffer
+            .take()
+            .is_some_and(|mut buf| buf.write_all(b"0\n").and_then(|()| buf.flush()).is_ok())
     }
 }
 
diff --git a/src/solver/build.rs b/src/solver/build.rs
index d2d6aaf..c86e37b 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -104,8 +104,8 @@ pub trait SatSolverIF: Instantiate {
     /// * `SolverError::InvalidLiteral` if any literal used in the CNF is out of range for var index.
     fn build(config: &Config) -> Result<Solver, SolverError>;
     #[cfg(not(feature = "no_IO"))]
-    /// dump an UNSAT certification file
-    fn save_certification(&mut self);
+    /// dump an UNSAT certification file and return `true` if the whole of it was saved.
+    fn save_certification(&mut self) -> bool;
     #[cfg(not(feature = "no_IO"))]
     /// dump the current status as a CNF
     fn dump_cnf(&self, fname: &Path);
@@ -239,8 +239,8 @@ impl SatSolverIF for Solver {
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump an UNSAT certification file
-    fn save_certification(&mut self) {
-        self.cdb.certificate_save();
+    fn save_certification(&mut self) -> bool {
+        self.cdb.certificate_save()
     }
     #[cfg(not(feature = "no_IO"))]
     /// dump all active clauses and assertions as a CNF file.
-- 
2.43.0


From f7bb55b7ad100bb5da45d05702578ca85f92715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:27 +0000
Subject: [PATCH 42/43] fix: refuse a CNF file with a wrong number of clauses
 instead of panicking

---
 src/cnf/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cnf/mod.rs b/src/cnf/mod.rs
index 7acbda1..6266d98 100644
--- a/src/cnf/mod.rs
+++ b/src/cnf/mod.rs
@@ -180,8 +180,8 @@ impl CnfIf for CNF {
         if clause_extists_already {
             assert_eq!(cnf.num_clauses(), num_clause);
             println!("Warning: there are less clauses than its declaration.");
-        } else if cnf.num_clauses() < TOO_MANY_CLAUSES {
-            assert_eq!(cnf.num_clauses(), nc);
+        } else if cnf.num_clauses() < TOO_MANY_CLAUSES && cnf.num_clauses() != nc {
+            return Err(CNFOperationError::ParsingCNF);
         }
         Ok(cnf)
     }
-- 
2.43.0


From d5a6d61647cdb4d0d4347baf2a696b622c0c4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:27 +0000
Subject: [PATCH 43/43] fix: don't let a long SPLR_TIMEOUT wrap around

---
 src/bin/splr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/splr.rs b/src/bin/splr.rs
index c0db03a..4d858a2 100644
--- a/src/bin/splr.rs
+++ b/src/bin/splr.rs
@@ -75,7 +75,7 @@ fn main() {
         let input = cnf_file.as_ref().to_string();
         let no_color = config.no_color;
         thread::spawn(move || {
-            thread::sleep(Duration::from_millis(timeout * 1000));
+            thread::sleep(Duration::from_secs(timeout));
             println!(
                 "{} (TimeOut): {}",
                 colored(Err(&SolverError::TimeOut), no_color),
-- 
2.43.0

