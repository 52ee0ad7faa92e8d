From fc7a3edac31e9e3356f5f2db18f5f30ee5819644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 01/36] fix: don't carry elements over when an engine
 elaborates another circuit

Engine::elaborate() appended to the lists of nonlinear, independent source,
dependent source and storage elements without emptying them first, so the
second analysis run on an engine also contained all the elements of the first.
---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..ab8770d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -480,6 +480,12 @@ impl Engine {
         // [ V I ]
         let mut m = vec![ vec![0.0; c_mna+1]; c_mna]; // +1 for currents
 
+        // Forget the elements of whatever circuit was elaborated before this one
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Fill up the voltage node and current vector
         // This needs to know about each of the kinds of circuit elements, so
         // the node equations can be built up appropriately.
-- 
2.43.0


From 2d5045eb0be9a74232e50c4cacdd3e92854ec871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 02/36] fix: name nodes by their own name, not by an arbitrary
 port alias

With subcircuits, several names map to one NodeId. Which of them ended up in
the waveform file header depended on the iteration order of a randomly seeded
HashMap, so column names (even ground's) changed from run to run.
---
 src/circuit.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..e5be061 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -410,8 +410,21 @@ impl Circuit {
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
     pub fn build_node_id_lut(&mut self) {
+        // The ports of subcircuits are aliases of the nodes they're connected
+        // to. A node goes by the name it has nearest the toplevel, and not by
+        // whichever of its names the hashmap happens to visit last.
+        fn rank(name: &str) -> (usize, &str) {
+            (name.matches('.').count(), name)
+        }
+
         for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+            let is_better = match self.node_id_lut.get(id) {
+                Some(other) => rank(name) < rank(other),
+                None => true,
+            };
+            if is_better {
+                self.node_id_lut.insert(*id, String::from(name));
+            }
         }
     }
 
-- 
2.43.0


From ae8f788f72b5efc2cf3091c74d5e5e827f42035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 03/36] fix: report waveform data that could not be written

Errors writing to the waveform file (e.g. disk full) were dropped: the run
looked like a success and left a file with rows missing.
---
 src/wavewriter.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..7ecddc9 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -75,14 +75,12 @@ impl WaveWriter<'_> {
         }
         units += "\n";
 
-        if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
-        }
+        self.write(&names);
+        self.write(&units);
     }
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
-        if let Some(ref mut file) = self.file {
+        if self.file.is_some() {
             let mut line = format!("{:0.9}", time);
 
             for var in vars {
@@ -90,11 +88,25 @@ impl WaveWriter<'_> {
                 line += &bit;
             }
             line += "\n";
-            let _ = file.write_all(line.as_bytes());
+            self.write(&line);
         }
 
     }
 
+    /// Write some text to the waveform file
+    ///
+    /// If that fails, say so and leave the file as it is from there on.
+    fn write(&mut self, text: &str) {
+        let result = match self.file {
+            Some(ref mut file) => file.write_all(text.as_bytes()),
+            None => Ok(()),
+        };
+        if let Err(why) = result {
+            println!("*ERROR* Can't write waveform data: {}", why);
+            self.file = None;
+        }
+    }
+
 }
 
 
-- 
2.43.0


From f59990c1a7a4a96bb968f2e595675de296b75071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 04/36] fix: don't take the title for a component after a read
 error

An I/O error on reading the first line of a deck was ignored, and the next
line read - the title - was then parsed as part of the circuit.
---
 src/spice.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..bea09b0 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -30,7 +30,7 @@
 
 use std::path::{Path, PathBuf};
 use std::fs::File;
-use std::io::{BufReader, BufRead};
+use std::io::{BufReader, BufRead, ErrorKind};
 
 use crate::circuit::{Circuit, CurrentSourceSine, VoltageSourceSine};
 use crate::circuit::{VoltageSourcePwl};
@@ -123,8 +123,13 @@ impl Reader {
             }
         };
 
-        // first line is a comment and is ignored
-        lines_iter.next();
+        // first line is a comment and is ignored, whatever is in it. But if
+        // it couldn't be read, the line read next would not be the second.
+        if let Some(Err(why)) = lines_iter.next() {
+            if why.kind() != ErrorKind::InvalidData {
+                panic!("*FATAL* Can't read '{}': {}", filepath.display(), why);
+            }
+        }
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-- 
2.43.0


From 0cd78a11c302046df23e0b79d9ea4fe4c691e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 05/36] fix: don't simulate a deck with devices that can't be
 extracted

R, C, D, E and G cards that couldn't be parsed were reported with an *ERROR*,
but the simulation went ahead with a circuit that was missing the device.
---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index bea09b0..33ba6e9 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -254,30 +254,35 @@ impl Reader {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
-- 
2.43.0


From 0049482848b83333b71e0603574a0cb6d04a32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 06/36] fix: record timesteps at the time they were solved for

The timestep for the next solve was worked out before adding it on to the
time, so whenever the timestep changed the solution for t was written to the
waveform file with the time of the next one, or beyond TSTOP.
---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index ab8770d..1341dcc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -311,6 +311,9 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // the time we've just solved for
+            t_now += t_delta;
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -330,7 +333,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
             if t_now > cfg.TSTOP {
                 t_now = cfg.TSTOP;
                 is_final_timestep = true;
-- 
2.43.0


From e267ae60f765a121c4a6decd070e8fff25e513d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 07/36] fix: solve the last timestep of a transient for TSTOP

The last step was solved for a time beyond TSTOP, and the solution recorded as
if it were for TSTOP. If a step ended right at TSTOP, there was one more row
with the same time.
---
 src/engine.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 1341dcc..b09833e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -208,7 +208,7 @@ impl Engine {
         wavedb.dump_vector(t_now, &unknowns); // DC solution
 
         // timestep loop
-        let mut is_final_timestep = false;
+        let mut is_final_timestep = t_now >= cfg.TSTOP;
         #[allow(unused_variables)]
         let mut c_step = 0; // goes away with empty trace!
         let mut c_iteration: usize = 0;
@@ -241,6 +241,12 @@ impl Engine {
             let mut unknowns_solve_prev : Vec<f64> = vec![0.0; c_mna];
             let mut geared = false;
 
+            // land on the stop time, don't solve beyond it
+            let t_left = cfg.TSTOP - t_now;
+            if t_delta * (1.0 + 1e-9) >= t_left {
+                t_delta = t_left;
+            }
+
             let mut _mse :f64 = 0.0; // not used if trace! is empty
 
             loop {
@@ -312,7 +318,12 @@ impl Engine {
             }
 
             // the time we've just solved for
-            t_now += t_delta;
+            if t_delta == t_left {
+                t_now = cfg.TSTOP;
+                is_final_timestep = true;
+            } else {
+                t_now += t_delta;
+            }
 
             if converged {
                 // update things for next loop
@@ -333,11 +344,6 @@ impl Engine {
             }
 
             c_step += 1;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
 
             // break out of this loop if an error was detected
             if error {
-- 
2.43.0


From 291f587c8332e58e72c22f52c4bc294fc4b9ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 08/36] fix: a transient that gave up on a timestep didn't get
 to its end

On an error, time was advanced by the timestep that couldn't be solved before
giving up, and the end time in the statistics included it (TSTOP, if it was the
last one).
---
 src/engine.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index b09833e..0c4bcff 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -317,6 +317,12 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
             // the time we've just solved for
             if t_delta == t_left {
                 t_now = cfg.TSTOP;
@@ -344,12 +350,6 @@ impl Engine {
             }
 
             c_step += 1;
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From fccd9d3a1e48d044e46eb0d14256db1023fad017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 09/36] fix: start the transient from the DC operating point

The DC operating point was recorded as the solution for t=0, but capacitors
started off from 0V whatever the voltage on them in the operating point.
---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0c4bcff..8a0c8ab 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,9 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        let mut unknowns_prev : Vec<f64> = unknowns.iter()
+            .map(|x| if x.is_finite() { *x } else { 0.0 })
+            .collect();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From d81ee5841eb661db12799463ebe852d88862138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 10/36] fix: a solution isn't converged while diode voltages
 are being limited

With the junction voltage limited, two successive solutions can agree with each
other without the current through the diode being anywhere near the one the
diode has at that voltage. That was taken for convergence.
---
 src/element/diode.rs |  9 +++++++++
 src/engine.rs        | 12 ++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 9b701d0..1f9fb16 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -23,6 +23,7 @@ pub struct Diode {
     v_d_prev: Cell<f64>,
     i_d_prev: Cell<f64>,
     g_eq_prev: Cell<f64>,
+    limited: Cell<bool>,
 }
 
 impl Diode {
@@ -39,6 +40,7 @@ impl Diode {
             v_d_prev: Cell::new(0.0),
             i_d_prev: Cell::new(0.0),
             g_eq_prev: Cell::new(GMIN),
+            limited: Cell::new(false),
         };
         d.update_v_thermal();
         d.update_v_crit();
@@ -105,12 +107,19 @@ impl Diode {
             println!("*ERROR* - banjaxed");
         }
 
+        self.limited.set(v_d_i != v_hat);
         self.v_d_prev.set(v_d_i);
         self.i_d_prev.set(i_d);
         self.g_eq_prev.set(g_eq);
         (g_eq, i_eq)
     }
 
+    /// Was the voltage limited in the last linearization? If so, the companion
+    /// model isn't a model of the diode at the voltage in the solution.
+    pub fn is_limited(&self) -> bool {
+        self.limited.get()
+    }
+
     /// thermal voltage. Should be ~26mV at room temperature
     fn update_v_thermal(&mut self) {
         self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;
diff --git a/src/engine.rs b/src/engine.rs
index 8a0c8ab..0d2966d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -287,7 +287,7 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg {
+                        if cnvg && !self.is_nonlinear_limited() {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -413,7 +413,7 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd {
+                        if cnvd && !self.is_nonlinear_limited() {
                             converged = true;
                             break;
                         }
@@ -853,6 +853,14 @@ impl Engine {
         //self.pp_matrix(&m);
     }
 
+    // were any of the nonlinear devices limited when they were last stamped?
+    fn is_nonlinear_limited(&self) -> bool {
+        self.nonlinear_elements.iter().any(|el| match *el {
+            circuit::Element::D(ref d) => d.is_limited(),
+            _ => false,
+        })
+    }
+
     fn v_dependent_source_stamp(&self, m: &mut [Vec<f64>]) {
 
         if !&self.v_dependent_sources.is_empty() {
-- 
2.43.0


From 1d6367ea94687c7beb674275b71934d7f564fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 11/36] fix: allow transient timesteps smaller than TSTEP

The default for RMIN was 1e03 (should be 1e-03), so the smallest timestep was
larger than the largest one. Any timestep that didn't converge within ITL4
iterations ended the simulation, instead of being tried again with a smaller
timestep.
---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..b4b8d60 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-03,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From c65577373f4714aec360e42f89dedadc2cc29d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 12/36] fix: a non-repeating PWL source is at its final value
 from its last point on

Right at the last point, the time in the cycle wrapped to 0 and the source went
back to its value at the start of the pattern.
---
 src/element/vpwl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..ef2e80e 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,7 +29,7 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && (t >= (self.t_delay + t_period)) {
             return self.pat[idx_last].1;
         }
 
-- 
2.43.0


From 9f37e0bbe1f57cb9c3808f0c7cf65f587afad4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:50 +0000
Subject: [PATCH 13/36] fix: a PWL source can start off with something other
 than 0V

For a first point at time 0, the gradient from 0V at time 0 is infinite unless
its value is 0V too, and the value of the source at time 0 was infinity times
zero. The operating point then was NaN.
---
 src/element/vpwl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index ef2e80e..1fecbc9 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -59,9 +59,10 @@ impl VoltageSourcePwl {
         //dbg!(t1,v1, t2,v2);
 
         // ... and interpolate between them
-        let mut gradient = (v2-v1) / (t2-t1);
-        if gradient.is_nan() {
-            gradient = 0.0;
+        let gradient = (v2-v1) / (t2-t1);
+        if !gradient.is_finite() {
+            // right on a first point that's at the start of the cycle
+            return v2;
         }
         gradient * (t_cycle - t1) + v1
 
-- 
2.43.0


From e153ad39f9b7dc06e3f2f21e8329f64f4aa6ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:58 +0000
Subject: [PATCH 14/36] fix: expand the sources in subcircuits

Independent voltage and current sources are elements and not instances, and
the expander only expanded the instances of a subcircuit. Any sources in it
were left out of the circuit without a word.
---
 src/expander.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..c69b841 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -337,11 +337,51 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These aren't instances: the reader adds them to the element list of the
+/// circuit they're in. (The ones at the toplevel are where they should be
+/// already.)
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    subckt_id: usize,
+    hier: &[String], // the scope the sources are instantiated in
+) {
+    for el in &ckts[subckt_id].elements {
+        let mut el = el.clone();
+        let (p, n) = match el {
+            Element::I(ref mut src) => (&mut src.p, &mut src.n),
+            Element::Isin(ref mut src) => (&mut src.p, &mut src.n),
+            Element::V(ref mut src) => (&mut src.p, &mut src.n),
+            Element::Vsin(ref mut src) => (&mut src.p, &mut src.n),
+            Element::Vpwl(ref mut src) => (&mut src.p, &mut src.n),
+            _ => {
+                println!("*ERROR* Unrecognised element in subcircuit '{}'",
+                    ckts[subckt_id].name);
+                panic!("*FATAL*");
+            }
+        };
+        *p = local_connect(ckts, ckt, subckt_id, hier, *p);
+        *n = local_connect(ckts, ckt, subckt_id, hier, *n);
+
+        // add_v*() update the voltage source ids
+        match el {
+            Element::V(src) => ckt.add_v(src.p, src.n, src.value),
+            Element::Vsin(src) => ckt.add_v_sin(src),
+            Element::Vpwl(src) => ckt.add_v_pwl(src),
+            el => ckt.elements.push(el),
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From 82be72a71b851265071cbfe701443a48f9727225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:17 +0000
Subject: [PATCH 15/36] fix: don't simulate a deck with sources that can't be
 extracted

As for the other devices: V and I cards that aren't one of the supported kinds
were skipped, and the circuit without them simulated.
---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 33ba6e9..2f95f9a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -228,6 +228,9 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* can't extract current source");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -248,6 +251,8 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        println!("*ERROR* can't extract voltage source");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
-- 
2.43.0


From 13d9334589387c125ca94cd75b86fae723333151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:17 +0000
Subject: [PATCH 16/36] fix: don't simulate a subcircuit with the wrong number
 of connections

A mismatch between the number of connections of an instance and the number of
ports of its subcircuit was reported, but then simulated with whatever nodes
the connections happened to end up on.
---
 src/expander.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index c69b841..8e154e7 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -306,8 +306,8 @@ fn expand_subckt(
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
     if ckts[subckt_id].num_ports != inst.conns.len() {
-        print!("*ERROR* Instantiation and subcircuit definitions ");
-        println!("have different port sizes");
+        println!("*FATAL* Instantiation and subcircuit definitions have different port sizes");
+        panic!();
     }
 
 
-- 
2.43.0


From 8ae8be6c9ec724cf39936bd2ecde884f5f7a89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:02 +0000
Subject: [PATCH 17/36] Hook into the convergence checks for simulation testing

Only there with --cfg tiny_spice_sim; not part of a normal build.
---
 src/engine.rs  |  5 +++++
 src/lib.rs     |  6 ++++++
 src/simhook.rs | 29 +++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+)
 create mode 100644 src/simhook.rs

diff --git a/src/engine.rs b/src/engine.rs
index 0d2966d..aba4b49 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -982,6 +982,11 @@ impl Engine {
         cfg: &analysis::Configuration,
     ) -> ConvergenceResult {
 
+        #[cfg(tiny_spice_sim)]
+        if let Some(res) = crate::simhook::convergence(xv, yv) {
+            return res;
+        }
+
         let mut res = Ok(true);
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
diff --git a/src/lib.rs b/src/lib.rs
index 957f8e3..f9b28e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,7 @@
 //! Tiny-Spice-RS - A teeny weeny SPICE circuit simulator
 
+#![allow(unexpected_cfgs)] // tiny_spice_sim
+
 // Circuit and Analysis Datastructures
 pub mod parameter;
 pub mod bracket_expression;
@@ -19,3 +21,7 @@ pub mod wavewriter;
 pub mod spice;
 pub mod expander;
 
+// Hooks for simulation testing (RUSTFLAGS="--cfg tiny_spice_sim")
+#[cfg(tiny_spice_sim)]
+pub mod simhook;
+
diff --git a/src/simhook.rs b/src/simhook.rs
new file mode 100644
index 0000000..2c80160
--- /dev/null
+++ b/src/simhook.rs
@@ -0,0 +1,29 @@
+//! Simulation hooks for testing
+//!
+//! Only built with `RUSTFLAGS="--cfg tiny_spice_sim"`. Lets a test harness
+//! watch the convergence checks of the solver loops, and make them fail.
+
+use std::cell::RefCell;
+
+use crate::engine::ConvergenceResult;
+
+/// Called with the present and the previous solution at each convergence
+/// check. The check is carried out as usual if it returns `None`.
+pub type ConvergenceHook = Box<dyn FnMut(&[f64], &[f64]) -> Option<ConvergenceResult>>;
+
+thread_local! {
+    static HOOK: RefCell<Option<ConvergenceHook>> = const { RefCell::new(None) };
+}
+
+/// Set or remove the hook for the current thread
+pub fn set_convergence_hook(hook: Option<ConvergenceHook>) {
+    HOOK.with(|h| *h.borrow_mut() = hook);
+}
+
+/// Call the hook of the current thread, if there is one
+pub fn convergence(xv: &[f64], yv: &[f64]) -> Option<ConvergenceResult> {
+    HOOK.with(|h| match *h.borrow_mut() {
+        Some(ref mut hook) => hook(xv, yv),
+        None => None,
+    })
+}
-- 
2.43.0


From 1301d4ed046fbb469d333ab3a27278cd6c7867a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:38 +0000
Subject: [PATCH 18/36] fix: keep the first timesteps of a transient within
 RMAX

With RMAX set to less than FS, the first timestep was FS * TSTEP and only the
ones after that were limited to RMAX * TSTEP.
---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index aba4b49..035b866 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -193,7 +193,7 @@ impl Engine {
             .collect();
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
-- 
2.43.0


From b7264dbf2bdbccd15aafed5368987bf741a1cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:02 +0000
Subject: [PATCH 19/36] fix: don't hang on a timestep of zero

With a TSTEP or RMAX that's zero (or negative), time never advanced and the
transient analysis wrote rows for the same time until the disk was full.
---
 src/engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 035b866..b16f35f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -249,6 +249,13 @@ impl Engine {
                 t_delta = t_left;
             }
 
+            // don't go round and round without getting anywhere
+            // (tran with a TSTEP of 0, for example)
+            if t_now + t_delta <= t_now {
+                println!("*ERROR* Internal timestep too small");
+                break;
+            }
+
             let mut _mse :f64 = 0.0; // not used if trace! is empty
 
             loop {
-- 
2.43.0


From f7f8b0707b11221c5c9d5481d7178f4742635477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:34 +0000
Subject: [PATCH 20/36] fix: don't simulate a deck with bad SIN() sources

More than three parameters to SIN() were reported with an *ERROR*, but the ones
not supported then were ignored (delay, damping) and the deck simulated.
---
 src/spice.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 2f95f9a..bfd6921 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -462,7 +462,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* wrong number of parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -500,7 +501,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* wrong number of parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
-- 
2.43.0


From 6003bf79fb680886f55f967e8966e8bcd9ade9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 21/36] fix: a PWL source is at 0V before its delay, whatever
 its period

---
 src/element/vpwl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index 1fecbc9..634ab24 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -34,10 +34,10 @@ impl VoltageSourcePwl {
         }
 
         // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
+        if t < self.t_delay {
             return 0.0;
         }
+        let t_cycle = ( t - self.t_delay ) % t_period;
 
         // find out which points we're between...
         let mut t1 = 0.0;
-- 
2.43.0


From cf6ef9bcade5e8500a750df431466778c61eb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 22/36] fix: don't panic in a transient after a DC solution
 with infinities

---
 src/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index b16f35f..a7b6e86 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -209,6 +209,9 @@ impl Engine {
         wavedb.header(self.c_nodes, self.c_vsrcs);
         wavedb.dump_vector(t_now, &unknowns); // DC solution
 
+        // without a DC solution, carry on from something finite at least
+        unknowns.clone_from(&unknowns_prev);
+
         // timestep loop
         let mut is_final_timestep = t_now >= cfg.TSTOP;
         #[allow(unused_variables)]
-- 
2.43.0


From c91e14c1dbb6642561e90a539835e3b490062adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 23/36] fix: don't forget about infinities in the convergence
 check

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index a7b6e86..0940643 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1012,7 +1012,7 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            if this > limit && res.is_ok() {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From bc7f9c3122097173a7063116a7a70fdb0dd10428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 24/36] fix: a voltage source with both ends on one node has no
 voltage to give

The second end's stamp overwrote the first's, so the source looked like one
from the node to ground.
---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0940643..203922a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -752,13 +752,13 @@ impl Engine {
         let n_not_grounded = (vsrc.n != 0);
 
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From 83552f3c41b29c36153cd47b6f775b57d6381d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 25/36] fix: don't make up a solution for a circuit that has
 none

The last unknown was set to zero whenever its division blew up, so voltage
sources in a loop that disagree, or a source across a short, got rows that
don't satisfy the sources and no error. Only do so if any value will do.
---
 src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 203922a..d03be09 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -645,7 +645,11 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        let rhs_max = v.iter().fold(0.0, |max: f64, row| max.max(row[ia].abs()));
+        let is_unconstrained = v[i_last][ia].abs() <= 1e-12 * rhs_max;
+        if !n[i_last].is_finite() && is_unconstrained {
+            // Any value would do. But not if the equation is 0 = something:
+            // then there is no solution, and the infinity says so.
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 8d79949e999b81d199aa28c0e6799f6112246176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 26/36] fix: a PWL source doesn't start again when rounding has
 it just end

The end of the pattern was looked for at (delay + period), the place in
the pattern by (time - delay): where the two differ in the last bit, the
source had its value for time zero at its end.
---
 src/element/vpwl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index 634ab24..8db2014 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,7 +29,7 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t >= (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && ((t - self.t_delay) >= t_period) {
             return self.pat[idx_last].1;
         }
 
-- 
2.43.0


From c9f833e74eb6edd48446a48e05212210adfed638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 27/36] fix: a subcircuit port can't be ground, or there twice

Such a port isn't a node of its own, and the connections of the
instances went to the wrong nodes from there on.
---
 src/spice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index bfd6921..132663b 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -325,7 +325,12 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            // the expander counts on each port being a node of its own
+                            let nid_new = self.ckts[self.c].nid_next;
+                            if self.ckts[self.c].add_node(nn) != nid_new {
+                                println!("*ERROR* port '{}' is ground, or there already", nn);
+                                self.there_are_errors = true;
+                            }
                             num_ports += 1;
                         }
                         self.ckts[self.c].num_ports = num_ports;
-- 
2.43.0


From 460902dc28ca639862ac7ab67104ac8abbf03726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 28/36] fix: the toplevel circuit isn't a subcircuit

A deck in a file with the name of a subcircuit was taken for it.
---
 src/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 8e154e7..5ef5c69 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -520,9 +520,10 @@ fn expand_primitive(
 /// Find the index of the subcircuit called `name`.
 ///
 /// `N` is small, so just search the circuit list one by one until
-/// a name match is found.
+/// a name match is found. The first circuit is the toplevel, and no subcircuit,
+/// whatever the name of the file it's in.
 fn find_subckt_index(ckts: &[Circuit], name: &str) -> Option<usize> {
-    for (i, ckt) in ckts.iter().enumerate() {
+    for (i, ckt) in ckts.iter().enumerate().skip(1) {
         if ckt.name == name {
             return Some(i);
         }
-- 
2.43.0


From cca0afcf3af75fe21a067e401f24411d015f4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 29/36] fix: count the nodes that have nothing connected to
 them, and more than 256

Nodes that are only connected to an unused port of a subcircuit weren't
counted, and the nodes numbered after them ended up among the voltage
source currents.
---
 src/circuit.rs     | 135 ++++-----------------------------------------
 src/element/mod.rs |  19 +++++++
 src/engine.rs      |   8 +++
 3 files changed, 39 insertions(+), 123 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index e5be061..3808c45 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -143,135 +143,24 @@ impl Circuit {
     /// Count the nodes in the circuit
     pub fn count_nodes(&self) -> usize {
 
-        // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        // Nodes are numbered when they're first mentioned, so there can be
+        // some that have nothing connected to them. There is always at least
+        // ground.
+        let mut c_nodes = self.nid_next.max(1);
 
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                }
+            for n in el.nodes() {
+                c_nodes = c_nodes.max(n + 1);
+            }
         }
         c_nodes
     }
 
+    /// Is there an element connected to this node?
+    pub fn is_connected(&self, nid: NodeId) -> bool {
+        self.elements.iter().any(|el| el.nodes().contains(&nid))
+    }
+
     /// Count the voltage sources in the circuit
     ///
     /// Counts both `V` and `VSIN`.
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 71e3484..8160bea 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -31,6 +31,25 @@ pub enum Element {
     Vccs(vdepsrc::Vccs),
 }
 
+impl Element {
+
+    /// The nodes that this element is connected to
+    pub fn nodes(&self) -> Vec<usize> {
+        match *self {
+            Element::I(ref el) => vec![el.p, el.n],
+            Element::R(ref el) => vec![el.a, el.b],
+            Element::V(ref el) => vec![el.p, el.n],
+            Element::D(ref el) => vec![el.p, el.n],
+            Element::Isin(ref el) => vec![el.p, el.n],
+            Element::Vsin(ref el) => vec![el.p, el.n],
+            Element::Vpwl(ref el) => vec![el.p, el.n],
+            Element::C(ref el) => vec![el.a, el.b],
+            Element::Vcvs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+            Element::Vccs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+        }
+    }
+
+}
 
 impl fmt::Display for Element {
     fn fmt (&self, f:&mut fmt::Formatter) -> fmt::Result {
diff --git a/src/engine.rs b/src/engine.rs
index d03be09..7da7c20 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -579,6 +579,14 @@ impl Engine {
                 
             }
         }
+
+        // Nodes with nothing connected to them are left at 0V
+        for nid in 1..self.c_nodes {
+            if !ckt.is_connected(nid) {
+                m[nid][nid] = 1.0;
+            }
+        }
+
         self.base_matrix = m.to_vec();
         self.pp_matrix(&self.base_matrix);
 
-- 
2.43.0


From 1d298c0b677ea315145f41a7e638e757347d2c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 30/36] fix: don't expand a subcircuit that's part of itself

The expander went on, with ever longer names, until it was out of stack
or memory.
---
 src/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index 5ef5c69..3f0ee83 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -302,6 +302,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // a hierarchy deeper than there are subcircuits has one inside of itself
+    if inhier.len() >= ckts.len() - 1 {
+        println!("*FATAL* Subcircuit {} is part of itself", inst.subckt);
+        panic!();
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
-- 
2.43.0


From b2711b8d2185e8139281ffe727a6053134020dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:46 +0000
Subject: [PATCH 31/36] fix: an absurd diode current is a numerical error, and
 no reason to panic

---
 src/element/diode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 1f9fb16..1d8a321 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -98,7 +98,10 @@ impl Diode {
             i_eq = i_d - (g_eq * v_d_i);
 
         } else {
-            panic!("*FATAL* Possibly bad I_d {}", i_d);
+            // far too much for a diode: nothing to go on from
+            println!("*ERROR* Possibly bad I_d {}", i_d);
+            g_eq = f64::NAN;
+            i_eq = f64::NAN;
         }
 
         // check that the companion model variables reasonable before
-- 
2.43.0


From ef839768ac61cfbc08f84bf63631a02f57435844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 32/36] fix: components with the same name don't have the same
 value

In the second R, C, E or G of one name (or of none, like in
ngspice/test_reader.spi), the value of the first one was used.
---
 src/circuit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 3808c45..8972553 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -321,7 +321,9 @@ impl Circuit {
     ///
     /// `N` is small..
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        // The latest one: there can be more than one component with the
+        // same name (or without one), each with a value of its own.
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
-- 
2.43.0


From d04cd0b327b155aba9ee9f882adaa8e363a5f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:07 +0000
Subject: [PATCH 33/36] fix: don't simulate two subcircuit instances of the
 same name

Their nodes were taken for the same nodes, and the parameters of the
first one were used for both.
---
 src/spice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 132663b..971a3a3 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -640,6 +640,12 @@ impl Reader {
         }
         inst.subckt = bits[subckt_id].to_string();
 
+        // its nodes and parameters go by its name
+        if self.ckts[self.c].instances.iter().any(|i| i.name == ident) {
+            println!("*ERROR* there is a '{}' already", ident);
+            self.there_are_errors = true;
+        }
+
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
             let nid = self.ckts[self.c].add_node(conn);
-- 
2.43.0


From 21bab326039b6c97f4d549de0c5ae171c098283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 34/36] fix: write the time of a row with all of its digits

Steps shorter than a nanosecond came out with the time of the step before
them.
---
 src/wavewriter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 7ecddc9..08860f3 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -81,7 +81,8 @@ impl WaveWriter<'_> {
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
         if self.file.is_some() {
-            let mut line = format!("{:0.9}", time);
+            // all of the digits: steps can be as short as they like
+            let mut line = format!("{}", time);
 
             for var in vars {
                 let bit = format!("\t{:0.9}", var);
-- 
2.43.0


From 4640d989aad9f9b4eb4088b944834ac1f52615bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 35/36] fix: the start time of an earlier tran isn't that of
 the last one

---
 src/spice.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 971a3a3..53d6d10 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -195,9 +195,11 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
-                    if bits.len() > 3 {
-                        self.cfg.TSTART = extract_value(bits[3]).unwrap();
-                    }
+                    self.cfg.TSTART = if bits.len() > 3 {
+                        extract_value(bits[3]).unwrap()
+                    } else {
+                        0.0 // and not that of an earlier tran
+                    };
                 } else if bits[0] == "option" {
                         self.extract_option(&bits);
                 } else if bits[0] == ".endc" {
-- 
2.43.0


From 29c94eb26e368da8e139d912809463933271df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 36/36] fix: a line with nothing but a ; comment doesn't stop
 the reader

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 53d6d10..a54c1ed 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -154,6 +154,11 @@ impl Reader {
                 bits.push(b);
             }
 
+            // nothing but a comment
+            if bits.is_empty() {
+                continue;
+            }
+
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0

