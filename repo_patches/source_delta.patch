From b699b9c70bccddf46236feaa698b9d65a69af779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 01/59] fix: stop parameter smoothers when the graph is cleared

---
 src/nodes/node_exec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..bb8c195 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -208,6 +208,13 @@ impl NodeExecutor {
 
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
+                    // The smoothers refer to input indices of the old program,
+                    // they must not be applied to the nodes of the next one.
+                    self.target_refresh.clear();
+                    for (_, smoother) in self.smoothers.iter_mut() {
+                        smoother.stop();
+                    }
+
                     log(|w| {
                         let _ = write!(w, "[dbg] Cleared graph ({} nodes)", self.prog.prog.len());
                     });
-- 
2.43.0


From c94d7bbfcd4972237376ebd7bab421d0111e5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 02/59] fix: don't lose parameter updates if all smoothers are
 busy

---
 src/nodes/node_exec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bb8c195..1bd2c0e 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -410,6 +410,12 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // No smoother left, then don't lose the value but set it directly.
+            // A pending refresh must not overwrite it in the next block.
+            self.target_refresh.retain(|(idx, _)| *idx != input_idx);
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
         }
     }
 
-- 
2.43.0


From fd763f96697fb593601e8d69f6ed239cb1f8a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 03/59] fix: continue parameter smoothing from the audible
 value after a graph update

---
 src/nodes/node_exec.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 1bd2c0e..2e5564e 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -277,6 +277,16 @@ impl NodeExecutor {
                         // input processing buffers, so we keep any modulation
                         // (smoothed) history of the block too.
                         self.prog.swap_previous_outputs(&mut prev_prog);
+
+                        // Parameters that are still smoothed have not reached the
+                        // value from the new program yet.
+                        for (idx, _) in self.smoothers.iter().filter(|s| !s.1.is_done()) {
+                            if let (Some(new), Some(old)) =
+                                (self.prog.params.get_mut(*idx), prev_prog.params.get(*idx))
+                            {
+                                *new = *old;
+                            }
+                        }
                     }
 
                     self.prog.assign_outputs();
-- 
2.43.0


From afb1ffa90ec7f0c3ebab8be52b11da4f41d73b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:32 +0000
Subject: [PATCH 04/59] fix: don't abort in the Map node if a NaN arrives at
 min or max

---
 src/dsp/node_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..1988b88 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -144,7 +144,8 @@ impl DspNode for Map {
                 last_val = x;
                 let s = min + (max - min) * x;
 
-                out.write(frame, if min < max { s.clamp(min, max) } else { s.clamp(max, min) });
+                // XXX: f32::clamp() panics if one of the bounds is NaN!
+                out.write(frame, if min < max { s.max(min).min(max) } else { s.max(max).min(min) });
             }
         }
 
-- 
2.43.0


From 6f6add915781c7ed19550216f9ebdc71860bafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:53 +0000
Subject: [PATCH 05/59] fix: restore the connection state together with the
 matrix

---
 src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..1d0d60c 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,8 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // Forget the edges and assigned inputs of the discarded changes:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 4118588ab566a12c5c6960e5aba96112f213fe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:32 +0000
Subject: [PATCH 06/59] fix: don't hang in the Sin node on large negative phase
 modulation

---
 src/dsp/node_sin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_sin.rs b/src/dsp/node_sin.rs
index 7290892..d06e971 100644
--- a/src/dsp/node_sin.rs
+++ b/src/dsp/node_sin.rs
@@ -99,8 +99,9 @@ impl DspNode for Sin {
             let freq = denorm_offs::Sin::freq(freq, det.read(frame), frame);
 
             let mut phase = self.phase + denorm::Sin::pm(pm, frame);
-            while phase < 0.0 {
-                phase += 1.0
+            if phase < 0.0 {
+                // XXX: Don't add up in a loop, which does not end for large values.
+                phase = phase.fract() + 1.0;
             }
             last_val = fast_sin(phase.fract() * TWOPI);
             o.write(frame, last_val);
-- 
2.43.0


From 7a6422944401aeeccfd75ed96332c7944450e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 07/59] fix: don't abort on oversized tracker patterns in a
 patch file

---
 src/matrix_repr.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..c120fde 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
@@ -171,7 +171,7 @@ impl PatternRepr {
         Ok(Self {
             col_types,
             data,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_PATTERN_LEN as i64) as usize,
             edit_step: v["edit_step"].as_i64().unwrap_or(0) as usize,
             cursor: (
                 v["cursor_row"].as_i64().unwrap_or(0) as usize,
-- 
2.43.0


From 563c07a5fad4248e62870026eb82e651f63b9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 08/59] fix: show the loaded cells of a tracker pattern, not
 cached ones

---
 src/dsp/tracker/pattern.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..415d2c4 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -98,6 +98,7 @@ impl PatternData {
         for (row_idx, row) in repr.data.iter().enumerate() {
             for (col_idx, cell) in row.iter().enumerate() {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-- 
2.43.0


From 78690ef9283d54a05eab22fbcf8e43bc05207181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 09/59] fix: save the length, cursor and edit step of tracker
 patterns without content

---
 src/dsp/tracker/pattern.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 415d2c4..4b13d4f 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -7,6 +7,9 @@ use super::MAX_COLS;
 use super::MAX_PATTERN_LEN;
 use crate::matrix_repr::PatternRepr;
 
+const DEFAULT_CURSOR: (usize, usize) = (2, 2);
+const DEFAULT_EDIT_STEP: usize = 4;
+
 #[derive(Debug)]
 pub struct PatternData {
     col_types: [PatternColType; MAX_COLS],
@@ -27,8 +30,8 @@ impl PatternData {
             data: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
             out_data: vec![[(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             strings: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
-            cursor: (2, 2),
-            edit_step: 4,
+            cursor: DEFAULT_CURSOR,
+            edit_step: DEFAULT_EDIT_STEP,
             dirty_col: [true; MAX_COLS],
             generation: 0,
             rows,
@@ -38,6 +41,13 @@ impl PatternData {
 
 impl PatternData {
     pub fn is_unset(&self) -> bool {
+        if self.rows != MAX_PATTERN_LEN
+            || self.cursor != DEFAULT_CURSOR
+            || self.edit_step != DEFAULT_EDIT_STEP
+        {
+            return false;
+        }
+
         for ct in self.col_types.iter() {
             if *ct != PatternColType::Value {
                 return false;
-- 
2.43.0


From 52da9da3dd18297be9230cd485b9b4446d7810fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:01 +0000
Subject: [PATCH 10/59] fix: ignore ports in a patch file that the node does
 not have

---
 src/matrix_repr.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c120fde..fa96209 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -25,20 +25,26 @@ fn deserialize_node_id(v: &Value, i1: usize, i2: usize) -> Result<NodeId, Matrix
 }
 
 fn inp2idx(node_id: NodeId, v: &Value) -> i16 {
-    let inp = v.as_i64().unwrap_or(-2) as i16;
-
-    if inp > -2 {
-        inp
+    if let Some(inp) = v.as_i64() {
+        // Ignore ports the node does not have:
+        u8::try_from(inp)
+            .ok()
+            .filter(|i| node_id.inp_name_by_idx(*i).is_some())
+            .map(|i| i as i16)
+            .unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.inp(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
 }
 
 fn out2idx(node_id: NodeId, v: &Value) -> i16 {
-    let out = v.as_i64().unwrap_or(-2) as i16;
-
-    if out > -2 {
-        out
+    if let Some(out) = v.as_i64() {
+        // Ignore ports the node does not have:
+        u8::try_from(out)
+            .ok()
+            .filter(|i| node_id.out_name_by_idx(*i).is_some())
+            .map(|i| i as i16)
+            .unwrap_or(-1)
     } else {
         v.as_str().map(|s| node_id.out(s).map(|i| i as i16).unwrap_or(-1)).unwrap_or(-1)
     }
-- 
2.43.0


From b8b76c6c79e379b2ec57686a7135fc68dfd740c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:54 +0000
Subject: [PATCH 11/59] fix: don't abort or run out of memory on out of range
 settings in BiqFilt, Mux9 and CQnt

---
 src/dsp/node_biqfilt.rs | 2 +-
 src/dsp/node_cqnt.rs    | 6 +++++-
 src/dsp/node_mux9.rs    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dsp/node_biqfilt.rs b/src/dsp/node_biqfilt.rs
index 063e0bd..6a37a26 100644
--- a/src/dsp/node_biqfilt.rs
+++ b/src/dsp/node_biqfilt.rs
@@ -146,7 +146,7 @@ impl DspNode for BiqFilt {
             self.ogain = cgain;
         }
 
-        let mut order = order.i() as u8;
+        let mut order = order.i().clamp(0, 3) as u8;
         if ftype == 1 {
             // The resonator just blows up with higher orders.
             order = 0;
diff --git a/src/dsp/node_cqnt.rs b/src/dsp/node_cqnt.rs
index 7ed6146..98ef32f 100644
--- a/src/dsp/node_cqnt.rs
+++ b/src/dsp/node_cqnt.rs
@@ -118,7 +118,11 @@ impl DspNode for CQnt {
         let omin = at::CQnt::omin(atoms);
         let omax = at::CQnt::omax(atoms);
 
-        self.quant.update_keys(keys.i(), omin.i(), omax.i());
+        self.quant.update_keys(
+            keys.i() & 0xFFF,
+            omin.i().clamp(0, 4),
+            omax.i().clamp(0, 4),
+        );
 
         for frame in 0..ctx.nframes() {
             let pitch = self.quant.signal_to_pitch(denorm::CQnt::inp(inp, frame));
diff --git a/src/dsp/node_mux9.rs b/src/dsp/node_mux9.rs
index f0c7e45..df87f4b 100644
--- a/src/dsp/node_mux9.rs
+++ b/src/dsp/node_mux9.rs
@@ -151,7 +151,7 @@ impl DspNode for Mux9 {
         let t_down = inp::Mux9::t_down(inputs);
         let out = out::Mux9::sig(outputs);
 
-        let max: u8 = at::Mux9::in_cnt(atoms).i() as u8 + 1;
+        let max: u8 = at::Mux9::in_cnt(atoms).i().clamp(0, 8) as u8 + 1;
         self.idx %= max;
 
         if nctx.in_connected & 0x1 == 0x1 {
-- 
2.43.0


From cfea62b33bfedeb66b91a7134ea2558955af56ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:07 +0000
Subject: [PATCH 12/59] fix: don't abort or hang on malformed block functions
 in a patch file

---
 src/wblockdsp/language.rs | 56 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..6da848c 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -11,6 +11,11 @@ use std::collections::VecDeque;
 
 use serde_json::{json, Value};
 
+/// Upper bound for the rows of a deserialized [Block].
+const MAX_DESER_ROWS: i64 = 256;
+/// Upper bound for the coordinates and sizes in a deserialized [BlockArea].
+const MAX_DESER_COORD: i64 = 1 << 20;
+
 pub trait BlockView {
     fn rows(&self) -> usize;
     fn contains(&self, idx: usize) -> Option<usize>;
@@ -240,7 +245,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_DESER_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -926,15 +931,15 @@ impl BlockArea {
         let blks = &v["blocks"];
         if let Value::Array(blks) = blks {
             for b in blks.iter() {
-                let x = b["x"].as_i64().unwrap_or(0);
-                let y = b["y"].as_i64().unwrap_or(0);
+                let x = b["x"].as_i64().unwrap_or(0).clamp(-MAX_DESER_COORD, MAX_DESER_COORD);
+                let y = b["y"].as_i64().unwrap_or(0).clamp(-MAX_DESER_COORD, MAX_DESER_COORD);
                 blocks.insert((x, y), Block::deserialize(&b["block"])?);
             }
         }
 
         let size = (
-            v["size"][0].as_i64().unwrap_or(0) as usize,
-            v["size"][1].as_i64().unwrap_or(0) as usize,
+            v["size"][0].as_i64().unwrap_or(0).clamp(0, MAX_DESER_COORD) as usize,
+            v["size"][1].as_i64().unwrap_or(0).clamp(0, MAX_DESER_COORD) as usize,
         );
         let auto_shrink = v["auto_shrink"].as_bool().unwrap_or(true);
         let header = v["header"].as_str().unwrap_or("").to_string();
@@ -1116,6 +1121,39 @@ pub struct BlockFunSnapshot {
 }
 
 impl BlockFunSnapshot {
+    /// Removes all references to sub areas that either don't exist, are already
+    /// contained in a different block or would make an area contain itself.
+    fn remove_bad_sub_areas(areas: &mut [Box<BlockArea>]) {
+        let mut parents: Vec<Option<usize>> = vec![None; areas.len()];
+
+        for area_id in 0..areas.len() {
+            let mut positions: Vec<(i64, i64)> = areas[area_id].blocks.keys().copied().collect();
+            positions.sort();
+
+            for pos in positions {
+                if let Some(block) = areas[area_id].blocks.get_mut(&pos) {
+                    for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                        if let Some(sub_id) = *sub_area {
+                            let mut ok = sub_id > 0 && parents.get(sub_id) == Some(&None);
+
+                            let mut ancestor = Some(area_id);
+                            while let Some(id) = ancestor {
+                                ok = ok && id != sub_id;
+                                ancestor = parents[id];
+                            }
+
+                            if ok {
+                                parents[sub_id] = Some(area_id);
+                            } else {
+                                *sub_area = None;
+                            }
+                        }
+                    }
+                }
+            }
+        }
+    }
+
     pub fn serialize(&self) -> Value {
         let mut v = json!({
             "VERSION": 1,
@@ -1145,9 +1183,15 @@ impl BlockFunSnapshot {
             }
         }
 
+        if a.is_empty() {
+            a.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        Self::remove_bad_sub_areas(&mut a);
+
         Ok(BlockFunSnapshot {
             areas: a,
-            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0) as usize,
+            cur_id: v["current_block_id_counter"].as_i64().unwrap_or(0).max(0) as usize,
         })
     }
 }
-- 
2.43.0


From 895010ac3eb9ffa3c533b4182d820589923ab3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:51 +0000
Subject: [PATCH 13/59] fix: clear tracker patterns and block functions
 together with the matrix

---
 src/dsp/tracker/pattern.rs |  5 +++++
 src/global.rs              | 19 +++++++++++++++++++
 src/matrix.rs              |  4 ++++
 src/wblockdsp/language.rs  |  7 +++++++
 4 files changed, 35 insertions(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4b13d4f..2ed4cc5 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -118,6 +118,11 @@ impl PatternData {
         self.generation += 1;
     }
 
+    /// Resets the pattern to the state of a newly created one.
+    pub fn reset(&mut self) {
+        self.from_repr(&PatternData::new(MAX_PATTERN_LEN).to_repr());
+    }
+
     pub fn get_out_data(&self) -> &[[(f32, u8); MAX_PATTERN_LEN]] {
         &self.out_data
     }
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..2cdcb46 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -125,6 +125,25 @@ impl NodeGlobalData {
         }
     }
 
+    /// Resets the contents of all patterns and block functions.
+    pub fn reset_patterns_and_block_functions(&mut self) {
+        for tracker in self.trackers.values() {
+            let data = tracker.data();
+            let mut data = data.lock().unwrap();
+            if !data.is_unset() {
+                data.reset();
+            }
+        }
+
+        #[cfg(feature = "synfx-dsp-jit")]
+        for (_, block_fun) in self.block_functions.values() {
+            let mut block_fun = block_fun.lock().unwrap();
+            if !block_fun.is_unset() {
+                block_fun.reset();
+            }
+        }
+    }
+
     /// Gives you direct access to the [CodeEngine] for `index` instance of
     /// the corresponding `Code` DSP node. You can also get the corresponding
     /// [BlockFun] via [NodeGlobalData::get_block_fun]. But in case of
diff --git a/src/matrix.rs b/src/matrix.rs
index 1d0d60c..bb5046f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -810,6 +810,10 @@ impl Matrix {
         self.saved_matrix = None;
         self.properties.clear();
 
+        if let Ok(mut node_global) = self.config.get_node_global().lock() {
+            node_global.reset_patterns_and_block_functions();
+        }
+
         self.config.delete_nodes();
         self.monitor_cell(Cell::empty(NodeId::Nop));
         let _ = self.sync();
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 6da848c..edf2f51 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1230,6 +1230,13 @@ impl BlockFun {
         self.generation == 0
     }
 
+    /// Removes all blocks and sub areas.
+    pub fn reset(&mut self) {
+        self.areas = vec![Box::new(BlockArea::new(16, 16))];
+        self.id_gen = BlockIDGenerator::new();
+        self.generation += 1;
+    }
+
     pub fn block_language(&self) -> Rc<RefCell<BlockLanguage>> {
         self.language.clone()
     }
-- 
2.43.0


From 5b3b396145a8670bb1e04573451ebd10950b9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:29 +0000
Subject: [PATCH 14/59] fix: don't abort if a node has more than 64 successors

---
 src/nodes/node_graph_ordering.rs | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/nodes/node_graph_ordering.rs b/src/nodes/node_graph_ordering.rs
index a247bd8..d0d701d 100644
--- a/src/nodes/node_graph_ordering.rs
+++ b/src/nodes/node_graph_ordering.rs
@@ -6,39 +6,28 @@ use crate::dsp::NodeId;
 use std::collections::HashMap;
 use std::collections::HashSet;
 
-pub const MAX_NODE_EDGES: usize = 64;
-pub const UNUSED_NODE_EDGE: usize = 999999;
-
-#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 struct Node {
     /// The [NodeId] of this node.
     node_id: NodeId,
     /// The output edges of this node.
-    edges: [usize; MAX_NODE_EDGES],
-    /// The first unused index in the `edges` array.
-    unused_idx: usize,
+    edges: Vec<usize>,
 }
 
 impl Node {
     pub fn new() -> Self {
-        Self { node_id: NodeId::Nop, edges: [UNUSED_NODE_EDGE; MAX_NODE_EDGES], unused_idx: 0 }
+        Self { node_id: NodeId::Nop, edges: Vec::new() }
     }
 
     pub fn clear(&mut self) {
         self.node_id = NodeId::Nop;
-        self.edges = [UNUSED_NODE_EDGE; MAX_NODE_EDGES];
-        self.unused_idx = 0;
+        self.edges.clear();
     }
 
     pub fn add_edge(&mut self, node_index: usize) {
-        for ni in self.edges.iter().take(self.unused_idx) {
-            if *ni == node_index {
-                return;
-            }
+        if !self.edges.contains(&node_index) {
+            self.edges.push(node_index);
         }
-
-        self.edges[self.unused_idx] = node_index;
-        self.unused_idx += 1;
     }
 }
 
@@ -122,7 +111,7 @@ impl NodeGraphOrdering {
             }
 
             if let Some(node) = self.get_node(node_id) {
-                for node_idx in node.edges.iter().take(node.unused_idx) {
+                for node_idx in node.edges.iter() {
                     node_stack.push(self.nodes[*node_idx].node_id);
                 }
             }
@@ -145,7 +134,7 @@ impl NodeGraphOrdering {
 
         // Calculate the number of inputs for each node:
         for node in self.nodes.iter().take(self.node_count) {
-            for out_node_idx in node.edges.iter().take(node.unused_idx) {
+            for out_node_idx in node.edges.iter() {
                 self.in_degree[*out_node_idx] += 1;
             }
         }
@@ -169,7 +158,7 @@ impl NodeGraphOrdering {
             out.push(node.node_id);
 
             // Push the nodes we output to, to the end of the dequeue:
-            for neigh_node_idx in node.edges.iter().take(node.unused_idx) {
+            for neigh_node_idx in node.edges.iter() {
                 // by reducing the input count of the to be visited node:
                 self.in_degree[*neigh_node_idx] -= 1;
 
-- 
2.43.0


From d4dda1b60e98048c5c14490f68ffdc75aa3f4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:29 +0000
Subject: [PATCH 15/59] fix: don't mix up nodes or abort if there are more than
 256 nodes

---
 src/nodes/node_conf.rs | 11 ++++++++---
 src/nodes/node_exec.rs |  2 +-
 src/nodes/node_prog.rs |  2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..d812d7a 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -74,7 +74,7 @@ impl NodeInstance {
 
     pub fn as_op(&self) -> NodeOp {
         NodeOp {
-            idx: self.prog_idx as u8,
+            idx: self.prog_idx,
             node: self.node.clone(),
             out_idxlen: (self.out_start, self.out_end),
             in_idxlen: (self.in_start, self.in_end),
@@ -291,6 +291,11 @@ impl SharedNodeConf {
             exec_node_ctx_vals.push(ctx_val.clone());
         }
 
+        // The last two values are shared by all nodes for which there is no space left
+        // in `node_ctx_values`. Nobody reads them:
+        exec_node_ctx_vals.push(Arc::new(AtomicFloat::new(0.0)));
+        exec_node_ctx_vals.push(Arc::new(AtomicFloat::new(0.0)));
+
         let sample_rate = Arc::new(AtomicFloat::new(44100.0));
 
         (
@@ -578,7 +583,7 @@ impl NodeConfigurator {
     /// or the phase of an oscillator.
     pub fn phase_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[(idx * 2) + 1].get()
+            self.shared.node_ctx_values.get((idx * 2) + 1).map(|v| v.get()).unwrap_or(0.0)
         } else {
             0.0
         }
@@ -591,7 +596,7 @@ impl NodeConfigurator {
     /// of the primary signal output.
     pub fn led_value_for(&self, ni: &NodeId) -> f32 {
         if let Some(idx) = self.unique_index_for(ni) {
-            self.shared.node_ctx_values[idx * 2].get()
+            self.shared.node_ctx_values.get(idx * 2).map(|v| v.get()).unwrap_or(0.0)
         } else {
             0.0
         }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2e5564e..2a0bc53 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -479,7 +479,7 @@ impl NodeExecutor {
             let inp = op.in_idxlen;
             let at = op.at_idxlen;
             let md = op.mod_idxlen;
-            let ctx_idx = op.idx as usize * 2;
+            let ctx_idx = (op.idx * 2).min(ctx_vals.len() - 2);
 
             for modop in prog.modops[md.0..md.1].iter_mut() {
                 modop.process(nframes);
diff --git a/src/nodes/node_prog.rs b/src/nodes/node_prog.rs
index 2759526..2399d76 100644
--- a/src/nodes/node_prog.rs
+++ b/src/nodes/node_prog.rs
@@ -70,7 +70,7 @@ impl ModOp {
 #[derive(Debug, Clone)]
 pub struct NodeOp {
     /// Stores the index of the node
-    pub idx: u8,
+    pub idx: usize,
     /// Stores the reference to the node.
     pub node: Node,
     /// Output index and length of the node:
-- 
2.43.0


From eaf2a2a03990e2d83ded529a3c163e102d71d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:40 +0000
Subject: [PATCH 16/59] fix: don't take over infinite numbers from a patch
 file, don't overflow in the quantizer

---
 src/dsp/node_quant.rs |  2 +-
 src/matrix_repr.rs    | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dsp/node_quant.rs b/src/dsp/node_quant.rs
index 7f48d6e..ffa192f 100644
--- a/src/dsp/node_quant.rs
+++ b/src/dsp/node_quant.rs
@@ -90,7 +90,7 @@ impl DspNode for Quant {
         self.quant.set_keys(keys.i());
 
         for frame in 0..ctx.nframes() {
-            let pitch = self.quant.process(freq.read(frame));
+            let pitch = self.quant.process(freq.read(frame).clamp(-1.0e6, 1.0e6));
 
             t.write(frame, self.change_trig.next(pitch));
             out.write(frame, pitch + denorm::Quant::oct(oct, frame));
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index fa96209..5f66b9e 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -233,6 +233,11 @@ impl From<std::io::Error> for MatrixDeserError {
     }
 }
 
+/// Returns `None` if the number can't be represented by a finite `f32`.
+fn deserialize_f32(v: &Value) -> Option<f32> {
+    v.as_f64().map(|v| v as f32).filter(|v| v.is_finite())
+}
+
 fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
     match v[0].as_str().unwrap_or("?") {
         "i" => {
@@ -243,8 +248,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             }
         }
         "p" => {
-            if let Some(v) = v[1].as_f64() {
-                Ok(SAtom::param(v as f32))
+            if let Some(v) = deserialize_f32(&v[1]) {
+                Ok(SAtom::param(v))
             } else {
                 Err(MatrixDeserError::InvalidAtom(v.to_string()))
             }
@@ -267,8 +272,8 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
             let mut buf: [f32; 8] = [0.0; 8];
 
             for i in 0..8 {
-                if let Some(v) = v[i + 1].as_f64() {
-                    buf[i] = v as f32;
+                if let Some(v) = deserialize_f32(&v[i + 1]) {
+                    buf[i] = v;
                 } else {
                     return Err(MatrixDeserError::InvalidAtom(v.to_string()));
                 }
-- 
2.43.0


From f463652ea6d2bf85312b89015453c0846d1a66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:52 +0000
Subject: [PATCH 17/59] fix: SMap settings have the same order in NodeInfo and
 NodeId lookups

The setting numbers of 'mode' and 'clip' were swapped relative to their
position in the table, so NodeInfo::at_name(i) and
NodeId::atom_param_by_idx(i) named different settings.
---
 src/dsp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..339bf37 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -1458,8 +1458,8 @@ macro_rules! node_list {
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
                (1 min   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, -1.0)
                (2 max   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, 1.0)
-               {3 1 mode setting(0) mode fa_smap_mode 0  3}
-               {4 0 clip setting(0) mode fa_smap_clip 0  1}
+               {3 0 mode setting(0) mode fa_smap_mode 0  3}
+               {4 1 clip setting(0) mode fa_smap_clip 0  1}
                [0 sig],
             map => Map UIType::Generic UICategory::Ctrl
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
-- 
2.43.0


From 1bc625995463a4af9802a0e9a1e70eb53b96e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:41 +0000
Subject: [PATCH 18/59] fix: changing the pattern length updates all tracker
 columns

Value columns are interpolated up to the last row, so every column has to be
sent again after the number of rows changed, not just the first one.
---
 src/dsp/tracker/pattern.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 2ed4cc5..dc686cc 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -133,6 +133,10 @@ impl PatternData {
         }
     }
 
+    pub(crate) fn mark_all_modified(&mut self) {
+        self.dirty_col = [true; MAX_COLS];
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -373,7 +377,9 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        // All columns need an update, because the interpolation of the
+        // value columns depends on the length of the pattern.
+        self.mark_all_modified();
         self.generation += 1;
     }
 
-- 
2.43.0


From ff89e0373f8560037cd599d0b6db7b7ad64a4710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:41 +0000
Subject: [PATCH 19/59] fix: tracker updates are not lost when the queue is
 full or the player is new

A modified column was marked as sent although the ring buffer had no room
for it, and a newly created backend was never told about the pattern.
---
 src/dsp/tracker/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..ce58740 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        // The modified columns are sent later, when there is room for them again.
+        if self.data_prod.is_full() {
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
@@ -117,6 +122,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend does not know anything about the pattern yet.
+            self.data.lock().unwrap().mark_all_modified();
         }
 
         let seq = self.seq.take().unwrap();
-- 
2.43.0


From a75923177243620f9876f144b224d1e24520a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 20/59] fix: injected MIDI events are delivered in the order
 they were injected

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 2a0bc53..1191ffc 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -349,7 +349,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From be02b927f46e503e73a972454cba41d864a0d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 21/59] fix: late MIDI events do not underflow in
 EventWindowing

---
 src/nodes/midi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..36ac11a 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,11 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                // Late events (from an unsorted event list) take effect at once.
+                return Some(HxTimedEvent {
+                    timing: event.timing.saturating_sub(to_time),
+                    kind: event.kind,
+                });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From 1181299af3fc50e34630d92129b6c79611203789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 22/59] fix: MidiP does not swallow notes that follow a note
 off directly

A note on in the sample after the note off did not restart the gate, and a
note off for an already released note ended the gate of a note that starts
in the same sample.
---
 src/dsp/node_midip.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index 6dbe1c3..cf0d965 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -127,9 +127,13 @@ impl DspNode for MidiP {
         for frame in 0..ctx.nframes() {
             let gate_len = denorm::MidiP::glen(glen, frame);
 
+            // The gate was still on in the previous frame, a new note needs to pause it.
+            let mut gate_was_on = false;
+
             if self.next_gate > 0 {
                 self.cur_gate = 1;
             } else if self.next_gate < 0 {
+                gate_was_on = self.cur_gate > 0;
                 self.cur_gate = 0;
             }
             self.next_gate = 0;
@@ -141,10 +145,11 @@ impl DspNode for MidiP {
                             continue;
                         }
 
-                        if self.cur_gate > 0 {
+                        if self.cur_gate > 0 || gate_was_on {
                             self.next_gate = 1;
                             self.cur_gate = 0;
                         } else {
+                            self.next_gate = 0;
                             self.cur_gate = 1;
                         }
                         self.trig_sig.trigger();
-- 
2.43.0


From 5527ae8ff5ebfd98e5e689152b7fe0e8a1d32a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 23/59] fix: MidiCC passes a CC to all outputs that select it

---
 src/dsp/node_midicc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..da612c1 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -120,10 +120,14 @@ impl DspNode for MidiCC {
                     if cc == midicc_cc1 {
                         self.cur_cc1 = value;
                         change = true;
-                    } else if cc == midicc_cc2 {
+                    }
+
+                    if cc == midicc_cc2 {
                         self.cur_cc2 = value;
                         change = true;
-                    } else if cc == midicc_cc3 {
+                    }
+
+                    if cc == midicc_cc3 {
                         self.cur_cc3 = value;
                         change = true;
                     }
-- 
2.43.0


From 416808b0c630b56c208af6f17ce6e4e6dfb45ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:46 +0000
Subject: [PATCH 24/59] fix: the slew time of MidiCC respects the sample rate

---
 src/dsp/node_midicc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index da612c1..c457f39 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,11 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From fe274d7e47dded3ad9b61842c05b616e32c2488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:38 +0000
Subject: [PATCH 25/59] fix: MidiP pauses the gate if several notes arrive at
 the same sample while the gate is on

---
 src/dsp/node_midip.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dsp/node_midip.rs b/src/dsp/node_midip.rs
index cf0d965..216053f 100644
--- a/src/dsp/node_midip.rs
+++ b/src/dsp/node_midip.rs
@@ -128,12 +128,11 @@ impl DspNode for MidiP {
             let gate_len = denorm::MidiP::glen(glen, frame);
 
             // The gate was still on in the previous frame, a new note needs to pause it.
-            let mut gate_was_on = false;
+            let gate_was_on = self.cur_gate > 0;
 
             if self.next_gate > 0 {
                 self.cur_gate = 1;
             } else if self.next_gate < 0 {
-                gate_was_on = self.cur_gate > 0;
                 self.cur_gate = 0;
             }
             self.next_gate = 0;
-- 
2.43.0


From 525b54c33022b2ff764015bbf18678dc2916bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:48 +0000
Subject: [PATCH 26/59] fix: the feedback delay is 3.14ms for every sample
 rate, layout and edit

The write and read positions wrapped around at the delay length, so there was no
delay at all if the FbWr was executed before the FbRd. Nodes that were added later
or were removed from the grid for a while were out of sync with their counterpart.
And the number of samples was always that of 44.1kHz.
---
 src/dsp/node_fbwr_fbrd.rs | 12 ++++++---
 src/global.rs             |  2 +-
 src/nodes/node_exec.rs    |  6 ++++-
 src/shared_feedback.rs    | 52 ++++++++++++++++++++++++++++++---------
 4 files changed, 55 insertions(+), 17 deletions(-)

diff --git a/src/dsp/node_fbwr_fbrd.rs b/src/dsp/node_fbwr_fbrd.rs
index 00733b7..4c9b80e 100644
--- a/src/dsp/node_fbwr_fbrd.rs
+++ b/src/dsp/node_fbwr_fbrd.rs
@@ -55,14 +55,16 @@ is running at.
 }
 
 impl DspNode for FbWr {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.fb_wr.set_sample_rate(srate);
+    }
     fn reset(&mut self) {}
 
     #[inline]
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -73,6 +75,8 @@ impl DspNode for FbWr {
 
         let inp = inp::FbWr::inp(inputs);
 
+        self.fb_wr.set_frame_pos(ectx.frame_pos);
+
         for frame in 0..ctx.nframes() {
             self.fb_wr.write(inp.read(frame));
         }
@@ -140,7 +144,7 @@ impl DspNode for FbRd {
     fn process(
         &mut self,
         ctx: &mut dyn NodeAudioContext,
-        _ectx: &mut NodeExecContext,
+        ectx: &mut NodeExecContext,
         _nctx: &NodeContext,
         _atoms: &[SAtom],
         inputs: &[ProcBuf],
@@ -152,6 +156,8 @@ impl DspNode for FbRd {
         let vol = inp::FbRd::vol(inputs);
         let sig = out::FbRd::sig(outputs);
 
+        self.fb_rd.set_frame_pos(ectx.frame_pos);
+
         let mut last_val = 0.0;
         for frame in 0..ctx.nframes() {
             last_val = self.fb_rd.read();
diff --git a/src/global.rs b/src/global.rs
index 2cdcb46..f56aa7a 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -72,7 +72,7 @@ impl NodeGlobalData {
 
     pub fn get_shared_feedback(&mut self, instance: usize) -> &mut SharedFeedback {
         if !self.feedback.contains_key(&instance) {
-            // FIXME: Sample rate needs to be determined properly!
+            // The writer gets to know the actual sample rate by `set_sample_rate`.
             let new_shared_feedback = SharedFeedback::new(44100.0);
             self.feedback.insert(instance, new_shared_feedback);
         }
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 1191ffc..9a3f13b 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -160,13 +160,15 @@ pub struct NodeExecContext {
     /// Handle to the external parameters, external meaning parameters that come in via eg. the
     /// plugin API or are provided elsewhere on the audio thread.
     pub ext_param: Option<Arc<dyn ExternalParams>>,
+    /// The position of the first frame of the current buffer period in time.
+    pub frame_pos: usize,
 }
 
 impl NodeExecContext {
     fn new() -> Self {
         let midi_notes = Vec::with_capacity(MAX_MIDI_NOTES_PER_BLOCK);
         let midi_ccs = Vec::with_capacity(MAX_MIDI_CC_PER_BLOCK);
-        Self { midi_notes, midi_ccs, ext_param: None }
+        Self { midi_notes, midi_ccs, ext_param: None, frame_pos: 0 }
     }
 
     fn set_sample_rate(&mut self, _srate: f32) {}
@@ -507,6 +509,8 @@ impl NodeExecutor {
 
         prog.out_feedback.publish();
 
+        exec_ctx.frame_pos = exec_ctx.frame_pos.wrapping_add(nframes);
+
         self.shared.monitor_backend.check_recycle();
 
         // let ta = std::time::Instant::now();
diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..b22574f 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -13,6 +13,9 @@ use synfx_dsp::AtomicFloat;
 
 pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 
+/// The highest sample rate that [SharedFeedback] can provide [FB_DELAY_LENGTH_MS] for.
+pub const FB_MAX_SAMPLE_RATE: f32 = 384000.0;
+
 /// The SharedFeedback is a feedback delay buffer for the `FbWr` and `FbRd` nodes.
 ///
 /// They have a fixed delay of 3.14ms, which should be equal for all sample rates above 42kHz.
@@ -28,18 +31,24 @@ pub struct SharedFeedback {
 impl SharedFeedback {
     pub fn new(sample_rate: f32) -> Self {
         let mut buf = vec![];
-        let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
-
-        // Ensure we got at least MAX_BLOCK_SIZE though!
-        let delay_sample_count = delay_sample_count.max(MAX_BLOCK_SIZE);
+        let delay_sample_count = Self::calc_delay_sample_count(sample_rate);
 
-        // Multiply by 3, to make ample space for the FB_DELAY_LENGTH_MS,
-        // probably 2*delay_sample_count would be fine too,
-        // but I'm anxious about off by one bugs :-)
-        buf.resize_with(3 * delay_sample_count, || AtomicFloat::new(0.0));
+        // Make space for every sample rate up to FB_MAX_SAMPLE_RATE, because the
+        // sample rate might change later. The writer is always delay_sample_count samples
+        // ahead of the reader, plus the block they might be apart.
+        let max_delay_sample_count =
+            delay_sample_count.max(Self::calc_delay_sample_count(FB_MAX_SAMPLE_RATE));
+        buf.resize_with(2 * max_delay_sample_count, || AtomicFloat::new(0.0));
 
         Self { buffer: Arc::new(buf), delay_sample_count }
     }
+
+    fn calc_delay_sample_count(sample_rate: f32) -> usize {
+        let delay_sample_count = ((sample_rate * FB_DELAY_LENGTH_MS) / 1000.0) as usize;
+
+        // Ensure we got at least MAX_BLOCK_SIZE though!
+        delay_sample_count.max(MAX_BLOCK_SIZE)
+    }
 }
 
 /// This instance writes into the [SharedFeedback] buffer.
@@ -65,6 +74,18 @@ impl SharedFeedbackWriter {
         }
     }
 
+    /// Sets the sample rate, which determines the number of samples of the delay.
+    pub fn set_sample_rate(&mut self, sample_rate: f32) {
+        self.delay_sample_count =
+            SharedFeedback::calc_delay_sample_count(sample_rate).min(self.buffer.len() / 2);
+    }
+
+    /// Sets the position of the next sample in time. The reader and the writer must use the
+    /// same time base, see also [crate::nodes::NodeExecContext].
+    pub fn set_frame_pos(&mut self, frame_pos: usize) {
+        self.write_ptr = (frame_pos + self.delay_sample_count) % self.buffer.len();
+    }
+
     /// Write the next sample in to the feedback buffer.
     ///
     /// Even though it's safe to have multiple writers of this will not work
@@ -73,7 +94,7 @@ impl SharedFeedbackWriter {
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
         self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;
+        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
     }
 }
 
@@ -88,12 +109,17 @@ impl SharedFeedbackWriter {
 pub struct SharedFeedbackReader {
     buffer: Arc<Vec<AtomicFloat>>,
     read_ptr: usize,
-    delay_sample_count: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }
+        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
+    }
+
+    /// Sets the position of the next sample in time.
+    /// See also [SharedFeedbackWriter::set_frame_pos].
+    pub fn set_frame_pos(&mut self, frame_pos: usize) {
+        self.read_ptr = frame_pos % self.buffer.len();
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
@@ -101,7 +127,9 @@ impl SharedFeedbackReader {
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
         let ret = self.buffer[self.read_ptr].get();
-        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;
+        // Don't repeat it in case the writer is gone:
+        self.buffer[self.read_ptr].set(0.0);
+        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
         ret
     }
 }
-- 
2.43.0


From 389c7da29c435d5af2cbca6b825cdf9104e148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:01 +0000
Subject: [PATCH 27/59] fix: nodes outside the current program get to know a
 new sample rate too

---
 src/dsp/mod.rs         | 19 ++++++++++++++++---
 src/nodes/node_exec.rs |  6 ++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 339bf37..c8ef9ab 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2701,7 +2701,7 @@ node_list! {make_node_info_enum}
 /// 4. Upon update of the [crate::nodes::NodeProg] on the DSP thread it is disposed
 /// by being sent to the drop thread.
 #[derive(Clone)]
-pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId);
+pub struct Node(pub Arc<SyncUnsafeCell<dyn DspNode>>, NodeId, Arc<AtomicFloat>);
 
 impl Node {
     pub fn id(&self) -> NodeId {
@@ -2710,11 +2710,20 @@ impl Node {
 
     #[inline]
     pub fn set_sample_rate(&self, srate: f32) {
+        self.2.set(srate);
         unsafe {
             (*self.0.get()).set_sample_rate(srate);
         }
     }
 
+    /// Like [Node::set_sample_rate], but only if the node operates at a different sample rate.
+    #[inline]
+    pub fn update_sample_rate(&self, srate: f32) {
+        if self.2.get() != srate {
+            self.set_sample_rate(srate);
+        }
+    }
+
     #[inline]
     pub fn reset(&self) {
         unsafe {
@@ -2748,7 +2757,7 @@ pub struct NopNode();
 
 impl NopNode {
     pub fn new_node() -> Node {
-        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop)
+        Node(Arc::new(SyncUnsafeCell::new(Self {})), NodeId::Nop, Arc::new(AtomicFloat::new(0.0)))
     }
 }
 
@@ -2785,7 +2794,11 @@ pub fn node_factory(node_id: NodeId, node_global: &NodeGlobalRef) -> Option<(Nod
         ) => {
             match node_id {
                 $(NodeId::$variant(_) => Some((
-                    Node(Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))), node_id),
+                    Node(
+                        Arc::new(SyncUnsafeCell::new($variant::new(&node_id, node_global))),
+                        node_id,
+                        Arc::new(AtomicFloat::new(0.0)),
+                    ),
                     NodeInfo::from_node_id(node_id),
                 )),)+
                 _ => None,
diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 9a3f13b..7a5c6d2 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -293,6 +293,12 @@ impl NodeExecutor {
 
                     self.prog.assign_outputs();
 
+                    // The sample rate might have changed while the node was created
+                    // or while it was not part of the program.
+                    for op in self.prog.prog.iter() {
+                        op.node.update_sample_rate(self.sample_rate);
+                    }
+
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });
 
                     log(|w| {
-- 
2.43.0


From f58b6fcb4e3186d0d51254975f4c4ecb87efa670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:55 +0000
Subject: [PATCH 28/59] fix: stop monitoring the previous node when nothing is
 monitored

---
 src/nodes/node_conf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index d812d7a..b8d9a14 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -703,9 +703,10 @@ impl NodeConfigurator {
 
                 i += 1;
             }
-
-            let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
         }
+
+        // Also stop monitoring the previous node in case this one does not exist.
+        let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
     }
 
     pub fn get_node_global(&self) -> NodeGlobalRef {
-- 
2.43.0


From 019ac83fe87312009f6fbdea0f1463dbfb5e5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:55 +0000
Subject: [PATCH 29/59] fix: the first scope window shows only samples of the
 signal

---
 src/dsp/node_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_scope.rs b/src/dsp/node_scope.rs
index ef4b738..a4bfc38 100644
--- a/src/dsp/node_scope.rs
+++ b/src/dsp/node_scope.rs
@@ -54,7 +54,7 @@ impl Scope {
             idx: 0,
             srate_ms: 44.1,
             frame_time: 0.0,
-            cur_mm: Box::new([(0.0, 0.0); 3]),
+            cur_mm: Box::new([(-99999.0, 99999.0); 3]),
             trig: CustomTrigger::new(0.0, 0.0001),
         }
     }
-- 
2.43.0


From 4e1f58cfd6f5933b6f1d4f0958ee970184ff832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:35 +0000
Subject: [PATCH 30/59] fix: a one-shot sample ends with its last sample,
 declick does not abort at the end

---
 src/dsp/node_sampl.rs | 48 ++++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..9c096d2 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -212,8 +212,6 @@ impl Sampl {
                 let freq = denorm_offs::Sampl::freq(freq, det.read(frame), frame);
                 let playback_speed = freq / 440.0;
 
-                let prev_phase = self.phase;
-
                 let sd_len = sample_data.len();
 
                 let cur_offs = denorm::Sampl::offs(offs, frame).abs().min(0.999999) as f64;
@@ -239,36 +237,34 @@ impl Sampl {
 
                 let sample_slice = &sample_data[start_idx..(start_idx + end_idx_plus1)];
 
-                // next_sample mutates self.phase, so we need the current phase
-                // that is used for looking up the sample from the audio data.
-                let sample_idx = self.phase.floor() as usize;
-
-                let mut s =
-                    self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
+                if !do_loop && self.phase >= sample_slice.len() as f64 {
+                    // played past end => stop playing.
+                    is_playing = false;
+                    0.0
+                } else {
+                    // next_sample mutates self.phase, so we need the current phase
+                    // that is used for looking up the sample from the audio data.
+                    let sample_idx = self.phase.floor() as usize % sample_slice.len().max(1);
 
-                if declick {
-                    let samples_to_end = sample_slice.len() - sample_idx;
+                    let mut s =
+                        self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
 
-                    let ramp_atten_factor = if sample_idx < ramp_sample_count {
-                        sample_idx as f64 * ramp_inc
-                    } else if samples_to_end < ramp_sample_count {
-                        samples_to_end as f64 * ramp_inc
-                    } else {
-                        1.0
-                    };
+                    if declick {
+                        let samples_to_end = sample_slice.len() - sample_idx;
 
-                    s *= ramp_atten_factor as f32;
-                }
+                        let ramp_atten_factor = if sample_idx < ramp_sample_count {
+                            sample_idx as f64 * ramp_inc
+                        } else if samples_to_end < ramp_sample_count {
+                            samples_to_end as f64 * ramp_inc
+                        } else {
+                            1.0
+                        };
 
-                self.last_sample = s;
-                out.write(frame, s);
+                        s *= ramp_atten_factor as f32;
+                    }
 
-                if !do_loop && prev_phase > self.phase {
-                    // played past end => stop playing.
-                    is_playing = false;
+                    s
                 }
-
-                s
             } else {
                 0.0
             };
-- 
2.43.0


From 9886cc4b8f02aafa2b1010f03d4c17e5839f8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:35 +0000
Subject: [PATCH 31/59] fix: load 8, 24 and 32 bit WAV files with their level

---
 src/sample_lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sample_lib.rs b/src/sample_lib.rs
index 92c10e1..925d488 100644
--- a/src/sample_lib.rs
+++ b/src/sample_lib.rs
@@ -62,9 +62,11 @@ impl SampleLibrary {
             }
             // http://blog.bjornroche.com/2009/12/int-float-int-its-jungle-out-there.html
             hound::SampleFormat::Int => {
-                for s in rd.samples::<i16>().step_by(channels).take(max_sample_count) {
+                let full_scale = 2.0_f32.powi(rd.spec().bits_per_sample as i32 - 1);
+
+                for s in rd.samples::<i32>().step_by(channels).take(max_sample_count) {
                     let s = s?;
-                    let s = s as f32 / (0x8000 as f32);
+                    let s = s as f32 / full_scale;
                     v.push(s);
                 }
             }
-- 
2.43.0


From e41e21acd93068c3a1854859aee7395c870aa73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 32/59] fix: the triangle of BOsc stays finite at very high
 frequencies

---
 src/dsp/node_bosc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dsp/node_bosc.rs b/src/dsp/node_bosc.rs
index 979a4e2..dcc6763 100644
--- a/src/dsp/node_bosc.rs
+++ b/src/dsp/node_bosc.rs
@@ -154,6 +154,9 @@ impl DspNode for BOsc {
                 // tri
                 for frame in 0..ctx.nframes() {
                     let freq = denorm_offs::BOsc::freq(freq, det.read(frame), frame);
+                    // The leaky integrator of the triangle runs away with frequencies
+                    // above the sample rate.
+                    let freq = freq.min(1.0 / israte);
                     out.write(frame, self.osc.next_tri(freq, israte));
                 }
             }
-- 
2.43.0


From fe96e26d89f3f6e5e5bc8258d7083ee3642d4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 33/59] fix: limit the waves in the bowed string, very short
 strings blew up

---
 src/dsp/node_bowstri.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_bowstri.rs b/src/dsp/node_bowstri.rs
index 6c12895..32f1c96 100644
--- a/src/dsp/node_bowstri.rs
+++ b/src/dsp/node_bowstri.rs
@@ -87,8 +87,9 @@ impl BowedString {
         let phat = ((dv + 0.001) * bow_force + 0.75).abs().powf(-4.0).clamp(0.01, 0.98);
         let phat = phat * dv;
 
-        self.bow_to_bridge.feed(nut + phat);
-        self.nut_to_bow.feed(bridge + phat);
+        // Very short strings become unstable, limit the waves, so they don't run away to infinity.
+        self.bow_to_bridge.feed((nut + phat).clamp(-10.0, 10.0));
+        self.nut_to_bow.feed((bridge + phat).clamp(-10.0, 10.0));
 
         let mut output = bridge;
         for f in self.body_filters.iter_mut() {
-- 
2.43.0


From 8fea66547c3b8a20cbcfbaeb63acc936bd8d84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 34/59] fix: limit the modulation depth of the reverb to the
 length of its shortest delay

---
 src/dsp/node_pverb.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_pverb.rs b/src/dsp/node_pverb.rs
index 1941a37..f21001e 100644
--- a/src/dsp/node_pverb.rs
+++ b/src/dsp/node_pverb.rs
@@ -57,7 +57,10 @@ impl DattorroReverbParams for DatParams {
         denorm::PVerb::mspeed(&self.mspeed, self.frame) as f64
     }
     fn mod_depth(&self) -> f64 {
-        denorm::PVerb::mdepth(&self.mdepth, self.frame) as f64
+        // The excursion of the LFO (256 samples at most) must not exceed the delay time of
+        // the shortest diffusor (672 samples), which is scaled by the size of the room.
+        let depth = denorm::PVerb::mdepth(&self.mdepth, self.frame) as f64;
+        depth.min(2.5 * self.time_scale().max(0.1))
     }
     fn mod_shape(&self) -> f64 {
         denorm::PVerb::mshp(&self.mshp, self.frame) as f64
-- 
2.43.0


From 57d1b79780dfc22021203ca8bb5ce6e620a43599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:52 +0000
Subject: [PATCH 35/59] fix: shifting a port below the last row of a block does
 not panic

---
 src/wblockdsp/language.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index edf2f51..193c139 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -115,7 +115,7 @@ impl Block {
     /// down, wrapping around at the end. If `output` is true, the
     /// output port at `idx` is shifted.
     pub fn shift_port(&mut self, idx: usize, output: bool) {
-        if self.rows <= 1 {
+        if self.rows <= 1 || idx >= self.rows {
             return;
         }
 
-- 
2.43.0


From 480b3872634a8cd73267a6a98d2110d69e5f97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:52 +0000
Subject: [PATCH 36/59] fix: moving a block to an unknown area does not lose
 the block

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 193c139..48ba2ab 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1733,6 +1733,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From 63e247b5013fc7ea583b3f53d9c54f191afc3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:52 +0000
Subject: [PATCH 37/59] fix: a block can't be cloned into the area that is
 created for the clone

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 48ba2ab..5b2f13b 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1578,6 +1578,10 @@ impl BlockFun {
         x2: i64,
         mut y2: i64,
     ) -> Result<(), BlockDSPError> {
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let lang = self.language.clone();
 
         let (mut block, _xo, yo) = if let Some(area) = self.areas.get_mut(id) {
-- 
2.43.0


From 6c75424d4826df04ddd4e9f314dd8877abad062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:52 +0000
Subject: [PATCH 38/59] fix: looking for space does not push a block chain out
 of its area

---
 src/wblockdsp/language.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 5b2f13b..b6e5217 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -496,6 +496,9 @@ impl BlockChain {
     }
 
     pub fn try_fit_load_into_space(&mut self, area: &mut BlockArea) -> bool {
+        let min_x = self.load.iter().map(|(_, x, _)| *x).min().unwrap_or(0);
+        let min_y = self.load.iter().map(|(_, _, y)| *y).min().unwrap_or(0);
+
         for (xo, yo) in &[
             (0, 0), // where it currently is
             (0, -1),
@@ -519,6 +522,11 @@ impl BlockChain {
             (1, 2),
             (1, 3),
         ] {
+            // Don't push the chain out of the area just to find some space:
+            if (min_x >= 0 && min_x + *xo < 0) || (min_y >= 0 && min_y + *yo < 0) {
+                continue;
+            }
+
             println!("TRY {},{}", *xo, *yo);
             if self.area_has_space_for_load(area, *xo, *yo) {
                 self.move_by_offs(*xo, *yo);
-- 
2.43.0


From 34140901709c784dabff94bf97658d39e8575f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:54 +0000
Subject: [PATCH 39/59] fix: splitting a block chain does not place overlapping
 filler blocks

---
 src/wblockdsp/language.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index b6e5217..09965c7 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -545,10 +545,19 @@ impl BlockChain {
         xoffs: i64,
         yoffs: i64,
     ) -> bool {
+        let mut taken: HashSet<(i64, i64)> = HashSet::new();
+
         for (block, x, y) in self.load.iter() {
             if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {
                 return false;
             }
+
+            // The blocks of the load must not overlap each other either:
+            for row in 0..block.rows {
+                if !taken.insert((*x, *y + (row as i64))) {
+                    return false;
+                }
+            }
         }
 
         true
-- 
2.43.0


From afc1d0b23ad938d43078e396f690f1f7241c0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:58 +0000
Subject: [PATCH 40/59] =?UTF-8?q?fix:=20the=20blocks=20=CF=80=20and=202?=
 =?UTF-8?q?=CF=80=20can=20be=20compiled?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/wblockdsp/compiler.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index e431724..0cc6357 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -414,6 +414,8 @@ impl Block2JITCompiler {
             BlkASTNode::Node { id, typ, childs, .. } => match &typ[..] {
                 "if" => Err(BlkJITCompileError::UnknownError),
                 "zero" => Ok(literal(0.0)),
+                "π" => Ok(literal(std::f64::consts::PI)),
+                "2π" => Ok(literal(std::f64::consts::TAU)),
                 _ => {
                     if *id == 0 {
                         return Err(BlkJITCompileError::NodeWithoutID(typ.to_string()));
-- 
2.43.0


From e1abe0d463b878c20ceb56ba06129ccd04d350dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:58 +0000
Subject: [PATCH 41/59] fix: block inputs with exchanged ports don't read
 values that are not computed yet

---
 src/wblockdsp/compiler.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index 0cc6357..f001b93 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -313,8 +313,21 @@ impl Block2JITCompiler {
             optype => {
                 let mut childs = vec![];
 
-                let mut i = 0;
-                while let Some((inp, out, child)) = node.nth_child(i) {
+                // Reorder the childs/arguments according to the input
+                // order in the BlockLanguage. The arguments are evaluated in that
+                // order, and temporary variables need to be set by the
+                // first argument that is evaluated.
+                let mut nodes = node.0.borrow().nodes.clone();
+                if let Some(inputs) = self.lang.borrow().get_type_inputs(optype) {
+                    nodes.sort_by_key(|(inp, _, _)| {
+                        inputs
+                            .iter()
+                            .position(|name| name.as_deref() == Some(&inp[..]))
+                            .unwrap_or(inputs.len())
+                    });
+                }
+
+                for (inp, out, child) in nodes {
                     let out = if out.len() > 0 { Some(out) } else { None };
 
                     let child = self.trans2bjit(&child, out)?;
@@ -323,12 +336,8 @@ impl Block2JITCompiler {
                     } else {
                         childs.push((None, child));
                     }
-                    i += 1;
                 }
 
-                // TODO: Reorder the childs/arguments according to the input
-                //       order in the BlockLanguage
-
                 let cnt = self.lang.borrow().type_output_count(optype);
                 if cnt > 1 {
                     let mut area = vec![];
-- 
2.43.0


From 1ad23e1d96886005451007c77d6f67dc65aef16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 42/59] fix: a Code node that is created after its block
 program was compiled gets the program

---
 src/global.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/global.rs b/src/global.rs
index f56aa7a..4d94fbf 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -183,6 +183,12 @@ impl NodeGlobalData {
     /// to the previously returned [CodeEngineBackend].
     #[cfg(feature = "synfx-dsp-jit")]
     pub fn get_code_engine_backend(&mut self, index: usize) -> CodeEngineBackend {
+        // The new backend does not know the program yet, so that the next check_code() has to
+        // send it again:
+        if let Some((generation, _)) = self.block_functions.get_mut(&index) {
+            *generation = 0;
+        }
+
         self.get_code_engine(index).get_backend()
     }
 
-- 
2.43.0


From 1ca0c73ae50e24d2a85491eda6352ba6e333a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 43/59] fix: loading another block program does not reuse the
 DSP state of the previous program

---
 src/wblockdsp/compiler.rs | 18 +++++++++++-------
 src/wblockdsp/language.rs | 11 +++++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/wblockdsp/compiler.rs b/src/wblockdsp/compiler.rs
index f001b93..bcf7813 100644
--- a/src/wblockdsp/compiler.rs
+++ b/src/wblockdsp/compiler.rs
@@ -404,19 +404,23 @@ impl Block2JITCompiler {
     }
 
     #[cfg(feature = "synfx-dsp-jit")]
-    fn bjit2jit(&mut self, ast: &BlkASTRef) -> Result<Box<ASTNode>, BlkJITCompileError> {
+    fn bjit2jit(
+        &mut self,
+        block_fun: &BlockFun,
+        ast: &BlkASTRef,
+    ) -> Result<Box<ASTNode>, BlkJITCompileError> {
         use synfx_dsp_jit::build::*;
 
         match &**ast {
             BlkASTNode::Area { childs } => {
                 let mut stmt = vec![];
                 for c in childs.iter() {
-                    stmt.push(self.bjit2jit(&c)?);
+                    stmt.push(self.bjit2jit(block_fun, &c)?);
                 }
                 Ok(stmts(&stmt[..]))
             }
             BlkASTNode::Set { var, expr } => {
-                let e = self.bjit2jit(&expr)?;
+                let e = self.bjit2jit(block_fun, &expr)?;
                 Ok(assign(var, e))
             }
             BlkASTNode::Get { var: varname, .. } => Ok(var(varname)),
@@ -450,7 +454,7 @@ impl Block2JITCompiler {
 
                             // We assume all inputs are unnamed:
                             for (_inp, c) in childs.iter() {
-                                args.push(self.bjit2jit(&c)?);
+                                args.push(self.bjit2jit(block_fun, &c)?);
                             }
                         } else {
                             // We assume all inputs are named:
@@ -459,7 +463,7 @@ impl Block2JITCompiler {
                                 for (inp, c) in childs.iter() {
                                     println!("FOFOFO '{:?}' = '{:?}'", inp, input_name);
                                     if inp == input_name {
-                                        args.push(self.bjit2jit(&c)?);
+                                        args.push(self.bjit2jit(block_fun, &c)?);
                                         found = true;
                                         break;
                                     }
@@ -499,7 +503,7 @@ impl Block2JITCompiler {
                                 _ => Err(BlkJITCompileError::UnknownType(typ.to_string())),
                             }
                         }
-                        _ => Ok(call(typ, *id as u64, &args[..])),
+                        _ => Ok(call(typ, block_fun.state_uid(*id), &args[..])),
                     }
                 }
             },
@@ -516,7 +520,7 @@ impl Block2JITCompiler {
             let blkast = self.trans2bjit(&tree, None)?;
             println!("R: {}", blkast.dump(0, None));
 
-            self.bjit2jit(&blkast)
+            self.bjit2jit(fun, &blkast)
         }
         #[cfg(not(feature = "synfx-dsp-jit"))]
         {
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 09965c7..2054d81 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1221,6 +1221,8 @@ pub struct BlockFun {
     area_work_dq: VecDeque<usize>,
     id_gen: BlockIDGenerator,
     generation: u64,
+    /// Counts how often the whole program was replaced. The block IDs start over then.
+    epoch: u64,
 }
 
 #[derive(Debug)]
@@ -1240,9 +1242,16 @@ impl BlockFun {
             area_work_dq: VecDeque::new(),
             id_gen: BlockIDGenerator::new(),
             generation: 0,
+            epoch: 0,
         }
     }
 
+    /// Returns an identifier for the DSP state of the block `id`. In contrast to the block ID
+    /// it is not used again after [BlockFun::reset] or [BlockFun::load_snapshot].
+    pub fn state_uid(&self, id: usize) -> u64 {
+        (self.epoch << 32) | (id as u64 & 0xFFFF_FFFF)
+    }
+
     pub fn is_unset(&self) -> bool {
         self.generation == 0
     }
@@ -1252,6 +1261,7 @@ impl BlockFun {
         self.areas = vec![Box::new(BlockArea::new(16, 16))];
         self.id_gen = BlockIDGenerator::new();
         self.generation += 1;
+        self.epoch += 1;
     }
 
     pub fn block_language(&self) -> Rc<RefCell<BlockLanguage>> {
@@ -1287,6 +1297,7 @@ impl BlockFun {
         self.id_gen = BlockIDGenerator::new_with_id(repr.cur_id);
         self.recalculate_area_sizes();
         self.generation += 1;
+        self.epoch += 1;
     }
 
     pub fn generate_tree<Node: BlockASTNode>(&self, null_typ: &str) -> Result<Node, BlockDSPError> {
-- 
2.43.0


From fc34452e87004a90132aa7b44cf234c92be016cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:30 +0000
Subject: [PATCH 44/59] fix: the program of a new Code node starts with fresh
 DSP state

---
 src/global.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/global.rs b/src/global.rs
index 4d94fbf..f586b6a 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -226,6 +226,7 @@ impl NodeGlobalData {
             if let Some((generation, block_fun)) = self.block_functions.get_mut(&id) {
                 if let Ok(block_fun) = block_fun.lock() {
                     if *generation != block_fun.generation() {
+                        let new_backend = *generation == 0;
                         *generation = block_fun.generation();
                         let mut compiler = Block2JITCompiler::new(block_fun.block_language());
                         let ast = compiler.compile(&block_fun)?;
@@ -235,6 +236,11 @@ impl NodeGlobalData {
                                 Err(e) => return Err(BlkJITCompileError::JITCompileError(e)),
                                 Ok(()) => (),
                             }
+
+                            // A new backend starts with fresh DSP state:
+                            if new_backend {
+                                cod.reset();
+                            }
                         }
                     }
                 }
-- 
2.43.0


From f7a187f33e4b5c4acaf1acadae7b102e697a4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:10 +0000
Subject: [PATCH 45/59] fix: every change of a modulation amount is reported to
 the observer and counted

---
 src/matrix.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index bb5046f..f6dcd5d 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1075,9 +1075,18 @@ impl Matrix {
             // XXX: sync implicitly increases gen_counter!
             let ret = self.sync();
             self.observer = obs;
+
+            if ret.is_err() {
+                // The modulation amount did change anyways:
+                self.gen_counter += 1;
+            }
+
             ret
         } else {
             self.gen_counter += 1;
+            if let Some(obs) = &self.observer {
+                obs.update_param(&param);
+            }
             Ok(())
         }
     }
-- 
2.43.0


From f93cedbc0d324be84a81b4af74e7e77024d99595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:23 +0000
Subject: [PATCH 46/59] fix: monitoring the inputs of a node that is not part
 of the program does not crash

---
 src/nodes/node_exec.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 7a5c6d2..82bc817 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -526,12 +526,15 @@ impl NodeExecutor {
                 continue;
             }
 
+            // The node might not be part of the current program.
+            let buf = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };
+            let buf = match buf {
+                Some(buf) if !buf.is_null() => buf,
+                _ => continue,
+            };
+
             if let Some(mut mon) = self.shared.monitor_backend.get_unused_mon_buf() {
-                if i > 2 {
-                    mon.feed(i, ctx.nframes(), &prog.out[*idx]);
-                } else {
-                    mon.feed(i, ctx.nframes(), &prog.cur_inp[*idx]);
-                }
+                mon.feed(i, ctx.nframes(), buf);
 
                 self.shared.monitor_backend.send_mon_buf(mon);
             }
-- 
2.43.0


From 85a1903864c74d4ad6e2a47b7ddb4d8e7914f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:51 +0000
Subject: [PATCH 47/59] fix: a placed chain gets instances of its own and its
 parameters go to them

---
 src/chain_builder.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..82e74c0 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -23,7 +23,7 @@ The [crate::MatrixCellChain] abstractions allows very easy placement of DSP sign
 */
 
 use crate::{Cell, CellDir, Matrix, NodeId, ParamId, SAtom};
-use std::collections::HashMap;
+use std::collections::HashSet;
 
 #[derive(Debug, Clone)]
 struct MatrixChainLink {
@@ -247,7 +247,8 @@ impl MatrixCellChain {
             return Err(err);
         }
 
-        let mut last_unused = HashMap::new();
+        let mut used: HashSet<NodeId> = HashSet::new();
+        let mut node_ids = vec![];
 
         let mut pos = (at_x, at_y);
 
@@ -256,17 +257,15 @@ impl MatrixCellChain {
 
             let mut cell = link.cell;
 
-            let node_id = cell.node_id();
-            let node_name = node_id.name();
-
-            let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
-            } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
-            };
+            // Find an instance that is neither used in the matrix nor
+            // by one of the previous links of this chain:
+            let mut node_id = matrix.get_unused_instance_node_id(cell.node_id());
+            while used.contains(&node_id) {
+                node_id = matrix
+                    .get_unused_instance_node_id(node_id.to_instance(node_id.instance() + 1));
+            }
+            used.insert(node_id);
+            node_ids.push(node_id);
 
             cell.set_node_id_keep_ios(node_id);
 
@@ -277,9 +276,12 @@ impl MatrixCellChain {
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
+        for (link, node_id) in self.chain.iter().zip(node_ids.iter()) {
             for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
+                // The parameter belongs to the instance that was assigned to the link:
+                if let Some(pid) = node_id.inp_param(pid.name()) {
+                    matrix.set_param(pid, at.clone());
+                }
             }
         }
 
-- 
2.43.0


From 69532c7441ede7cd96a518febb9ab96b835b3ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:51 +0000
Subject: [PATCH 48/59] fix: setting parameters on a chain with an unknown node
 reports the error instead of panicking

---
 src/chain_builder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 82e74c0..bd76627 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -109,6 +109,10 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_denorm(&mut self, param: &str, denorm: f32) -> &mut Self {
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -126,6 +130,10 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_norm(&mut self, param: &str, norm: f32) -> &mut Self {
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
@@ -143,6 +151,10 @@ impl MatrixCellChain {
     /// Alternatively you can use [MatrixCellChain::params_for_idx] to set the current
     /// parameter cell.
     pub fn set_atom(&mut self, param: &str, at: SAtom) -> &mut Self {
+        if self.error.is_some() {
+            return self;
+        }
+
         let link = self.chain.get_mut(self.param_idx).expect("Correct parameter idx");
 
         if let Some(pid) = link.cell.node_id().inp_param(param) {
-- 
2.43.0


From e131cf53967a8f791901d1d16039372bca25333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:46 +0000
Subject: [PATCH 49/59] fix: parameters of chain links outside of the matrix
 are not left behind for other nodes

---
 src/chain_builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index bd76627..76ba01e 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -277,7 +277,9 @@ impl MatrixCellChain {
                     .get_unused_instance_node_id(node_id.to_instance(node_id.instance() + 1));
             }
             used.insert(node_id);
-            node_ids.push(node_id);
+
+            // Links outside of the matrix are not placed, so nothing must be set for them:
+            node_ids.push(if matrix.get(x, y).is_some() { Some(node_id) } else { None });
 
             cell.set_node_id_keep_ios(node_id);
 
@@ -291,7 +293,7 @@ impl MatrixCellChain {
         for (link, node_id) in self.chain.iter().zip(node_ids.iter()) {
             for (pid, at) in link.params.iter() {
                 // The parameter belongs to the instance that was assigned to the link:
-                if let Some(pid) = node_id.inp_param(pid.name()) {
+                if let Some(pid) = node_id.and_then(|node_id| node_id.inp_param(pid.name())) {
                     matrix.set_param(pid, at.clone());
                 }
             }
-- 
2.43.0


From 15bd1d3171407f043a3cabe9ee7dca80705b38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:46 +0000
Subject: [PATCH 50/59] fix: update_params takes new connections and refused
 graphs change nothing in SynthConstructor

---
 src/synth_constructor.rs | 149 ++++++++++++++++++++++++---------------
 1 file changed, 92 insertions(+), 57 deletions(-)

diff --git a/src/synth_constructor.rs b/src/synth_constructor.rs
index f2770a2..d76c07d 100644
--- a/src/synth_constructor.rs
+++ b/src/synth_constructor.rs
@@ -39,7 +39,9 @@ See also [SynthConstructor::new] and [crate::build].
 use crate::build::*;
 use crate::nodes::{new_node_engine, NodeGraphOrdering};
 use crate::{NodeConfigurator, NodeExecutor, NodeId, SAtom};
-use std::collections::HashMap;
+use std::cell::RefCell;
+use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 /// Returned by [SynthConstructor] if some error occured while updating the graph
 /// or changing paramters.
@@ -67,8 +69,10 @@ impl NodeConfig {
         Self { edges: HashMap::new(), params: HashMap::new() }
     }
 
-    pub fn set_edge(&mut self, param_name: &str, node_id: NodeId, output: &str) {
-        self.edges.insert(param_name.to_string(), (node_id, output.to_string()));
+    /// Returns `true` if the connection is new or different from the previous one.
+    pub fn set_edge(&mut self, param_name: &str, node_id: NodeId, output: &str) -> bool {
+        let edge = (node_id, output.to_string());
+        self.edges.insert(param_name.to_string(), edge.clone()) != Some(edge)
     }
 
     pub fn set_param(&mut self, param_name: &str, value: SAtom, modamt: Option<f32>) {
@@ -115,71 +119,79 @@ impl SynthConstructor {
         self.exec.take()
     }
 
-    fn walk_upload(
-        &mut self,
+    /// Merges the settings of `node` and everything that is connected to it's inputs into `nodes`.
+    /// The IDs of the found nodes are added to `touched`. Returns `true` if any connection changed.
+    fn merge_node(
+        nodes: &mut HashMap<NodeId, Box<NodeConfig>>,
         node: &ConstructorNode,
-        only_update_params: bool,
+        visited: &mut HashSet<*const RefCell<Vec<ConstructorOp>>>,
+        touched: &mut Vec<NodeId>,
     ) -> Result<bool, SynthError> {
-        let mut need_rebuild = false;
+        // A node might be connected to multiple inputs (or even to itself):
+        if !visited.insert(Rc::as_ptr(&node.ops)) {
+            return Ok(false);
+        }
+
+        let mut changed_edges = false;
 
         let node_id = node.node_id;
+        touched.push(node_id);
 
-        if !self.nodes.contains_key(&node_id) {
-            self.nodes.insert(node_id, Box::new(NodeConfig::new(node_id)));
-        }
+        let node_config =
+            nodes.entry(node_id).or_insert_with(|| Box::new(NodeConfig::new(node_id)));
 
         let mut walk_afterwads = vec![];
 
-        let mut changed_params = false;
-
-        if let Some(node_config) = self.nodes.get_mut(&node_id) {
-            for op in node.ops.borrow().iter() {
-                match op {
-                    ConstructorOp::SetDenormModAmt(name, v, ma) => {
-                        if let Some(param_id) = node_id.inp_param(&name) {
-                            let v = param_id.norm(*v);
-                            node_config.set_param(&name, SAtom::param(v), Some(*ma));
-                            changed_params = true;
-                        } else {
-                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
-                        }
+        for op in node.ops.borrow().iter() {
+            match op {
+                ConstructorOp::SetDenormModAmt(name, v, ma) => {
+                    if let Some(param_id) = node_id.inp_param(&name) {
+                        let v = param_id.norm(*v);
+                        node_config.set_param(&name, SAtom::param(v), Some(*ma));
+                    } else {
+                        return Err(SynthError::UnknownParam(node_id, name.to_string()));
                     }
-                    ConstructorOp::SetDenorm(name, v) => {
-                        if let Some(param_id) = node_id.inp_param(&name) {
-                            let v = param_id.norm(*v);
-                            node_config.set_param(&name, SAtom::param(v), None);
-                            changed_params = true;
-                        } else {
-                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
-                        }
+                }
+                ConstructorOp::SetDenorm(name, v) => {
+                    if let Some(param_id) = node_id.inp_param(&name) {
+                        let v = param_id.norm(*v);
+                        node_config.set_param(&name, SAtom::param(v), None);
+                    } else {
+                        return Err(SynthError::UnknownParam(node_id, name.to_string()));
                     }
-                    ConstructorOp::SetSetting(name, v) => {
-                        node_config.set_param(&name, SAtom::setting(*v), None);
-                        changed_params = true;
+                }
+                ConstructorOp::SetSetting(name, v) => {
+                    if node_id.inp_param(&name).is_none() {
+                        return Err(SynthError::UnknownParam(node_id, name.to_string()));
                     }
-                    ConstructorOp::Input(param, node, out) => {
-                        let id = node.node_id;
-                        if !only_update_params {
-                            node_config.set_edge(param, id, out);
-                            need_rebuild = true;
-                        }
-                        walk_afterwads.push(node.clone());
+
+                    node_config.set_param(&name, SAtom::setting(*v), None);
+                }
+                ConstructorOp::Input(param, node, out) => {
+                    if node_id.inp(&param).is_none() {
+                        return Err(SynthError::UnknownParam(node_id, param.to_string()));
                     }
+
+                    if node.node_id.out(&out).is_none() {
+                        return Err(SynthError::BadOutputName(node.node_id, out.to_string()));
+                    }
+
+                    if node_config.set_edge(param, node.node_id, out) {
+                        changed_edges = true;
+                    }
+
+                    walk_afterwads.push(node.clone());
                 }
             }
         }
 
-        if only_update_params && changed_params && self.update_node_params(node_id)? {
-            need_rebuild = true;
-        }
-
         for node in walk_afterwads.iter() {
-            if self.walk_upload(&node, only_update_params)? {
-                need_rebuild = true;
+            if Self::merge_node(nodes, node, visited, touched)? {
+                changed_edges = true;
             }
         }
 
-        Ok(need_rebuild)
+        Ok(changed_edges)
     }
 
     fn update_node_params(&mut self, node_id: NodeId) -> Result<bool, SynthError> {
@@ -238,14 +250,28 @@ impl SynthConstructor {
     /// let uploaded_new_graph = sc.update_params(&bosc(0).set().freq(400.0)).unwrap();
     ///```
     pub fn update_params(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<bool, SynthError> {
-        let built_node = node.build();
+        let mut nodes = self.nodes.clone();
+        let mut touched = vec![];
 
-        if self.walk_upload(&built_node, true)? {
-            self.upload(node)?;
-            Ok(true)
-        } else {
-            Ok(false)
+        if Self::merge_node(&mut nodes, &node.build(), &mut HashSet::new(), &mut touched)? {
+            self.upload_nodes(nodes)?;
+            return Ok(true);
         }
+
+        self.nodes = nodes;
+
+        let mut need_rebuild = false;
+        for node_id in touched {
+            if self.update_node_params(node_id)? {
+                need_rebuild = true;
+            }
+        }
+
+        if need_rebuild {
+            self.upload_nodes(self.nodes.clone())?;
+        }
+
+        Ok(need_rebuild)
     }
 
     /// Updates the dynamic node for the Rust1x1 nodes. The `index` refers to the
@@ -297,12 +323,19 @@ impl SynthConstructor {
     }
 
     pub fn upload(&mut self, node: &dyn ConstructorNodeBuilder) -> Result<(), SynthError> {
-        let node = node.build();
-        self.walk_upload(&node, false)?;
+        let mut nodes = self.nodes.clone();
+        Self::merge_node(&mut nodes, &node.build(), &mut HashSet::new(), &mut vec![])?;
+        self.upload_nodes(nodes)
+    }
 
+    /// Replaces the graph by `nodes` and uploads it. Nothing is changed if an error is returned.
+    fn upload_nodes(
+        &mut self,
+        nodes: HashMap<NodeId, Box<NodeConfig>>,
+    ) -> Result<(), SynthError> {
         self.graph_ordering.clear();
 
-        for (node_id, node_conf) in self.nodes.iter() {
+        for (node_id, node_conf) in nodes.iter() {
             self.graph_ordering.add_node(*node_id);
 
             for (_, (output_node_id, _)) in node_conf.edges.iter() {
@@ -315,6 +348,8 @@ impl SynthConstructor {
             return Err(SynthError::CycleDetected);
         }
 
+        self.nodes = nodes;
+
         for node_id in ordered_nodes.iter().rev() {
             if self.config.unique_index_for(node_id).is_none() {
                 self.config.create_node(*node_id);
-- 
2.43.0


From be6f11e1b53b90148579951617ef93e61d4d46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 51/59] fix: the slew time of the external parameter nodes
 follows the sample rate

---
 src/dsp/node_ext.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..3c492c4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,12 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
+
             fn reset(&mut self) {}
 
             #[inline]
-- 
2.43.0


From 1f49c2752ffa3c9ca2c47f6e5394e27e73ceb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:58 +0000
Subject: [PATCH 52/59] fix: the FVaFilt filters follow a change of the sample
 rate

---
 src/dsp/node_fvafilt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp/node_fvafilt.rs b/src/dsp/node_fvafilt.rs
index 56d355f..8e9d6a2 100644
--- a/src/dsp/node_fvafilt.rs
+++ b/src/dsp/node_fvafilt.rs
@@ -224,6 +224,8 @@ impl DspNode for FVaFilt {
             // TODO: Set oversampling dependent on the sample rate, and not pass 2.0*sr here!
             params.set_sample_rate(srate * 2.0);
         }
+        // Cause a recalculation of the filter matrices in the next process() call.
+        self.old_params.5 = -1;
     }
 
     fn reset(&mut self) {
-- 
2.43.0


From 84ac5d104ff045fd055a6be2ac8047b7cacd975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:37 +0000
Subject: [PATCH 53/59] fix: graph updates are not lost when the backend does
 not keep up

---
 src/nodes/node_conf.rs | 78 +++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b8d9a14..cdbf04b 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -13,7 +13,7 @@ use crate::SampleLibrary;
 use crate::{NodeGlobalData, NodeGlobalRef};
 
 use ringbuf::{Consumer, Producer, RingBuffer};
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::sync::Arc;
 
 use synfx_dsp::AtomicFloat;
@@ -255,6 +255,8 @@ pub(crate) struct SharedNodeConf {
     pub(crate) node_ctx_values: Vec<Arc<AtomicFloat>>,
     /// For updating the NodeExecutor with graph updates.
     pub(crate) graph_update_prod: Producer<GraphMessage>,
+    /// Graph updates for which there was no space in `graph_update_prod` yet.
+    pub(crate) graph_update_backlog: VecDeque<GraphMessage>,
     /// For receiving events from the DSP graph.
     pub(crate) graph_event_cons: Consumer<GraphEvent>,
     /// For receiving monitor data from the backend thread.
@@ -302,6 +304,7 @@ impl SharedNodeConf {
             Self {
                 node_ctx_values,
                 graph_update_prod: rb_graph_prod,
+                graph_update_backlog: VecDeque::new(),
                 graph_event_cons: rb_ev_con,
                 monitor,
                 drop_thread,
@@ -319,6 +322,52 @@ impl SharedNodeConf {
     }
 }
 
+impl SharedNodeConf {
+    /// Sends a graph update to the backend. If there is no space for it right now, because
+    /// the backend did not process the previous updates yet, the update is sent later by
+    /// [SharedNodeConf::send_backlog]. No update may get lost or overtake an other one,
+    /// because the indices in them refer to the most recently sent [NodeProg].
+    pub(crate) fn send_graph_update(&mut self, msg: GraphMessage) {
+        self.send_backlog();
+
+        if !self.graph_update_backlog.is_empty() {
+            self.push_backlog(msg);
+        } else if let Err(msg) = self.graph_update_prod.push(msg) {
+            self.push_backlog(msg);
+        }
+    }
+
+    /// Sends the graph updates that did not fit into the ring buffer to the backend.
+    pub(crate) fn send_backlog(&mut self) {
+        while let Some(msg) = self.graph_update_backlog.pop_front() {
+            if let Err(msg) = self.graph_update_prod.push(msg) {
+                self.graph_update_backlog.push_front(msg);
+                return;
+            }
+        }
+    }
+
+    fn push_backlog(&mut self, msg: GraphMessage) {
+        // Only the most recent value of a parameter is of interest, this limits
+        // the size of the backlog if the backend does not run at all.
+        for waiting in self.graph_update_backlog.iter_mut().rev() {
+            match (waiting, &msg) {
+                (
+                    GraphMessage::ParamUpdate { input_idx, value },
+                    GraphMessage::ParamUpdate { input_idx: new_idx, value: new_value },
+                ) if *input_idx == *new_idx => {
+                    *value = *new_value;
+                    return;
+                }
+                (GraphMessage::NewProg { .. }, _) | (GraphMessage::Clear { .. }, _) => break,
+                _ => (),
+            }
+        }
+
+        self.graph_update_backlog.push_back(msg);
+    }
+}
+
 impl NodeConfigurator {
     pub(crate) fn new() -> (Self, SharedNodeExec) {
         let nodes = Vec::new();
@@ -441,10 +490,7 @@ impl NodeConfigurator {
                 self.param_modamt.insert(param, v);
 
                 if let Some(mod_idx) = mod_idx {
-                    let _ = self
-                        .shared
-                        .graph_update_prod
-                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });
+                    self.shared.send_graph_update(GraphMessage::ModamtUpdate { mod_idx, modamt });
                 }
 
                 false
@@ -497,10 +543,7 @@ impl NodeConfigurator {
                 nparam.value = at.clone();
 
                 let at_idx = nparam.at_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::AtomUpdate { at_idx, value: at });
+                self.shared.send_graph_update(GraphMessage::AtomUpdate { at_idx, value: at });
             }
         } else {
             self.param_values.insert(param, at.f());
@@ -510,10 +553,7 @@ impl NodeConfigurator {
                 nparam.value = value;
 
                 let input_idx = nparam.input_idx;
-                let _ = self
-                    .shared
-                    .graph_update_prod
-                    .push(GraphMessage::ParamUpdate { input_idx, value });
+                self.shared.send_graph_update(GraphMessage::ParamUpdate { input_idx, value });
             }
         }
     }
@@ -706,7 +746,7 @@ impl NodeConfigurator {
         }
 
         // Also stop monitoring the previous node in case this one does not exist.
-        let _ = self.shared.graph_update_prod.push(GraphMessage::SetMonitor { bufs });
+        self.shared.send_graph_update(GraphMessage::SetMonitor { bufs });
     }
 
     pub fn get_node_global(&self) -> NodeGlobalRef {
@@ -722,7 +762,7 @@ impl NodeConfigurator {
         self.atoms.clear();
         self.atom_values.clear();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });
+        self.shared.send_graph_update(GraphMessage::Clear { prog: NodeProg::empty() });
     }
 
     pub fn create_node(&mut self, ni: NodeId) -> Option<(&NodeInfo, u8)> {
@@ -974,7 +1014,7 @@ impl NodeConfigurator {
 
         self.output_fb_cons = prog.take_feedback_consumer();
 
-        let _ = self.shared.graph_update_prod.push(GraphMessage::NewProg { prog, copy_old_out });
+        self.shared.send_graph_update(GraphMessage::NewProg { prog, copy_old_out });
     }
 
     /// Retrieves the feedback value for a specific output port of the
@@ -998,6 +1038,8 @@ impl NodeConfigurator {
     ///
     /// Retrieve the output value by calling [NodeConfigurator::out_fb_for].
     pub fn update_output_feedback(&mut self) {
+        self.shared.send_backlog();
+
         if let Some(out_fb_output) = &mut self.output_fb_cons {
             out_fb_output.update();
             let out_vec = out_fb_output.output_buffer();
@@ -1016,11 +1058,13 @@ impl NodeConfigurator {
     /// back to the GUI thread the standard way. This is mostly used for automated testing.
     /// And maybe some day for some kind of remote control script from WLambda?
     pub fn inject_midi_event(&mut self, midi_ev: HxMidiEvent) {
-        let _ = self.shared.graph_update_prod.push(GraphMessage::InjectMidi { midi_ev });
+        self.shared.send_graph_update(GraphMessage::InjectMidi { midi_ev });
     }
 
     /// Returns the next [GraphEvent] from the DSP/audio/backend thread.
     pub fn next_event(&mut self) -> Option<GraphEvent> {
+        self.shared.send_backlog();
+
         self.shared.graph_event_cons.pop()
     }
 }
-- 
2.43.0


From 967fd134e16febc0d6038a8fba9513146136b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:37 +0000
Subject: [PATCH 54/59] fix: patterns and block functions with high indices are
 saved if lower ones are unused

A block function that is emptied again counts as unset, otherwise the length of the saved list
would depend on what has been edited earlier.
---
 src/global.rs             | 18 ++++++++++++++++++
 src/matrix.rs             | 24 ++++++++++++++++++------
 src/wblockdsp/language.rs |  3 ++-
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/global.rs b/src/global.rs
index f586b6a..262ae05 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -103,6 +103,11 @@ impl NodeGlobalData {
         self.trackers.contains_key(&index)
     }
 
+    /// Returns an index that is higher than any index of an already allocated tracker.
+    pub fn tracker_index_end(&self) -> usize {
+        self.trackers.keys().max().map_or(0, |max| max + 1)
+    }
+
     /// Returns the [TrackerBackend] handle for the tracker `index`.
     /// Implicitly allocates the [Tracker] instance.
     /// The returned [TrackerBackend] will invalidate the other backend handles
@@ -177,6 +182,19 @@ impl NodeGlobalData {
         }
     }
 
+    /// Returns an index that is higher than any index of an already used [CodeEngine].
+    pub fn code_engine_index_end(&self) -> usize {
+        #[cfg(feature = "synfx-dsp-jit")]
+        {
+            self.code_engines.keys().max().map_or(0, |max| max + 1)
+        }
+
+        #[cfg(not(feature = "synfx-dsp-jit"))]
+        {
+            0
+        }
+    }
+
     /// Returns the [synfx-dsp::CodeEngineBackend] for the corresponding code engine at `index`.
     ///
     /// Any call of this function clears the connection of the corresponding [CodeEngine]
diff --git a/src/matrix.rs b/src/matrix.rs
index f6dcd5d..3b74506 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -877,9 +877,17 @@ impl Matrix {
             }
         });
 
+        // Patterns and block functions may be used with any index, independent of
+        // whether the lower indices are used. There are no node instances beyond 255.
+        let (tracker_end, code_engine_end) =
+            if let Ok(node_global) = self.config.get_node_global().lock() {
+                (node_global.tracker_index_end(), node_global.code_engine_index_end())
+            } else {
+                (0, 0)
+            };
+
         let mut patterns: Vec<Option<PatternRepr>> = vec![];
-        let mut tracker_id = 0;
-        while tracker_id < 128 || self.has_tracker(tracker_id) {
+        for tracker_id in 0..tracker_end.clamp(128, 256) {
             if let Some(pdata) = self.get_pattern_data(tracker_id) {
                 patterns.push(if pdata.lock().unwrap().is_unset() {
                     None
@@ -887,13 +895,15 @@ impl Matrix {
                     Some(pdata.lock().unwrap().to_repr())
                 });
             }
+        }
 
-            tracker_id += 1;
+        // What has been used some time earlier should not make a difference:
+        while patterns.len() > 128 && patterns.last().map_or(false, |p| p.is_none()) {
+            patterns.pop();
         }
 
         let mut block_funs: Vec<Option<BlockFunSnapshot>> = vec![];
-        let mut bf_id = 0;
-        while bf_id < 32 || self.has_code_engine(bf_id) {
+        for bf_id in 0..code_engine_end.clamp(32, 256) {
             if let Some(bf) = self.get_block_function(bf_id) {
                 block_funs.push(if bf.lock().unwrap().is_unset() {
                     None
@@ -901,8 +911,10 @@ impl Matrix {
                     Some(bf.lock().unwrap().save_snapshot())
                 });
             }
+        }
 
-            bf_id += 1;
+        while block_funs.len() > 32 && block_funs.last().map_or(false, |b| b.is_none()) {
+            block_funs.pop();
         }
 
         let properties = self.properties.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2054d81..07740ed 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1252,8 +1252,9 @@ impl BlockFun {
         (self.epoch << 32) | (id as u64 & 0xFFFF_FFFF)
     }
 
+    /// Returns true if there are no blocks in this function.
     pub fn is_unset(&self) -> bool {
-        self.generation == 0
+        self.areas.len() == 1 && self.areas[0].blocks.is_empty()
     }
 
     /// Removes all blocks and sub areas.
-- 
2.43.0


From bcd4046ae95008f4e46f1fd31d9857d63f5e7a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 55/59] fix: several readers of a shared feedback buffer get
 the same signal

---
 src/shared_feedback.rs | 55 +++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index b22574f..40ed659 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -8,6 +8,7 @@
 //! See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the nodes.
 
 use crate::dsp::MAX_BLOCK_SIZE;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 use synfx_dsp::AtomicFloat;
 
@@ -16,6 +17,20 @@ pub const FB_DELAY_LENGTH_MS: f32 = 3.14;
 /// The highest sample rate that [SharedFeedback] can provide [FB_DELAY_LENGTH_MS] for.
 pub const FB_MAX_SAMPLE_RATE: f32 = 384000.0;
 
+/// A sample and the position in time it is meant for. This way the readers don't repeat old samples
+/// in case the writer is gone.
+#[derive(Debug)]
+struct FeedbackSample {
+    value: AtomicFloat,
+    frame_pos: AtomicUsize,
+}
+
+impl FeedbackSample {
+    fn new() -> Self {
+        Self { value: AtomicFloat::new(0.0), frame_pos: AtomicUsize::new(usize::MAX) }
+    }
+}
+
 /// The SharedFeedback is a feedback delay buffer for the `FbWr` and `FbRd` nodes.
 ///
 /// They have a fixed delay of 3.14ms, which should be equal for all sample rates above 42kHz.
@@ -24,7 +39,7 @@ pub const FB_MAX_SAMPLE_RATE: f32 = 384000.0;
 /// See also [crate::NodeGlobalData] which provides the [SharedFeedback] to the DSP nodes.
 #[derive(Debug, Clone)]
 pub struct SharedFeedback {
-    buffer: Arc<Vec<AtomicFloat>>,
+    buffer: Arc<Vec<FeedbackSample>>,
     delay_sample_count: usize,
 }
 
@@ -38,7 +53,7 @@ impl SharedFeedback {
         // ahead of the reader, plus the block they might be apart.
         let max_delay_sample_count =
             delay_sample_count.max(Self::calc_delay_sample_count(FB_MAX_SAMPLE_RATE));
-        buf.resize_with(2 * max_delay_sample_count, || AtomicFloat::new(0.0));
+        buf.resize_with(2 * max_delay_sample_count, FeedbackSample::new);
 
         Self { buffer: Arc::new(buf), delay_sample_count }
     }
@@ -59,8 +74,8 @@ impl SharedFeedback {
 /// read from that [SharedFeedback] buffer via a [SharedFeedbackReader].
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackWriter {
-    buffer: Arc<Vec<AtomicFloat>>,
-    write_ptr: usize,
+    buffer: Arc<Vec<FeedbackSample>>,
+    write_pos: usize,
     delay_sample_count: usize,
 }
 
@@ -70,7 +85,7 @@ impl SharedFeedbackWriter {
         Self {
             buffer,
             delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
+            write_pos: sfb.delay_sample_count,
         }
     }
 
@@ -83,7 +98,7 @@ impl SharedFeedbackWriter {
     /// Sets the position of the next sample in time. The reader and the writer must use the
     /// same time base, see also [crate::nodes::NodeExecContext].
     pub fn set_frame_pos(&mut self, frame_pos: usize) {
-        self.write_ptr = (frame_pos + self.delay_sample_count) % self.buffer.len();
+        self.write_pos = frame_pos.wrapping_add(self.delay_sample_count);
     }
 
     /// Write the next sample in to the feedback buffer.
@@ -93,8 +108,10 @@ impl SharedFeedbackWriter {
     /// on the audio thread writing the buffer per buffer iteration. And then one or more
     /// `FbRd` DSP node reading from that buffer.
     pub fn write(&mut self, s: f32) {
-        self.buffer[self.write_ptr].set(s);
-        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
+        let sample = &self.buffer[self.write_pos % self.buffer.len()];
+        sample.value.set(s);
+        sample.frame_pos.store(self.write_pos, Ordering::Relaxed);
+        self.write_pos = self.write_pos.wrapping_add(1);
     }
 }
 
@@ -107,29 +124,33 @@ impl SharedFeedbackWriter {
 /// buffer is big.
 #[derive(Debug, Clone)]
 pub struct SharedFeedbackReader {
-    buffer: Arc<Vec<AtomicFloat>>,
-    read_ptr: usize,
+    buffer: Arc<Vec<FeedbackSample>>,
+    read_pos: usize,
 }
 
 impl SharedFeedbackReader {
     pub fn new(sfb: &SharedFeedback) -> Self {
-        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
+        Self { buffer: sfb.buffer.clone(), read_pos: 0 }
     }
 
     /// Sets the position of the next sample in time.
     /// See also [SharedFeedbackWriter::set_frame_pos].
     pub fn set_frame_pos(&mut self, frame_pos: usize) {
-        self.read_ptr = frame_pos % self.buffer.len();
+        self.read_pos = frame_pos;
     }
 
     /// Read the next sample from the buffer. Wraps around after some internal buffer
     /// size (that is consistent with the [SharedFeedback] buffer size). Used by `FbRd` DSP node
     /// to do it's functionality.
     pub fn read(&mut self) -> f32 {
-        let ret = self.buffer[self.read_ptr].get();
-        // Don't repeat it in case the writer is gone:
-        self.buffer[self.read_ptr].set(0.0);
-        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
-        ret
+        let sample = &self.buffer[self.read_pos % self.buffer.len()];
+        let is_current = sample.frame_pos.load(Ordering::Relaxed) == self.read_pos;
+        self.read_pos = self.read_pos.wrapping_add(1);
+
+        if is_current {
+            sample.value.get()
+        } else {
+            0.0
+        }
     }
 }
-- 
2.43.0


From 974360e259473aec051849ba2b140daa95ccf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 56/59] fix: modulation amounts of nodes that do not exist yet
 are saved with the patch

---
 src/nodes/node_conf.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index cdbf04b..0b7d988 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -562,14 +562,26 @@ impl NodeConfigurator {
     /// Most useful for serialization and saving patches.
     #[allow(clippy::type_complexity)]
     pub fn dump_param_values(&self) -> (Vec<(ParamId, f32, Option<f32>)>, Vec<(ParamId, SAtom)>) {
+        // A modulation amount might be assigned to a parameter that never got
+        // a value, because its node was not created yet:
+        let modamt_only = self
+            .param_modamt
+            .iter()
+            .filter(|(param_id, modamt)| {
+                modamt.is_some() && !self.param_values.contains_key(*param_id)
+            })
+            .map(|(param_id, _)| (*param_id, param_id.norm_def()));
+
         let params: Vec<(ParamId, f32, Option<f32>)> = self
             .param_values
             .iter()
+            .map(|(param_id, value)| (*param_id, *value))
+            .chain(modamt_only)
             .map(|(param_id, value)| {
                 (
-                    *param_id,
-                    param_id.denorm(*value),
-                    self.param_modamt.get(param_id).copied().flatten(),
+                    param_id,
+                    param_id.denorm(value),
+                    self.param_modamt.get(&param_id).copied().flatten(),
                 )
             })
             .collect();
-- 
2.43.0


From e4c0d79923e77cebee30482c635a2f07eac0b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:46 +0000
Subject: [PATCH 57/59] fix: dynamic Rust nodes get to know the sample rate

---
 src/dsp/node_rust.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/dsp/node_rust.rs b/src/dsp/node_rust.rs
index c7db024..b82c5fc 100644
--- a/src/dsp/node_rust.rs
+++ b/src/dsp/node_rust.rs
@@ -117,9 +117,21 @@ where
 {
     #[inline]
     pub fn access(&mut self) -> &mut T {
-        self.output.update();
+        self.update();
+        self.current()
+    }
+
+    /// Returns the value that was fetched most recently.
+    #[inline]
+    pub fn current(&mut self) -> &mut T {
         self.output.output_buffer()
     }
+
+    /// Fetches the most recent value. Returns true if there was a new one.
+    #[inline]
+    pub fn update(&mut self) -> bool {
+        self.output.update()
+    }
 }
 
 pub struct DynNodeHandle<T: Send + Default> {
@@ -167,6 +179,7 @@ impl std::fmt::Debug for Rust1x1 {
 /// A native Rust code node that uses trait objects for dispatch
 pub struct Rust1x1 {
     buffer: DynNodeBuffer<Box<dyn DynamicNode1x1>>,
+    srate: f32,
 }
 
 impl Rust1x1 {
@@ -177,7 +190,7 @@ impl Rust1x1 {
             let mut handle = DynNodeHandle::<Box<dyn DynamicNode1x1>>::new();
             handle.get_output_buffer()
         };
-        Self { buffer }
+        Self { buffer, srate: 44100.0 }
     }
 
     pub const inp: &'static str =
@@ -213,9 +226,14 @@ See also [crate::SynthConstructor] and [crate::DynamicNode1x1].
 }
 
 impl DspNode for Rust1x1 {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.srate = srate;
+        self.buffer.access().set_sample_rate(srate);
+    }
 
-    fn reset(&mut self) {}
+    fn reset(&mut self) {
+        self.buffer.access().reset();
+    }
 
     #[inline]
     fn process(
@@ -243,7 +261,13 @@ impl DspNode for Rust1x1 {
             phase_value: ctx_vals[1].clone(),
         };
 
-        self.buffer.access().process(
+        // A new node needs to know the sample rate first:
+        if self.buffer.update() {
+            let srate = self.srate;
+            self.buffer.current().set_sample_rate(srate);
+        }
+
+        self.buffer.current().process(
             inp.slice(ctx.nframes()),
             out.slice_mut(ctx.nframes()),
             &n1x1ctx,
-- 
2.43.0


From 944f395c500bf2f0621368ffbc4da8555d469833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 58/59] fix: paths between cells that are far away from each
 other are found

---
 src/cell_dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cell_dir.rs b/src/cell_dir.rs
index f667ff5..31cc9cc 100644
--- a/src/cell_dir.rs
+++ b/src/cell_dir.rs
@@ -82,7 +82,7 @@ impl CellDir {
             //d// println!("ITER START: A={:?} B={:?}", a, b);
             defensive_max -= 1;
 
-            let mut min_distance = 99999.0;
+            let mut min_distance = f32::MAX;
             let mut min_dir = CellDir::C;
             let mut min_new_a = a;
 
@@ -105,7 +105,7 @@ impl CellDir {
                 }
             }
 
-            if min_distance < 99999.0 {
+            if min_distance < f32::MAX {
                 //d// println!("A={:?} => {:?} DIR={:?} B={:?}", a, min_new_a, min_dir, b);
                 a = min_new_a;
                 path.push(min_dir);
-- 
2.43.0


From fb46ef6e9dc8a24b05331384433b5a780582e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 59/59] fix: the sequencer does not print on the audio thread

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0

