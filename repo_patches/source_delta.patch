From abb161206763b5eb33b09ac2174969cd8b3eed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 01/38] fix: count all states and colors of a program when
 making macros

A state or color whose slots are all undefined was not counted, so
different cell contents or states got the same macro color or state.
---
 tm/macro.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..a6240a3 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,13 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max(
+            max(state, next_state)
+            for (state, _), (_, _, next_state) in comp.items())
+
+        base_colors = 1 + max(
+            max(scan, color)
+            for (_, scan), (color, _, _) in comp.items())
 
     return base_states, base_colors
 
-- 
2.43.0


From 9228e47f241bf66edc74b73a116710a1b4e130d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 02/38] fix: apply native rules with the right sign, and only
 as a whole

Decreasing counts other than the least one were increased, and a rule
refused halfway for overflow had already changed the tape.
---
 src/rules.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..30fac2c 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -150,6 +150,8 @@ pub fn apply_rule(
 ) -> Option<Count> {
     let (times, min_pos, min_res) = count_apps(rule, tape)?;
 
+    let mut results = Vec::with_capacity(rule.len());
+
     for (pos, diff) in rule {
         let result = match *diff {
             Op::Plus(plus) => {
@@ -163,6 +165,10 @@ pub fn apply_rule(
             Op::Mult(_) => unimplemented!(),
         };
 
+        results.push((pos, result));
+    }
+
+    for (pos, result) in results {
         tape.set_count(pos, result);
     }
 
@@ -170,9 +176,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    Some(if diff < 0 {
+        count - mult
+    } else {
+        count + mult
+    })
 }
-- 
2.43.0


From 193bedac934b1abe0e2c95281f0bb49965be5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 03/38] fix: fail instead of wrapping around when native counts
 overflow

Release builds have no overflow checks, so run_prover returned wrong
steps and marks (1RB 2LA 3LA 2RA  0LA ... 2RB 3RB at 10,000 cycles).
---
 src/machine.rs |  9 ++++++---
 src/rules.rs   | 13 ++++++++-----
 src/tape.rs    | 18 ++++++++++++------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/machine.rs b/src/machine.rs
index d831a4b..72f4cba 100644
--- a/src/machine.rs
+++ b/src/machine.rs
@@ -256,7 +256,8 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
             Some(ProverResult::Got(rule)) => {
                 if let Some(times) = apply_rule(&rule, &mut tape) {
                     // println!("--> applying rule: {:?}", rule);
-                    rulapp += times;
+                    rulapp = Count::checked_add(rulapp, times)
+                        .expect("rule application overflow");
                     continue;
                 }
             },
@@ -281,7 +282,8 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
 
         let stepped = tape.step(shift, color, same);
 
-        steps += stepped;
+        steps =
+            Step::checked_add(steps, stepped).expect("step overflow");
 
         state = next_state;
 
@@ -349,7 +351,8 @@ pub fn run_quick_machine(prog: &str, sim_lim: Step) -> MachineResult {
 
         let stepped = tape.step(shift, color, same);
 
-        steps += stepped;
+        steps =
+            Step::checked_add(steps, stepped).expect("step overflow");
 
         state = next_state;
 
diff --git a/src/rules.rs b/src/rules.rs
index 30fac2c..0a6c6fe 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -180,9 +180,12 @@ fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
 
     let mult = absdiff.checked_mul(times)?;
 
-    Some(if diff < 0 {
-        count - mult
-    } else {
-        count + mult
-    })
+    Some(
+        if diff < 0 {
+            count.checked_sub(mult)
+        } else {
+            count.checked_add(mult)
+        }
+        .expect("count overflow"),
+    )
 }
diff --git a/src/tape.rs b/src/tape.rs
index 4ce4bad..4c0baca 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -66,7 +66,8 @@ impl Block for BasicBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count =
+            self.count.checked_add(count).expect("count overflow");
     }
 
     fn decrement(&mut self) {
@@ -111,7 +112,8 @@ impl<B: Block> Span<B> {
             .iter()
             .filter(|block| block.get_color() != 0)
             .map(Block::get_count)
-            .sum::<Count>()
+            .try_fold(0, Count::checked_add)
+            .expect("marks overflow")
     }
 
     fn counts(&self) -> Vec<Count> {
@@ -133,7 +135,9 @@ impl<B: Block> Span<B> {
             (skip && !self.blank() && self.0[0].get_color() == scan)
                 .then(|| self.0.remove(0))
                 .as_ref()
-                .map_or_else(|| 1, |block| 1 + block.get_count());
+                .map_or(0, Block::get_count)
+                .checked_add(1)
+                .expect("count overflow");
 
         let next_scan = if self.blank() {
             0
@@ -289,8 +293,9 @@ impl<B: Block> Tape<B> {
 
     pub fn marks(&self) -> Count {
         Count::from(self.scan != 0)
-            + self.lspan.marks()
-            + self.rspan.marks()
+            .checked_add(self.lspan.marks())
+            .and_then(|marks| marks.checked_add(self.rspan.marks()))
+            .expect("marks overflow")
     }
 
     pub fn blocks(&self) -> usize {
@@ -571,7 +576,8 @@ impl Block for EnumBlock {
     }
 
     fn add_count(&mut self, count: Count) {
-        self.count += count;
+        self.count =
+            self.count.checked_add(count).expect("count overflow");
     }
 
     fn decrement(&mut self) {
-- 
2.43.0


From 365be3606296e8a7ad763ca6ebef7223ec47f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 04/38] fix: do not truncate counts when inferring native rules

Counts were cast to 32 bits first, so counts that differ by a multiple
of 2^32 were taken to be unchanged.
---
 src/rules.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 0a6c6fe..0d7dba2 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -21,29 +21,31 @@ enum DiffResult {
     Unknown,
 }
 
+fn get_diff(a: Count, b: Count) -> Option<Diff> {
+    Diff::try_from(i128::from(b) - i128::from(a)).ok()
+}
+
 fn calculate_diff(
-    a: Diff,
-    b: Diff,
-    c: Diff,
-    d: Diff,
+    a: Count,
+    b: Count,
+    c: Count,
+    d: Count,
 ) -> Option<DiffResult> {
     if a == b && b == c && c == d {
         return None;
     }
 
-    let Some(diff_1) = b.checked_sub(a) else {
-        return Some(DiffResult::Unknown);
-    };
-
-    let Some(diff_2) = c.checked_sub(b) else {
+    let (Some(diff_1), Some(diff_2), Some(diff_3)) =
+        (get_diff(a, b), get_diff(b, c), get_diff(c, d))
+    else {
         return Some(DiffResult::Unknown);
     };
 
-    if diff_1 == diff_2 && diff_2 == (d - c) {
+    if diff_1 == diff_2 && diff_2 == diff_3 {
         return Some(DiffResult::Got(Op::Plus(diff_1)));
     }
 
-    if a == 0 || b == 0 {
+    if a == 0 || b == 0 || c == 0 {
         return Some(DiffResult::Unknown);
     }
 
@@ -51,7 +53,11 @@ fn calculate_diff(
     let divmod2 = (c / b, c % b);
 
     if divmod1 == divmod2 && divmod2 == (d / c, d % c) {
-        return Some(DiffResult::Got(Op::Mult(divmod1)));
+        if let (Ok(div), Ok(rem)) =
+            (divmod1.0.try_into(), divmod1.1.try_into())
+        {
+            return Some(DiffResult::Got(Op::Mult((div, rem))));
+        }
     }
 
     Some(DiffResult::Unknown)
@@ -82,9 +88,7 @@ pub fn make_rule(
 
     for (s, spans) in countses.iter().enumerate() {
         for (i, &(a, b, c, d)) in spans.iter().enumerate() {
-            match calculate_diff(
-                a as Diff, b as Diff, c as Diff, d as Diff,
-            ) {
+            match calculate_diff(a, b, c, d) {
                 None => continue,
                 Some(DiffResult::Unknown) => {
                     return None;
-- 
2.43.0


From c074f742ddf81cc4af0bbf309a299936f590d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 05/38] fix: count states and colors that are only written to
 in segment analysis

A last state or color without instructions of its own was left out, so
reaching it was not seen as a halt, or was a panic.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..7ec2d43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,12 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |(ms, mc), (&(state, color), &(print, _, trans))| {
+                (ms.max(state).max(trans), mc.max(color).max(print))
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0


From 4b4a7cf3171c66ac9541d5644fc03320481a1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 06/38] fix: draw programs of nine and ten colors

---
 tools/dot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/dot.py b/tools/dot.py
index edd81bf..c0fec96 100644
--- a/tools/dot.py
+++ b/tools/dot.py
@@ -9,6 +9,8 @@ COLORS = (
     'black',
     'brown',
     'deeppink',
+    'turquoise',
+    'gray',
 )
 
 UNDEFINED = '.'
-- 
2.43.0


From e88e6388f0f92b4803c5a6327e60cc77acbf6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 07/38] fix: normalize programs whose first instruction is
 undefined

---
 tools/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index fe3a52d..5cf1adb 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -178,7 +178,7 @@ class Normalizer:
         return self
 
     def normalize_directions(self) -> Self:
-        if (index := self[0, 0]) is None or index[1]:
+        if (index := self.prog[0][0]) is None or index[1]:
             return self
 
         for slot, (color, shift, state) in self.used_instr_slots:
-- 
2.43.0


From 7da8e9c1169ec3904185b41e18b05bdeb6435259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 08/38] fix: start a normalized program where the first mark is
 really made

---
 tools/normalize.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index 5cf1adb..fc6a3db 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -187,15 +187,25 @@ class Normalizer:
         return self
 
     def cinch(self) -> None:
-        for state in self.states:  # no-branch
-            if (instr := self.prog[state][0]) is None or instr[0] == 0:
-                continue
+        state = 0
+
+        for _ in self.states:  # no-branch
+            if (instr := self.prog[state][0]) is None:
+                return
 
-            if state != 0:
-                self.swap_states(0, state)
+            color, _, next_state = instr
 
+            if color != 0:
+                break
+
+            if (state := next_state) not in self.prog:
+                return
+        else:
             return
 
+        if state != 0:
+            self.swap_states(0, state)
+
     def cut_unused_states(self) -> None:
         states_to_del = {
             state
-- 
2.43.0


From 4ed48d1069d02733ff07493ef38f0b7dc668a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:36 +0000
Subject: [PATCH 09/38] fix: cut only states and colors that are named nowhere
 when normalizing

---
 tools/normalize.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index fc6a3db..ba0a287 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -207,24 +207,20 @@ class Normalizer:
             self.swap_states(0, state)
 
     def cut_unused_states(self) -> None:
-        states_to_del = {
-            state
-            for state, switch in self.prog.items()
-            if all(switch[color] is None for color in self.colors)
-        }
+        for state in sorted(self.states, reverse = True)[:-1]:
+            if any(state == trans
+                       for _, _, trans in self.used_instructions):
+                break
 
-        for state in states_to_del:
             del self.prog[state]
 
-        for state in sorted(self.states, reverse = True)[:-1]:
-            if not any(state in instr
-                       for instr in self.used_instructions):
-                del self.prog[state]
-
     def cut_unused_colors(self) -> None:
-        for color in self.colors:
+        for color in sorted(self.colors, reverse = True)[:-1]:
             if any(sw[color] is not None for sw in self.prog.values()):
-                continue
+                break
+
+            if any(color == pr for pr, _, _ in self.used_instructions):
+                break
 
             for switch in self.prog.values():
                 del switch[color]
-- 
2.43.0


From eb42a4091b67776f8fad82ab754dddbbdd12c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:39 +0000
Subject: [PATCH 10/38] fix: follow the renamed program in tree-normal form,
 and stop where it halts

---
 tools/tree_norm.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/tools/tree_norm.py b/tools/tree_norm.py
index 4351abd..3eef292 100644
--- a/tools/tree_norm.py
+++ b/tools/tree_norm.py
@@ -1,7 +1,23 @@
+from __future__ import annotations
+
+from typing import TYPE_CHECKING
+
 from tm.tape import Tape
 
 from tools.normalize import Normalizer
 
+if TYPE_CHECKING:
+    from tm.parse import Color
+
+
+def swap_colors(tape: Tape, co1: Color, co2: Color) -> None:
+    swap = {co1: co2, co2: co1}
+
+    tape.scan = swap.get(tape.scan, tape.scan)
+
+    for block in tape.lspan + tape.rspan:
+        block.color = swap.get(block.color, block.color)
+
 
 def tree_norm(prog: str) -> str:
     norm = Normalizer(prog)
@@ -13,23 +29,29 @@ def tree_norm(prog: str) -> str:
     avail_state, avail_color = 1, 1
 
     for _ in range(1_000):  # no-branch
-        if state == avail_state:
+        if state >= avail_state:
+            if state > avail_state:
+                norm.swap_states(state, avail_state)
+                state = avail_state
+
             avail_state += 1
-        elif state > avail_state:
-            norm.swap_states(state, avail_state)
-            avail_state = state
 
-        if (scan := tape.scan) == avail_color:
+        if (scan := tape.scan) >= avail_color:
+            if scan > avail_color:
+                norm.swap_colors(scan, avail_color)
+                swap_colors(tape, scan, avail_color)
+                scan = avail_color
+
             avail_color += 1
-        elif scan > avail_color:
-            norm.swap_colors(scan, avail_color)
-            avail_color = scan
 
         if (avail_state >= len(norm.states)
                 and avail_color >= len(norm.colors)):
             break
 
-        color, shift, next_state = norm[state, scan]
+        try:
+            color, shift, next_state = norm[state, scan]
+        except KeyError:
+            break
 
         tape.step(shift, color, state == next_state)
 
-- 
2.43.0


From c095ee6836bf1a70be2bd097b873440a7126f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 11/38] fix: 2 ** (4 * n) is 16, not 15, modulo 30

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..8005adc 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
-- 
2.43.0


From 600fd20f0577dd30df512220598f1e431cc0b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 12/38] fix: the powers of three have period two, not one,
 modulo four

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 8005adc..a72d46a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -912,7 +912,7 @@ class Exp(Num):
                     return 3
 
                 if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                    exp %= 2 ** max(1, int(log_mod) - 2)
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From 3dae220499e547e44a14168886bbcaa43c13e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 13/38] fix: add quotients exactly when their denominators only
 share a factor

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index a72d46a..f404f3c 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From 08f800fbc8b3ef345922fe526baf8aab03cfa6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 14/38] fix: divide a power by all of itself but a factor of
 its base

---
 tm/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index f404f3c..deaa8c1 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1115,6 +1115,9 @@ class Exp(Num):
             assert base > other
             assert base % other == 0
 
+            if exp == 1:
+                return base // other
+
             return (base // other) * make_exp(base, exp - 1)
 
         return (
-- 
2.43.0


From 8c33cf3e9b044d092637ffd3594e5faa1c6385c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 15/38] fix: mind the sign of the common factor when comparing
 products

---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index deaa8c1..aecfcfb 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -586,16 +586,16 @@ class Mul(Num):
             lo, ro = other.l, other.r
 
             if l == lo:
-                return r < ro
+                return r < ro if 0 < l else ro < r
 
             if r == ro:
-                return l < lo
+                return l < lo if 0 < r else lo < l
 
             if l == ro:  # no-cover
-                return r < lo
+                return r < lo if 0 < l else lo < r
 
             if r == lo:  # no-cover
-                return l < ro
+                return l < ro if 0 < r else ro < l
 
             if self.is_exp_coef and other.is_exp_coef:
                 # pylint: disable = line-too-long, no-else-return
-- 
2.43.0


From 1c41e296b0f333b1ec957429afa47363a844d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 16/38] fix: compare multiples of powers exactly

---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index aecfcfb..c274f7f 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -609,15 +609,15 @@ class Mul(Num):
 
                 if rexp < roexp:
                     if not isinstance(diff := roexp - rexp, int):  # no-branch
-                        return True  # no-cover
+                        return 0 < lo  # no-cover
 
-                    return ceil(l / lo) <= (base ** diff)  # type: ignore[no-any-return]
+                    return l < lo * (base ** diff)  # type: ignore[no-any-return]
 
                 else:
                     if not isinstance(diff := rexp - roexp, int):  # no-branch
-                        return False  # no-cover
+                        return l < 0  # no-cover
 
-                    return ceil(lo / l) > (base ** diff)  # type: ignore[no-any-return]
+                    return l * (base ** diff) < lo  # type: ignore[no-any-return]
 
         if l < 0:
             if other < 0:  # no-cover
-- 
2.43.0


From 7ea754156a27f4ee1c663a343b7997b60d4c59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 17/38] fix: compare a power with its small multiples exactly

---
 tm/num.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index c274f7f..249a74a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -636,6 +636,13 @@ class Mul(Num):
 
         if isinstance(other, Exp):
             if 0 < l < 10:
+                if (isinstance(l, int)
+                        and isinstance(r, Exp)
+                        and isinstance(rexp := r.exp, int)
+                        and isinstance(oexp := other.exp, int)):
+                    assert r.base == other.base
+                    return rexp < oexp and l < r.base ** (oexp - rexp)
+
                 return r < other
 
         if 0 < l and isinstance(r, Add) and r.l == -1 and r.r == other:
-- 
2.43.0


From 5793b58f8e5c238757ca104674d263eeee337d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 18/38] fix: compare a power with a large integer exactly

---
 tm/num.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 249a74a..59987b5 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -635,9 +635,8 @@ class Mul(Num):
             return True
 
         if isinstance(other, Exp):
-            if 0 < l < 10:
-                if (isinstance(l, int)
-                        and isinstance(r, Exp)
+            if isinstance(l, int) and 0 < l < 10:
+                if (isinstance(r, Exp)
                         and isinstance(rexp := r.exp, int)
                         and isinstance(oexp := other.exp, int)):
                     assert r.base == other.base
@@ -1134,11 +1133,15 @@ class Exp(Num):
         )
 
     def __lt__(self, other: Count) -> bool:
-        if isinstance(other, int):
-            return False
-
         base, exp = self.base, self.exp
 
+        if isinstance(other, int):
+            return (
+                isinstance(exp, int)
+                and exp < other.bit_length()
+                and base ** exp < other
+            )
+
         if isinstance(other, Exp):
             assert base == other.base
             return exp < other.exp
-- 
2.43.0


From 6df03310dc7aa8879a87de1290049f4309b9979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 19/38] fix: compare sums with large integers exactly

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 59987b5..1b52db8 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -290,7 +290,7 @@ class Add(Num):
 
         if isinstance(other, int):
             if isinstance(l, int):
-                return r < 0
+                return r < other - l
 
             if l < 0 and r < 0:  # no-cover
                 return True
-- 
2.43.0


From bb5500e533a3174c0322a3c0eaa5413655f77a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:27 +0000
Subject: [PATCH 20/38] fix: compare products with large integers exactly

---
 tm/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tm/num.py b/tm/num.py
index 1b52db8..c7c4074 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -580,6 +580,9 @@ class Mul(Num):
         l, r = self.l, self.r
 
         if isinstance(other, int):
+            if isinstance(l, int):
+                return r < -(-other // l) if 0 < l else -other // -l < r
+
             return l < 0
 
         if isinstance(other, Mul):
-- 
2.43.0


From 0e71cfa97ef641b3f461b8d7fa433fb593d81fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 21/38] fix: compare quotients with large integers exactly

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index c7c4074..f0cda6b 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -794,7 +794,7 @@ class Div(Num):
 
     def __lt__(self, other: Count) -> bool:
         if isinstance(other, int):
-            return self.num < 0
+            return self.num < other * self.den
 
         if not isinstance(other, Div):
             raise NotImplementedError(self, other)
-- 
2.43.0


From a86c00a434d1970bbb0ae66aed0ad51eb08905f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:42 +0000
Subject: [PATCH 22/38] fix: compare a power with a sum with a larger integer

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index f0cda6b..47cd54d 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1153,7 +1153,7 @@ class Exp(Num):
             l, r = other.l, other.r
 
             if isinstance(l, int):  # no-branch
-                return self < r
+                return (self < l and 0 < r) or self < r
 
         elif isinstance(other, Mul):
             l, r = other.l, other.r
-- 
2.43.0


From e48a211d1012cdb7e1c7add4646b1f58f7f51197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:46 +0000
Subject: [PATCH 23/38] fix: mind large integers in sums when estimating their
 size

---
 tm/num.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 47cd54d..cc4482f 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -184,11 +184,14 @@ class Add(Num):
     def digits(self) -> int:
         r_dig = self.r.digits()
 
-        return (
-            r_dig
-            if isinstance(l := self.l, int) else
-            max(l.digits(), r_dig)
-        )
+        return max(
+            # pylint: disable = used-before-assignment
+            l.digits()
+            if not isinstance(l := self.l, int) else
+            round(log10(abs(l)))
+            if l != 0 else
+            0,
+            r_dig)
 
     def __mod__(self, mod: int) -> int:
         if mod == 1:  # no-cover
-- 
2.43.0


From 555d8c18e2854727fcc1bdb528e432772dff0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:22 +0000
Subject: [PATCH 24/38] fix: mind large integers when comparing sums

---
 tm/num.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index cc4482f..d6b180c 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -317,7 +317,10 @@ class Add(Num):
                 return r < lo
 
             if isinstance(l, int) and isinstance(lo, int):
-                return r < ro
+                if r < ro:
+                    return not (0 < r and ro < l - lo)
+
+                return 0 < ro and r < lo - l
 
             if l < lo and r < lo:  # no-branch
                 return True
-- 
2.43.0


From 94a556c82aeafc4db94dd1f5c8871cbcbffeca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 25/38] fix: compare a power with a sum with an integer of its
 size

---
 tm/num.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index d6b180c..286d10a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1159,7 +1159,10 @@ class Exp(Num):
             l, r = other.l, other.r
 
             if isinstance(l, int):  # no-branch
-                return (self < l and 0 < r) or self < r
+                if isinstance(exp, int) and exp <= l.bit_length():
+                    return (base ** exp) - l < r  # type: ignore[no-any-return]
+
+                return self < r
 
         elif isinstance(other, Mul):
             l, r = other.l, other.r
-- 
2.43.0


From a181ecf92109adb6a52154b0d4240bc2448c3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:26 +0000
Subject: [PATCH 26/38] fix: record the blocks that a rule reads when
 minimizing native rules

---
 src/tape.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tape.rs b/src/tape.rs
index 4c0baca..f0ac2c7 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -715,6 +715,16 @@ impl EnumTape {
 
 impl IndexTape for EnumTape {
     fn get_count(&self, index: &Index) -> Count {
+        let &(side, pos) = index;
+
+        let span = if side {
+            &self.tape.rspan
+        } else {
+            &self.tape.lspan
+        };
+
+        self.check_offsets(&span.0[pos]);
+
         self.tape.get_count(index)
     }
 
-- 
2.43.0


From 1b4133f74179b2526185f9529bc5bff058f8f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:08 +0000
Subject: [PATCH 27/38] fix: give four structured programs a tape that holds
 their runs

---
 machines/structured/2315619.c  | 2 +-
 machines/structured/2333909.c  | 2 +-
 machines/structured/32779477.c | 2 +-
 machines/structured/3932964.c  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/structured/2315619.c b/machines/structured/2315619.c
index 22935e1..353113c 100644
--- a/machines/structured/2315619.c
+++ b/machines/structured/2315619.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LB 1LC  1LA 2RB 1RB  1R_ 2LA 0LC"
 
-#define TAPELEN 48
+#define TAPELEN 60
 
 #include "machine.h"
 
diff --git a/machines/structured/2333909.c b/machines/structured/2333909.c
index 490b2fe..f6f9372 100644
--- a/machines/structured/2333909.c
+++ b/machines/structured/2333909.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2RB 1LB 1LA  1LB 3RA 3LA 2RB"
 
-#define TAPELEN 4065
+#define TAPELEN 7000
 
 #include "machine.h"
 
diff --git a/machines/structured/32779477.c b/machines/structured/32779477.c
index b37dfec..600c8fe 100644
--- a/machines/structured/32779477.c
+++ b/machines/structured/32779477.c
@@ -1,4 +1,4 @@
-#define TAPELEN 20000
+#define TAPELEN 21000
 
 #include "machine.h"
 
diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index 55a6951..cba99d0 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LA 1RA 1RA  1LB 1LA 3RB 1RH"
 
-#define TAPELEN 2080
+#define TAPELEN 4100
 
 #include "machine.h"
 
-- 
2.43.0


From 3b48dde302392ea730b180a93105d5697c83ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:31 +0000
Subject: [PATCH 28/38] fix: write the mark of the halting step in the
 structured 3932964

---
 machines/structured/3932964.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index cba99d0..49127ab 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -56,6 +56,7 @@ int main(void)
   }
 
   // B3
+  WRITE(1);
   RIGHT;
 
  H:
-- 
2.43.0


From 7901e1ef0a3e4a58b24bdf83e4026f64a88d6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:55 +0000
Subject: [PATCH 29/38] fix: keep the labels of generated C programs apart from
 machine.h

---
 tools/c.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tools/c.py b/tools/c.py
index b6c01b9..dc6ecf5 100644
--- a/tools/c.py
+++ b/tools/c.py
@@ -158,6 +158,19 @@ def make_switch(state: State, instrs: tuple[Instr, ...]) -> str:
     return make_if_else(state, in0, in1)
 
 
+def rename_labels(labels: str, states: int) -> str:
+    # These letters are taken by machine.h
+    for name in 'HLR':
+        if ord(name) - ord('A') < states:
+            labels = (
+                labels
+                .replace(f' {name}:', f' {name}_:')
+                .replace(f'goto {name};', f'goto {name}_;')
+            )
+
+    return labels
+
+
 def make_label(state: State) -> str:
     return f' {show_state(state)}:'
 
@@ -184,7 +197,10 @@ def make_labels(prog: str) -> str:
 def make_c(prog: str) -> str:
     return PROG_TEMPLATE.format(
         prog,
-        make_labels(prog),
+        rename_labels(
+            make_labels(prog),
+            len(parse(prog)),
+        ),
     ).replace(' _', ' H')
 
 
-- 
2.43.0


From e5255551808816623c241a8e7047b9abae6dde38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:04 +0000
Subject: [PATCH 30/38] fix: let the enumerators' tape hold a run to the right
 of XLIMIT steps

---
 machines/machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/machine.h b/machines/machine.h
index e39a23f..2427ef3 100644
--- a/machines/machine.h
+++ b/machines/machine.h
@@ -7,7 +7,7 @@
   unsigned int STEPS;                           \
   unsigned int PROG_NUM = 0;
 
-#define TAPE_LEN (XLIMIT * 2)
+#define TAPE_LEN (XLIMIT * 2 + 1)
 
 #define CENTER_SQUARE (TAPE_LEN / 2)
 
-- 
2.43.0


From a398f37a452afc70b14b03dfd199a009717f0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:21 +0000
Subject: [PATCH 31/38] fix: do not count the step of the enumerators that
 repeats itself at a spin-out

---
 machines/2-4.c     | 1 -
 machines/machine.h | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/machines/2-4.c b/machines/2-4.c
index 9093f44..9e59f2f 100644
--- a/machines/2-4.c
+++ b/machines/2-4.c
@@ -45,7 +45,6 @@ int main (void) {
               a3c, a3s, a3t);
 
  B:
-  CHECK_RECUR(b0s, b0t, 1);
   INSTRUCTION(1, b0c, b0s, b0t,
               b1c, b1s, b1t,
               b2c, b2s, b2t,
diff --git a/machines/machine.h b/machines/machine.h
index 2427ef3..27382f1 100644
--- a/machines/machine.h
+++ b/machines/machine.h
@@ -40,7 +40,7 @@
    SHIFT_INTO_EDGE(SH))
 
 #define CHECK_RECUR(SH, TR, LABEL)              \
-  if (IS_RECUR(SH, TR, LABEL)) { goto H; };
+  if (IS_RECUR(SH, TR, LABEL)) { STEPS--; goto H; };
 
 #define WIPE_AND_SCORE                          \
   for (i = PMIN; i < PMAX; i++) {               \
-- 
2.43.0


From a87452999b3a235c0a87e1e95588e1d8d4b83b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:48 +0000
Subject: [PATCH 32/38] fix: print the programs that just_so.py keeps from one
 process

---
 just_so.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/just_so.py b/just_so.py
index b1a2f6d..1d81e07 100644
--- a/just_so.py
+++ b/just_so.py
@@ -15,11 +15,11 @@ CYCLES = 2_000
 CANT_REACH = cant_spin_out
 
 
-def worker(prog: str) -> None:
+def worker(prog: str) -> str | None:
     if CANT_REACH(prog, CYCLES) is not None:
-        return
+        return None
 
-    print(prog.strip())
+    return prog.strip()
 
 
 if __name__ == '__main__':
@@ -47,4 +47,6 @@ if __name__ == '__main__':
         CANT_REACH = segment_cant_halt  # type: ignore[assignment]
 
     with Pool() as pool:
-        pool.map(worker, sys.stdin)
+        for holdout in pool.imap(worker, sys.stdin):
+            if holdout is not None:
+                print(holdout)
-- 
2.43.0


From bf933df85f3bc7260de8168fc677292c991271a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:48 +0000
Subject: [PATCH 33/38] fix: use the number of segments that just_so.py is
 asked for

---
 just_so.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/just_so.py b/just_so.py
index 1d81e07..bf0931c 100644
--- a/just_so.py
+++ b/just_so.py
@@ -43,7 +43,7 @@ if __name__ == '__main__':
     elif args.blank:
         CANT_REACH = cant_blank
     elif args.segment:
-        CYCLES = 20
+        CYCLES = args.cycles or 20
         CANT_REACH = segment_cant_halt  # type: ignore[assignment]
 
     with Pool() as pool:
-- 
2.43.0


From 77ecac796f646e4470d009698bbc19770acb679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:48 +0000
Subject: [PATCH 34/38] fix: strip the line that dump_graphs.py names its
 picture after

---
 dump_graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump_graphs.py b/dump_graphs.py
index 50f5901..d57cfc5 100644
--- a/dump_graphs.py
+++ b/dump_graphs.py
@@ -8,7 +8,7 @@ from tools.dot import make_dot
 if __name__ == '__main__':
     _, path = tempfile.mkstemp()
 
-    for prog in sys.stdin:
+    for prog in map(str.strip, sys.stdin):
         with open(path, 'w') as temp:
             temp.write(make_dot(prog))
 
-- 
2.43.0


From 71403c26112473c429a12a1eb14f771dd4f4e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 35/38] fix: forget the outcome of an earlier run when a
 machine runs again

---
 tm/machine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tm/machine.py b/tm/machine.py
index daed053..f50e3d7 100644
--- a/tm/machine.py
+++ b/tm/machine.py
@@ -149,6 +149,12 @@ class Machine:
 
         self.blanks = {}
 
+        self.rulapp = 0
+        self.susrul = None
+
+        for cat in TERM_CATS:
+            setattr(self, cat, None)
+
         step: int = 0
 
         state: State = 0
-- 
2.43.0


From eba25bde2765008e1696121b4a49c2cb44dd7d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:07 +0000
Subject: [PATCH 36/38] fix: do not wrap around in the cycles at which rules
 are tried

---
 src/machine.rs | 10 +++++++---
 src/prover.rs  |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/machine.rs b/src/machine.rs
index 72f4cba..acc4e60 100644
--- a/src/machine.rs
+++ b/src/machine.rs
@@ -4,7 +4,7 @@ use pyo3::{pyclass, pyfunction, pymethods};
 
 use crate::{
     instrs::{CompProg, Parse as _, Slot, State},
-    prover::{Prover, ProverResult},
+    prover::{Cycle, Prover, ProverResult},
     rules::apply_rule,
     tape::{Alignment as _, BasicTape as Tape, Count, HeadTape},
 };
@@ -175,7 +175,9 @@ pub fn run_for_infrul(comp: &impl GetInstr, sim_lim: Step) -> bool {
     let mut state = 0;
 
     for cycle in 0..sim_lim {
-        match prover.try_rule(cycle as i32, state, &tape) {
+        let now = Cycle::try_from(cycle).unwrap();
+
+        match prover.try_rule(now, state, &tape) {
             None => {},
             Some(
                 ProverResult::ConfigLimit | ProverResult::MultRule,
@@ -236,7 +238,9 @@ pub fn run_prover(prog: &str, sim_lim: Step) -> MachineResult {
     let mut last_slot: Option<Slot> = None;
 
     for cycle in 0..sim_lim {
-        match prover.try_rule(cycle as i32, state, &tape) {
+        let now = Cycle::try_from(cycle).unwrap();
+
+        match prover.try_rule(now, state, &tape) {
             None => {},
             Some(ProverResult::ConfigLimit) => {
                 cycles = cycle;
diff --git a/src/prover.rs b/src/prover.rs
index 790a444..29f41c1 100644
--- a/src/prover.rs
+++ b/src/prover.rs
@@ -8,7 +8,7 @@ use crate::{
     tape::{BasicTape, EnumTape, GetSig, Signature},
 };
 
-type Cycle = i32;
+pub type Cycle = i64;
 
 type MinSig = (Signature, (bool, bool));
 
-- 
2.43.0


From 4f77755e3bf844f979fc6f9ee3b77e773c0b3b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:47 +0000
Subject: [PATCH 37/38] fix: Compare sums and products with integers larger
 than them

A sum of two positive symbolic numbers was never less than an integer, nor was a product, however
large the integer. A negative multiple of a number was less than the integers right below it.
---
 tm/num.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 286d10a..734e8da 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -299,7 +299,7 @@ class Add(Num):
                 return True
 
             if 0 < l and 0 < r:  # no-branch
-                return False
+                return l < other and r < other and int(self) < other
 
         elif isinstance(other, Add):
             lo, ro = other.l, other.r
@@ -587,9 +587,14 @@ class Mul(Num):
 
         if isinstance(other, int):
             if isinstance(l, int):
-                return r < -(-other // l) if 0 < l else -other // -l < r
-
-            return l < 0
+                return (
+                    r < -(-other // l)
+                    if 0 < l else
+                    not r < 1 + (-other // -l)
+                )
+
+            return l < 0 or (
+                l < other and 0 < r < other and int(self) < other)
 
         if isinstance(other, Mul):
             lo, ro = other.l, other.r
-- 
2.43.0


From 30b75804f80f1801e925275501578854ff21d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:36 +0000
Subject: [PATCH 38/38] fix: Compare powers exactly with sums whose integer is
 of their order

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 734e8da..6f0f422 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1164,7 +1164,7 @@ class Exp(Num):
             l, r = other.l, other.r
 
             if isinstance(l, int):  # no-branch
-                if isinstance(exp, int) and exp <= l.bit_length():
+                if isinstance(exp, int) and exp <= 4 * l.bit_length():
                     return (base ** exp) - l < r  # type: ignore[no-any-return]
 
                 return self < r
-- 
2.43.0

