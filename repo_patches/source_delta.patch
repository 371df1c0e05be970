From 45f829c48e072507ba5a2f5b3e6f2f9e86c370c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 01/23] fix: apply a decreasing rule component downwards

apply_plus dropped the sign of the diff, so in a rule with two decreasing
blocks the one that does not run out first grew instead of shrinking (and a
sum beyond 64 bits wrapped in release builds).
---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..4974d9e 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -170,9 +170,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        count.checked_add(mult)
+    }
 }
-- 
2.43.0


From ed3d1f4c3edd278cb628ffddda323953bc9ef2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 02/23] fix: leave the tape alone when a rule overflows

apply_rule wrote the first counts before a later one overflowed, returned
None, and the caller carried on from the half-updated tape.
---
 src/rules.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rules.rs b/src/rules.rs
index 4974d9e..d47cf8b 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -150,6 +150,8 @@ pub fn apply_rule(
 ) -> Option<Count> {
     let (times, min_pos, min_res) = count_apps(rule, tape)?;
 
+    let mut results = vec![];
+
     for (pos, diff) in rule {
         let result = match *diff {
             Op::Plus(plus) => {
@@ -163,6 +165,10 @@ pub fn apply_rule(
             Op::Mult(_) => unimplemented!(),
         };
 
+        results.push((pos, result));
+    }
+
+    for (pos, result) in results {
         tape.set_count(pos, result);
     }
 
-- 
2.43.0


From 5ab355e2c2cfe478da0162bdc8053326d97d9fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 03/23] fix: segment_cant_halt: count states and colours an
 instruction leads to

The parameters were taken from the defined slots alone, so a state or colour
which is entered or printed but has no instruction at all was not a halt: the
call answered 'cannot halt' for machines that halt there, or panicked.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..913a9cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,12 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |(ms, mc), (&(ss, sc), &(ic, _, is))| {
+                (ms.max(ss).max(is), mc.max(sc).max(ic))
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0


From 9e3385993777b7a259fea638d3996a1845a1a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 04/23] fix: 2 ** n is less than k + 2 ** n for positive k

Exp.__lt__ dropped the integer of a sum, also when what is left is the
number itself, so that E < 1 + E was answered with False.
---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..073a106 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -1137,7 +1137,7 @@ class Exp(Num):
             l, r = other.l, other.r
 
             if isinstance(l, int):  # no-branch
-                return self < r
+                return 0 < l if self == r else self < r
 
         elif isinstance(other, Mul):
             l, r = other.l, other.r
-- 
2.43.0


From 02345d10a1f03fea7e22d2b1d0d985970210959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 05/23] fix: a negative common factor turns an inequality
 around

-2 ** 60 < -2 ** 61 was answered by comparing 2 ** 60 with 2 ** 61.
---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 073a106..eca0ab1 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -586,16 +586,16 @@ class Mul(Num):
             lo, ro = other.l, other.r
 
             if l == lo:
-                return r < ro
+                return r < ro if 0 < l else ro < r
 
             if r == ro:
-                return l < lo
+                return l < lo if 0 < r else lo < l
 
             if l == ro:  # no-cover
-                return r < lo
+                return r < lo if 0 < l else lo < r
 
             if r == lo:  # no-cover
-                return l < ro
+                return l < ro if 0 < r else ro < l
 
             if self.is_exp_coef and other.is_exp_coef:
                 # pylint: disable = line-too-long, no-else-return
-- 
2.43.0


From a16147f047f3d9d29cbf26670f075061e9362742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 06/23] fix: 2 ** 4k is 16 modulo 30, not 15

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index eca0ab1..e674823 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
-- 
2.43.0


From 9b323ab8e4402db2cf17d4ebe4e6aacf5e214370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 07/23] fix: odd powers of 3 are 3 modulo 4, not 1

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index e674823..b28f532 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -912,7 +912,7 @@ class Exp(Num):
                     return 3
 
                 if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                    exp %= 2 ** max(int(log_mod) - 2, 1)
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From a51559a2cea1c53cd76c72f9d0b87cbb98b38c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 08/23] fix: macro parameters count states and colours only led
 to

A block of a partial program that prints a colour without a column of
its own was numbered in too small a base, so that different blocks got
the same number, e.g. 0RB ... ...  1LA 2LA ... with back-symbols.
---
 tm/macro.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..738c2d3 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,13 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max((
+            max(state, trans)
+            for (state, _), (_, _, trans) in comp.items()), default = 0)
+
+        base_colors = 1 + max((
+            max(color, pr)
+            for (_, color), (pr, _, _) in comp.items()), default = 0)
 
     return base_states, base_colors
 
-- 
2.43.0


From 11e0beecda7467b92c8152bb78681a8c202eb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:24 +0000
Subject: [PATCH 09/23] fix: no rule from counts that do not fit its type

---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index d47cf8b..7bebaf4 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -82,9 +82,13 @@ pub fn make_rule(
 
     for (s, spans) in countses.iter().enumerate() {
         for (i, &(a, b, c, d)) in spans.iter().enumerate() {
-            match calculate_diff(
-                a as Diff, b as Diff, c as Diff, d as Diff,
-            ) {
+            let [Ok(a), Ok(b), Ok(c), Ok(d)] =
+                [a, b, c, d].map(Diff::try_from)
+            else {
+                return None;
+            };
+
+            match calculate_diff(a, b, c, d) {
                 None => continue,
                 Some(DiffResult::Unknown) => {
                     return None;
-- 
2.43.0


From 5ea00d5cd723374520e54fbdb70a8749d794bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 10/23] fix: a rule that cannot be applied leaves the tape as
 it was (Python)

---
 tm/rules.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tm/rules.py b/tm/rules.py
index 6b007ad..cf3f11d 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -290,6 +290,8 @@ def apply_rule(rule: Rule, tape: IndexTape) -> Count | None:
 
     times, min_pos, min_res = apps
 
+    results = []
+
     for pos, diff in rule.items():
         count = tape.get_count(pos)
 
@@ -305,6 +307,9 @@ def apply_rule(rule: Rule, tape: IndexTape) -> Count | None:
             case ops:
                 result = apply_ops(count, times, ops) # type: ignore
 
+        results.append((pos, result))
+
+    for pos, result in results:
         tape.set_count(pos, result)
 
     return times
-- 
2.43.0


From 41bb639a704d1dc5988cbacdde76d24518d5fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 11/23] fix: sum of quotients when neither denominator divides
 the other

---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index b28f532..87ba3e9 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -719,7 +719,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From 296dcdb91aa75a3f61603a0319e1e58dbb2bf382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:37 +0000
Subject: [PATCH 12/23] fix: a multiplicative rule has one factor

---
 tm/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/rules.py b/tm/rules.py
index cf3f11d..a2afaf6 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -109,8 +109,8 @@ def calculate_diff(*counts: Count) -> Op | None:
 
     div_diff = count_2 - (count_1 * (1 + div))
 
-    if all(aft - (bef * (1 + divv)) == div_diff
-           for bef, aft, divv, _ in divmods):
+    if all(aft - (bef * (1 + div)) == div_diff
+           for bef, aft, _, _ in divmods):
         return 1 + div, div_diff
 
     for add, sub in POSSIBLE_RULE_PAIRS:
-- 
2.43.0


From 28b63be3fe899a5a4cd8931743e7649e93d6e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:43 +0000
Subject: [PATCH 13/23] fix: an exponent is only taken of a power of the same
 base

---
 tm/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/rules.py b/tm/rules.py
index a2afaf6..273c5e0 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -360,7 +360,7 @@ def apply_ops(count: Count, times: Count, ops: OpSeq) -> Count:
                     )
 
                 case '~':  # no-branch
-                    if not isinstance(result, Exp):
+                    if not isinstance(result, Exp) or result.base != val:
                         raise RuleLimit('inapplicable_op')
 
                     result = result.exp
-- 
2.43.0


From 2fdee19d4d133ddaf0349afe594f55f537b8465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:05 +0000
Subject: [PATCH 14/23] fix: normalizing keeps the program's behaviour (cinch,
 empty rows and columns)

---
 tools/normalize.py | 47 ++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/tools/normalize.py b/tools/normalize.py
index fe3a52d..bb680c8 100644
--- a/tools/normalize.py
+++ b/tools/normalize.py
@@ -178,7 +178,7 @@ class Normalizer:
         return self
 
     def normalize_directions(self) -> Self:
-        if (index := self[0, 0]) is None or index[1]:
+        if (index := self.prog[0][0]) is None or index[1]:
             return self
 
         for slot, (color, shift, state) in self.used_instr_slots:
@@ -187,44 +187,47 @@ class Normalizer:
         return self
 
     def cinch(self) -> None:
-        for state in self.states:  # no-branch
-            if (instr := self.prog[state][0]) is None or instr[0] == 0:
-                continue
+        state = 0
 
-            if state != 0:
-                self.swap_states(0, state)
+        for _ in self.states:  # no-branch
+            if (instr := self.prog[state][0]) is None:
+                return
+
+            if instr[0] != 0:
+                break
 
+            if (state := instr[2]) not in self.states:
+                return
+        else:
             return
 
+        if state != 0:
+            self.swap_states(0, state)
+
     def cut_unused_states(self) -> None:
-        states_to_del = {
-            state
-            for state, switch in self.prog.items()
-            if all(switch[color] is None for color in self.colors)
-        }
+        for state in sorted(self.states, reverse = True)[:-1]:
+            if (any(trans == state for _, _, trans in self.used_instructions)
+                    and any(self.prog[state].values())):
+                break
 
-        for state in states_to_del:
             del self.prog[state]
 
-        for state in sorted(self.states, reverse = True)[:-1]:
-            if not any(state in instr
-                       for instr in self.used_instructions):
-                del self.prog[state]
-
     def cut_unused_colors(self) -> None:
-        for color in self.colors:
+        for color in sorted(self.colors, reverse = True)[:-1]:
             if any(sw[color] is not None for sw in self.prog.values()):
-                continue
+                break
 
             for switch in self.prog.values():
                 del switch[color]
 
     def normalize(self) -> Self:
+        self.cinch()
+
         for _ in self.colors:
             self.normalize_states()
             self.normalize_colors()
-            self.cut_unused_states()
-            self.cut_unused_colors()
-            self.cinch()
+
+        self.cut_unused_states()
+        self.cut_unused_colors()
 
         return self.normalize_directions()
-- 
2.43.0


From 50673d97fcbca42c7b9c09a44a1bc0b067dacfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:18 +0000
Subject: [PATCH 15/23] fix: tree_norm names in the order of visits and stops
 where the program does

---
 tools/tree_norm.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/tree_norm.py b/tools/tree_norm.py
index 4351abd..8b449f1 100644
--- a/tools/tree_norm.py
+++ b/tools/tree_norm.py
@@ -16,20 +16,21 @@ def tree_norm(prog: str) -> str:
         if state == avail_state:
             avail_state += 1
         elif state > avail_state:
-            norm.swap_states(state, avail_state)
-            avail_state = state
+            return tree_norm(str(norm.swap_states(state, avail_state)))
 
         if (scan := tape.scan) == avail_color:
             avail_color += 1
         elif scan > avail_color:
-            norm.swap_colors(scan, avail_color)
-            avail_color = scan
+            return tree_norm(str(norm.swap_colors(scan, avail_color)))
 
         if (avail_state >= len(norm.states)
                 and avail_color >= len(norm.colors)):
             break
 
-        color, shift, next_state = norm[state, scan]
+        try:
+            color, shift, next_state = norm[state, scan]
+        except KeyError:
+            break
 
         tape.step(shift, color, state == next_state)
 
-- 
2.43.0


From f64c9fc4166a6acd9844bf01708bafb71080cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:21 +0000
Subject: [PATCH 16/23] fix: states H, L and R of generated C do not clash with
 machine.h

---
 tools/c.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/c.py b/tools/c.py
index b6c01b9..3d5e5c0 100644
--- a/tools/c.py
+++ b/tools/c.py
@@ -10,6 +10,11 @@ if TYPE_CHECKING:
     from tm.parse import Color, Shift, State, Instr
 
 
+def show_label(st: State) -> str:
+    # taken by machine.h
+    return f'{label}_' if (label := show_state(st)) in 'HLR' else label
+
+
 def make_comment(st: State, co: Color) -> str:
     return f'// {show_state(st)}{co}'
 
@@ -19,7 +24,7 @@ def make_shift(sh: Shift) -> str:
 
 
 def make_trans(tr: State) -> str:
-    return f'goto {show_state(tr) if 0 <= tr else "_"};'
+    return f'goto {show_label(tr) if 0 <= tr else "_"};'
 
 
 def make_binary_write(pr: Color) -> str:
@@ -159,7 +164,7 @@ def make_switch(state: State, instrs: tuple[Instr, ...]) -> str:
 
 
 def make_label(state: State) -> str:
-    return f' {show_state(state)}:'
+    return f' {show_label(state)}:'
 
 
 def parse_prog(prog: str) -> list[tuple[State, Switch]]:
-- 
2.43.0


From a7f24b55e32710422e18605d0fa60abde074351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 17/23] fix: B3 of 3932964.c prints 1 as its table says

---
 machines/structured/3932964.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index 55a6951..9153dbb 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -56,6 +56,7 @@ int main(void)
   }
 
   // B3
+  WRITE(1);
   RIGHT;
 
  H:
-- 
2.43.0


From b369f9d07544ff92af06ed39efb1857a89677369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 18/23] fix: four structured machines have the cells they use

---
 machines/structured/2315619.c  | 2 +-
 machines/structured/2333909.c  | 2 +-
 machines/structured/32779477.c | 2 +-
 machines/structured/3932964.c  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/structured/2315619.c b/machines/structured/2315619.c
index 22935e1..ba82a62 100644
--- a/machines/structured/2315619.c
+++ b/machines/structured/2315619.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LB 1LC  1LA 2RB 1RB  1R_ 2LA 0LC"
 
-#define TAPELEN 48
+#define TAPELEN 96
 
 #include "machine.h"
 
diff --git a/machines/structured/2333909.c b/machines/structured/2333909.c
index 490b2fe..9bfc3c9 100644
--- a/machines/structured/2333909.c
+++ b/machines/structured/2333909.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2RB 1LB 1LA  1LB 3RA 3LA 2RB"
 
-#define TAPELEN 4065
+#define TAPELEN 8130
 
 #include "machine.h"
 
diff --git a/machines/structured/32779477.c b/machines/structured/32779477.c
index b37dfec..9cb1d1e 100644
--- a/machines/structured/32779477.c
+++ b/machines/structured/32779477.c
@@ -1,4 +1,4 @@
-#define TAPELEN 20000
+#define TAPELEN 40000
 
 #include "machine.h"
 
diff --git a/machines/structured/3932964.c b/machines/structured/3932964.c
index 9153dbb..50945ac 100644
--- a/machines/structured/3932964.c
+++ b/machines/structured/3932964.c
@@ -1,6 +1,6 @@
 #define PROGRAM "1RB 2LA 1RA 1RA  1LB 1LA 3RB 1RH"
 
-#define TAPELEN 2080
+#define TAPELEN 4160
 
 #include "machine.h"
 
-- 
2.43.0


From 68b3ec161e4899c88b004868b5829730ba6fbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 19/23] fix: 2-4.c counts the steps to a spinout in B as in A

---
 machines/2-4.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/machines/2-4.c b/machines/2-4.c
index 9093f44..9e59f2f 100644
--- a/machines/2-4.c
+++ b/machines/2-4.c
@@ -45,7 +45,6 @@ int main (void) {
               a3c, a3s, a3t);
 
  B:
-  CHECK_RECUR(b0s, b0t, 1);
   INSTRUCTION(1, b0c, b0s, b0t,
               b1c, b1s, b1t,
               b2c, b2s, b2t,
-- 
2.43.0


From cc8fe24ba3bee3abd8f7150304f8defbb1fc2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:48 +0000
Subject: [PATCH 20/23] fix: the tape of the enumerators has a cell for the
 last step

---
 machines/machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/machine.h b/machines/machine.h
index e39a23f..d4c0825 100644
--- a/machines/machine.h
+++ b/machines/machine.h
@@ -7,7 +7,7 @@
   unsigned int STEPS;                           \
   unsigned int PROG_NUM = 0;
 
-#define TAPE_LEN (XLIMIT * 2)
+#define TAPE_LEN (XLIMIT * 2 + 2)
 
 #define CENTER_SQUARE (TAPE_LEN / 2)
 
-- 
2.43.0


From 817d863884d3b4235dd8a95c009ad8fddba33006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 21/23] fix: just_so.py printed from its workers, so lines were
 merged or lost

Two prints of different processes could fall between each other, and what a
worker still had in its buffer when the pool was terminated was lost.
---
 just_so.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/just_so.py b/just_so.py
index b1a2f6d..27007bc 100644
--- a/just_so.py
+++ b/just_so.py
@@ -15,11 +15,11 @@ CYCLES = 2_000
 CANT_REACH = cant_spin_out
 
 
-def worker(prog: str) -> None:
+def worker(prog: str) -> str | None:
     if CANT_REACH(prog, CYCLES) is not None:
-        return
+        return None
 
-    print(prog.strip())
+    return prog.strip()
 
 
 if __name__ == '__main__':
@@ -47,4 +47,6 @@ if __name__ == '__main__':
         CANT_REACH = segment_cant_halt  # type: ignore[assignment]
 
     with Pool() as pool:
-        pool.map(worker, sys.stdin)
+        for prog in pool.imap(worker, sys.stdin):
+            if prog is not None:
+                print(prog)
-- 
2.43.0


From 9c650ee9f0dc8b4193b5b67b50ad3c15b4cf702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:44 +0000
Subject: [PATCH 22/23] fix: dump_graphs.py took the line end for part of the
 file name

---
 dump_graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dump_graphs.py b/dump_graphs.py
index 50f5901..3c63596 100644
--- a/dump_graphs.py
+++ b/dump_graphs.py
@@ -8,7 +8,9 @@ from tools.dot import make_dot
 if __name__ == '__main__':
     _, path = tempfile.mkstemp()
 
-    for prog in sys.stdin:
+    for line in sys.stdin:
+        prog = line.strip()
+
         with open(path, 'w') as temp:
             temp.write(make_dot(prog))
 
-- 
2.43.0


From 5b69fbd02453ef37f909ca97c5c8271168dab362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:39 +0000
Subject: [PATCH 23/23] fix: no graph could be drawn of a program with nine or
 ten colours

---
 tools/dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dot.py b/tools/dot.py
index edd81bf..377a14f 100644
--- a/tools/dot.py
+++ b/tools/dot.py
@@ -21,7 +21,7 @@ def make_dot(prog: str) -> str:
     ]) if len(prog) < 50 else ''
 
     edges: str = '\n'.join([
-        f'  {conv(node)} -> {conv(target)} [ color=" {COLORS[i]}" ];'
+        f'  {conv(node)} -> {conv(target)} [ color=" {COLORS[i % len(COLORS)]}" ];'
         for node, targets in sorted(Graph(prog).arrows.items())
         for i, target in enumerate(targets)
         if target is not None
-- 
2.43.0

