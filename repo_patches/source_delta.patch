From 57c356f08c7c3befc759805bda7e666545ffceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 01/19] fix: use the width as row stride on non-square boards

Row-major indices were computed with the height, so on a board whose height
and width differ distinct points shared one index (2x3: (0,2) and (1,0)).
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 47324ffc1581115340cbc849500361e3ba1e8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 02/19] fix: to_vec and matrix return the board, not the whole
 19x19 storage

On boards smaller than 19x19 both returned 361 points, so matrix had extra
rows and a board could not be rebuilt from its own to_vec.
---
 src/pieces/goban.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..ee98ef9 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -95,7 +95,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.points()
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +108,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.points().chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
@@ -143,6 +143,12 @@ impl Goban {
         &self.board
     }
 
+    /// The points of this board, without the unused rest of the storage.
+    #[inline]
+    fn points(&self) -> &[Option<NonMaxU16>] {
+        &self.board[..self.size.0 as usize * self.size.1 as usize]
+    }
+
     /// pushes the stone
     /// # Arguments
     /// point: the point where the stone will be placed
-- 
2.43.0


From 6a77ab3fcb8e2fd660873e4ef887b6e16942ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 03/19] fix: lists of empty points and of points by colour

get_empty_idx returned the occupied points; get_coords_by_color(EMPTY)
returned every point, and on boards above 255 points its u8 product (like the
one in pseudo_legals_vec) overflowed.
---
 src/pieces/goban.rs | 15 ++++++---------
 src/rules/game.rs   |  2 +-
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index ee98ef9..d019d01 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -372,10 +372,11 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.points()
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter(|(_, group)| group.is_none())
+            .map(|(idx, _)| idx)
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
@@ -396,13 +397,9 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
-            match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
-                Some(c) => self.board[board_idx]
-                    .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
-                    .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-                    .unwrap_or(()),
+        for board_idx in 0..self.points().len() {
+            if self.get_color(board_idx) == color {
+                res.push(one_to_2dim(self.size, board_idx));
             }
         }
         res.into_iter()
diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 715590e7d5fe7a5f95a313f29b335996ad4f3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 04/19] fix: a play that captures nothing is not a ko

Under a rule that permits suicide, playing back into a point where a single
stone was just captured by a group not in atari was refused as ko, although it
restores no earlier position.
---
 src/rules/game.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..dc4cca2 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -399,14 +399,18 @@ impl Game {
     /// If the goban is in the configuration of two plays ago returns true
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
-        self.ko_point == Some(stone.coord)
-            && !self
-                .goban
-                .get_connected_groups(stone.coord)
-                .into_iter()
-                .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
-                })
+        if self.ko_point != Some(stone.coord) {
+            return false;
+        }
+        let mut captured = self
+            .goban
+            .get_connected_groups(stone.coord)
+            .into_iter()
+            .filter(|neighbor_go_string| neighbor_go_string.is_atari())
+            .peekable();
+        // A play that captures nothing doesn't bring the position back.
+        captured.peek().is_some()
+            && captured.all(|neighbor_go_string| neighbor_go_string.num_stones == 1)
     }
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
-- 
2.43.0


From 7bbfa88f9b2878e80b8cf297b8fd50a0afd562f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 05/19] fix: superko misses repetitions early in a game and by
 suicide; preview of a suicide

---
 src/rules/game.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index dc4cca2..03deb29 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -199,14 +199,18 @@ impl Game {
     
     /// Plays a move then return the simulated goban,
     /// used in legals for fast move simulation in Super Ko situations.
-    pub fn play_for_verification(&self, (x, y): Coord) -> Goban {
+    pub fn play_for_verification(&self, coord: Coord) -> Goban {
+        self.simulate(
+            coord,
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+        )
+    }
+
+    /// The goban after a play of the current player, removing the stones of a suicide or not.
+    fn simulate(&self, coord: Coord, suicide_allowed: bool) -> Goban {
         let mut test_goban = self.goban.clone();
-        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
-        test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
-            &dead_go_strings,
-            added_ren,
-        );
+        let (dead_go_strings, added_ren) = test_goban.push_wth_feedback(coord, self.turn);
+        test_goban.remove_captured_stones_aux(suicide_allowed, &dead_go_strings, added_ren);
         test_goban
     }
 
@@ -415,14 +419,12 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
+        // Only a play that removes stones can bring back a configuration.
+        if !self.will_capture(stone.coord) && !self.check_suicide(stone) {
             false
         } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+            let to_check = self.simulate(stone.coord, true);
+            self.check_ko(stone) || to_check == self.goban || self.history.contains(&to_check)
         }
     }
 
-- 
2.43.0


From 6abf5cd724a46968cebe068ae167391e996c8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 06/19] fix: reuse the slots of removed groups, a board ran out
 of group indexes

---
 src/pieces/group.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..d1b6f08 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,16 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        match self.0.iter().position(Option::is_none) {
+            Some(free_spot) => {
+                self.0[free_spot] = Some(group);
+                free_spot
+            }
+            None => {
+                self.0.push(Some(group));
+                self.0.len() - 1
+            }
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From 4ddb4e6bef62d66a5a5aaef3c0fdbab15e73a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 07/19] fix: plays outside the board panic as documented, on
 every board size

---
 src/pieces/goban.rs | 4 ++--
 src/rules/game.rs   | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index d019d01..dc6a177 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -279,12 +279,12 @@ impl Goban {
     /// # Panics
     /// if the point is out of bounds
     pub fn push(&mut self, point: Coord, color: Color) -> &mut Self {
-        debug_assert!(
+        assert!(
             (point.0) < self.size.0,
             "Coordinate point.0 {} out of bounds",
             point.0
         );
-        debug_assert!(
+        assert!(
             (point.1) < self.size.1,
             "Coordinate point.1 {} out of bounds",
             point.1
diff --git a/src/rules/game.rs b/src/rules/game.rs
index 03deb29..d74e6ec 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -180,6 +180,10 @@ impl Game {
                 self
             }
             Move::Play(x, y) => {
+                assert!(
+                    is_coord_valid(self.size(), (x, y)),
+                    "Coordinates ({x}, {y}) out of bounds"
+                );
                 //let hash = self.goban.zobrist_hash();
                 self.history.insert(self.goban.clone());
                 let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);
-- 
2.43.0


From a65cbfbc01b74e4b249425c1df51e531d31d637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 08/19] fix: get_floating_stones returns the groups without two
 eyes

---
 src/pieces/goban.rs      |  6 ++++++
 src/rules/dead_stones.rs | 23 ++++++-----------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index dc6a177..e72595f 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,12 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// The indexes of the groups in the goban.
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_idx(&self) -> impl Iterator<Item = GroupIdx> + '_ {
+        self.chains.iter_with_index().map(|(idx, _)| idx)
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..60978c9 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -141,26 +141,15 @@ impl Game {
                 color: Color::White,
             })
         });
-        let mut chains_wth_eye = HashMap::new();
+        let mut nb_eyes = HashMap::new();
         for eye_coord in eyes {
-            let chain_connected_eye = self.goban.get_connected_groups_idx(eye_coord);
-            for chain_idx in chain_connected_eye {
-                chains_wth_eye
-                    .entry(chain_idx)
-                    .and_modify(|v| *v += 1)
-                    .or_insert(0);
+            for chain_idx in self.goban.get_connected_groups_idx(eye_coord) {
+                *nb_eyes.entry(chain_idx).or_insert(0) += 1;
             }
         }
-        let all_chains = self.goban.chains().enumerate();
-        let string_with_2eyes = chains_wth_eye
-            .into_iter()
-            .filter(|(_, v)| *v >= 2)
-            .map(|x| x.0)
-            .collect::<HashSet<_>>();
-
-        all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
-            .map(|(idx, _chain)| idx)
+        self.goban
+            .chains_idx()
+            .filter(|chain_idx| nb_eyes.get(chain_idx).map_or(true, |&nb| nb < 2))
             .collect()
     }
 
-- 
2.43.0


From 4aa2a42cb7dd88895e5e7d2b7a306e430ef667d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 09/19] fix: dead stones analysis panicked when a rollout was a
 draw

---
 src/rules/dead_stones.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 60978c9..eeb2d00 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 use crate::pieces::goban::GroupIdx;
 use crate::pieces::stones::Stone;
 use crate::rules::game::Game;
-use crate::rules::{Color, IllegalRules, Move};
+use crate::rules::{Color, EndGame, IllegalRules, Move};
 use oxymcts::{
     uct_value, DefaultBackProp, DefaultLazyTreePolicy, Evaluator, GameTrait, LazyMcts,
     LazyMctsNode, Num, Playout,
@@ -79,11 +79,10 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
-            1
-        } else {
-            0
+        // A draw is not a win.
+        match child.outcome().and_then(EndGame::get_winner) {
+            Some(winner) if winner == *turn => 1,
+            _ => 0,
         }
     }
 }
-- 
2.43.0


From c0dd2af4bab0bfe1e7fd5cecf86c968d03f4b385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 10/19] fix: dead stones analysis never ended when the rollouts
 could cycle

---
 src/rules/dead_stones.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index eeb2d00..a4a4515 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -154,6 +154,8 @@ impl Game {
 
     pub fn dead_stones_wth_simulations(&self, nb_simulations: usize) -> HashSet<GroupIdx> {
         let mut game = self.clone();
+        // Without superko the rollouts could cycle forever.
+        game.rule.flag_illegal |= IllegalRules::SUPERKO;
         let floating_stones = self.get_floating_stones();
         while !game.is_over() {
             let m = {
-- 
2.43.0


From 93a1acfc83a72a2cbe50341dfaf5ef129f681dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 11/19] fix: builder panicked on a move list that goes on after
 two passes with a pass

---
 src/rules/game_builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..df6809d 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -136,6 +136,10 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            // A move after two passes means that the game was resumed.
+            if g.passes >= 2 {
+                g.resume();
+            }
             g.play(m);
         }
 
-- 
2.43.0


From 0246c2a91fc67afaa1fa580781e0ee479e6bda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 12/19] fix: builder reports invalid sizes, points and moves as
 errors

---
 src/rules/game_builder.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index df6809d..28a73cd 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -97,16 +97,21 @@ impl GameBuilder {
     }
 
     fn build_inner(mut self) -> Result<Game, String> {
+        if !matches!(self.size, (1..=19, 1..=19)) {
+            return Err(format!("The size {:?} is not handled", self.size));
+        }
         let mut goban: Goban = Goban::new(self.size);
 
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_free_point(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_free_point(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -140,6 +145,9 @@ impl GameBuilder {
             if g.passes >= 2 {
                 g.resume();
             }
+            if let Move::Play(x, y) = m {
+                check_free_point(&g.goban, (x, y))?;
+            }
             g.play(m);
         }
 
@@ -153,6 +161,17 @@ impl GameBuilder {
     }
 }
 
+/// A stone can only be put on an empty point of the board.
+fn check_free_point(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board"))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is not empty"))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
-- 
2.43.0


From 25100b104ccfe05a13bb54c3ede0dba0c420a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 13/19] fix: SGF sizes are columns by rows

---
 src/rules/sgf_bridge.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..f997094 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,11 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            // SGF gives the columns first.
+                            match (u8::try_from(*y), u8::try_from(*x)) {
+                                (Ok(height), Ok(width)) => game_builder.size((height, width)),
+                                _ => return Err(format!("The size {x}:{y} is not handled")),
+                            };
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From 3eda1cfbe0bacac8b81c54f342a281ba47a4eac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 14/19] fix: SGF import reports invalid records as errors

---
 src/rules/sgf_bridge.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index f997094..8e36b06 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -42,21 +42,30 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                // 0 is not a point, it wraps to a point outside the board.
+                                coord: (y.wrapping_sub(1) as Nat, x.wrapping_sub(1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
                                 },
                             });
                         }
-                        SgfToken::Rule(rule) => {
+                        SgfToken::Rule(rule @ (RuleSet::Japanese | RuleSet::Chinese)) => {
                             game_builder.rule(rule.clone().into());
                         }
+                        SgfToken::Rule(rule) => {
+                            return Err(format!(
+                                "The rule {} is not implemented yet !",
+                                rule.to_string()
+                            ));
+                        }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The record is not a game of Go".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -72,7 +81,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player to play {value}")),
                                 }
                             }
                         }
@@ -125,7 +134,10 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            // 0 is not a point, it wraps to a point outside the board.
+            Action::Move(col, line) => {
+                Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat)
+            }
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From 5f5d218893833fcdc5a9c7dc4947fdaed8d9db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 15/19] fix: SGF tt is a pass

---
 src/rules/sgf_bridge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 8e36b06..bb1932d 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -134,6 +134,8 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
+            // On boards up to 19x19 the point "tt" is a pass.
+            Action::Move(20, 20) => Move::Pass,
             // 0 is not a point, it wraps to a point outside the board.
             Action::Move(col, line) => {
                 Move::Play(line.wrapping_sub(1) as Nat, col.wrapping_sub(1) as Nat)
-- 
2.43.0


From df3452a45b1645edda96612d4eaa8d6bda793b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 16/19] fix: SGF moves were only read when first in their node

---
 src/rules/sgf_bridge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index bb1932d..1f9ee04 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -88,8 +88,9 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
+            }
+            // The move can stand anywhere among the properties of the node.
+            for token in &node.tokens {
                 if let SgfToken::Move { action, .. } = token {
                     moves.push((*action).into());
                 }
-- 
2.43.0


From 6e35c5d82ca9933ea3f439ae9ca061f985d72e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 17/19] fix: SGF moves are played with their recorded colour

---
 src/rules/game_builder.rs | 16 +++++++++++++---
 src/rules/sgf_bridge.rs   |  6 +++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index 28a73cd..b207dc4 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -34,14 +34,21 @@ pub struct GameBuilder {
     handicap: Option<u32>,
     handicap_points: Vec<Coord>,
     turn: Option<Color>,
-    moves: Vec<Move>,
+    /// The moves with their player, if None it's the turn of the other player.
+    moves: Vec<(Option<Color>, Move)>,
     outcome: Option<EndGame>,
     setup: Vec<Stone>,
 }
 
 impl GameBuilder {
     pub fn moves(&mut self, moves: &[Move]) -> &mut Self {
-        self.moves = moves.to_vec();
+        self.moves = moves.iter().map(|&m| (None, m)).collect();
+        self
+    }
+
+    /// Moves with the player who played each of them.
+    pub(super) fn moves_by(&mut self, moves: Vec<(Option<Color>, Move)>) -> &mut Self {
+        self.moves = moves;
         self
     }
 
@@ -140,7 +147,10 @@ impl GameBuilder {
         };
 
         // Moves to play
-        for &m in &self.moves {
+        for &(player, m) in &self.moves {
+            if let Some(player) = player {
+                g.turn = player;
+            }
             // A move after two passes means that the game was resumed.
             if g.passes >= 2 {
                 g.resume();
diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 1f9ee04..e4b66cf 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -91,12 +91,12 @@ impl Game {
             }
             // The move can stand anywhere among the properties of the node.
             for token in &node.tokens {
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
+                if let SgfToken::Move { color, action } = token {
+                    moves.push((Some((*color).into()), (*action).into()));
                 }
             }
         }
-        game_builder.moves(&moves);
+        game_builder.moves_by(moves);
         game_builder.build()
     }
 }
-- 
2.43.0


From 2a16b439bd9a7dd149fd515e8cd3aba0c8d6df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 18/19] fix: SGF records may start with a blank line

---
 src/rules/sgf_bridge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index e4b66cf..180e18e 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -10,7 +10,8 @@ type SgfColor = sgf_parser::Color;
 
 impl Game {
     pub fn from_sgf(sgf_str: &str) -> Result<Self, String> {
-        let game_tree = match sgf_parser::parse(sgf_str) {
+        // The parser does not skip the blank lines before the record.
+        let game_tree = match sgf_parser::parse(sgf_str.trim_start()) {
             Ok(game) => Ok(game),
             Err(e) => Err(e.to_string()),
         }?;
-- 
2.43.0


From 4706aeef3fb4234430406d6f4128f19f55568abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 19/19] fix: superko misses repetitions by a play that captures
 nothing

---
 src/rules/game.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index d74e6ec..e789f47 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -423,8 +423,11 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        // Only a play that removes stones can bring back a configuration.
-        if !self.will_capture(stone.coord) && !self.check_suicide(stone) {
+        // Without any stone removed, by this play or before it, the board only ever filled up.
+        if self.prisoners == (0, 0)
+            && !self.will_capture(stone.coord)
+            && !self.check_suicide(stone)
+        {
             false
         } else {
             let to_check = self.simulate(stone.coord, true);
-- 
2.43.0

