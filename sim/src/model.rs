//! Reference model: Go on a plain array of cells, everything recomputed from scratch.

use crate::rng::{fnv, FNV0};

pub const KO: u8 = 1;
pub const SUPERKO: u8 = 2;
pub const SUICIDE: u8 = 4;
pub const FILLEYE: u8 = 8;

pub const S_STONES: u8 = 1;
pub const S_KOMI: u8 = 2;
pub const S_PRIS: u8 = 4;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Board {
    pub h: usize,
    pub w: usize,
    /// 0 empty, 1 black, 2 white; row-major
    pub c: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct Grp {
    pub color: u8,
    pub stones: Vec<usize>,
    pub libs: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Effect {
    pub board: Board,
    pub captured: Vec<usize>,
    /// own group has no liberty after captures
    pub suicide: bool,
    /// own stones removed (only if suicide is permitted)
    pub own_removed: Vec<usize>,
}

impl Board {
    pub fn new(h: usize, w: usize) -> Self {
        Board { h, w, c: vec![0; h * w] }
    }

    pub fn n(&self) -> usize {
        self.c.len()
    }

    pub fn nbrs(&self, i: usize) -> impl Iterator<Item = usize> {
        let (r, c, h, w) = (i / self.w, i % self.w, self.h, self.w);
        let mut a = [usize::MAX; 4];
        if r > 0 {
            a[0] = i - w;
        }
        if r + 1 < h {
            a[1] = i + w;
        }
        if c > 0 {
            a[2] = i - 1;
        }
        if c + 1 < w {
            a[3] = i + 1;
        }
        a.into_iter().filter(|&x| x != usize::MAX)
    }

    /// Whether an empty point surely is (Some(true)) or surely is not (Some(false)) an eye of the
    /// colour: all eight points around it are of the colour, as far as they are on the board; a
    /// point beside it is not, or hostile stones hold its corners (one in the corner of the board,
    /// else two). None: that is left to the heuristic.
    pub fn plain_eye(&self, i: usize, color: u8) -> Option<bool> {
        if self.c[i] != 0 || self.nbrs(i).any(|q| self.c[q] != color) {
            return Some(false);
        }
        if self.nbrs(i).next().is_none() {
            return None;
        }
        let (r, c) = ((i / self.w) as i32, (i % self.w) as i32);
        let (mut own, mut hostile, mut all) = (0, 0, 0);
        for (dr, dc) in [(1, 1), (1, -1), (-1, -1), (-1, 1)] {
            let (y, x) = (r + dr, c + dc);
            if y >= 0 && x >= 0 && y < self.h as i32 && x < self.w as i32 {
                let k = self.c[y as usize * self.w + x as usize];
                all += 1;
                own += (k == color) as u8;
                hostile += (k == 3 - color) as u8;
            }
        }
        if own == all {
            Some(true)
        } else if hostile >= 2 || (all == 1 && hostile == 1) {
            Some(false)
        } else {
            None
        }
    }

    /// Connected region of equal cells, sorted; `edge` collects every adjacent other cell, sorted.
    pub fn region(&self, i: usize) -> (Vec<usize>, Vec<usize>) {
        let color = self.c[i];
        let mut seen = [0u64; 6];
        let mut edge_seen = [0u64; 6];
        let mut stack = vec![i];
        let mut stones = vec![];
        let mut edge = vec![];
        seen[i / 64] |= 1 << (i % 64);
        while let Some(p) = stack.pop() {
            stones.push(p);
            for q in self.nbrs(p) {
                if self.c[q] == color {
                    if seen[q / 64] >> (q % 64) & 1 == 0 {
                        seen[q / 64] |= 1 << (q % 64);
                        stack.push(q);
                    }
                } else if edge_seen[q / 64] >> (q % 64) & 1 == 0 {
                    edge_seen[q / 64] |= 1 << (q % 64);
                    edge.push(q);
                }
            }
        }
        stones.sort_unstable();
        edge.sort_unstable();
        (stones, edge)
    }

    pub fn group(&self, i: usize) -> Grp {
        let (stones, edge) = self.region(i);
        Grp { color: self.c[i], stones, libs: edge.into_iter().filter(|&q| self.c[q] == 0).collect() }
    }

    /// All groups ordered by their first stone.
    pub fn groups(&self) -> Vec<Grp> {
        let mut seen = vec![false; self.n()];
        let mut v = vec![];
        for i in 0..self.n() {
            if self.c[i] != 0 && !seen[i] {
                let g = self.group(i);
                for &s in &g.stones {
                    seen[s] = true;
                }
                v.push(g);
            }
        }
        v
    }

    pub fn has_dead(&self) -> bool {
        self.groups().iter().any(|g| g.libs.is_empty())
    }

    /// Effect of a play on an empty point.
    pub fn play(&self, i: usize, color: u8, suicide_permitted: bool) -> Effect {
        let mut b = self.clone();
        b.c[i] = color;
        let mut captured = vec![];
        for q in self.nbrs(i) {
            if b.c[q] == 3 - color {
                let g = b.group(q);
                if g.libs.is_empty() {
                    for &s in &g.stones {
                        b.c[s] = 0;
                    }
                    captured.extend(g.stones);
                }
            }
        }
        captured.sort_unstable();
        let own = b.group(i);
        let suicide = own.libs.is_empty();
        let mut own_removed = vec![];
        if suicide && suicide_permitted {
            for &s in &own.stones {
                b.c[s] = 0;
            }
            own_removed = own.stones;
        }
        Effect { board: b, captured, suicide, own_removed }
    }

    /// (black territory, white territory)
    pub fn territories(&self) -> (Vec<usize>, Vec<usize>) {
        let mut seen = vec![false; self.n()];
        let (mut b, mut w) = (vec![], vec![]);
        for i in 0..self.n() {
            if self.c[i] == 0 && !seen[i] {
                let (pts, edge) = self.region(i);
                for &p in &pts {
                    seen[p] = true;
                }
                let black = edge.iter().any(|&e| self.c[e] == 1);
                let white = edge.iter().any(|&e| self.c[e] == 2);
                if black && !white {
                    b.extend(pts);
                } else if white && !black {
                    w.extend(pts);
                }
            }
        }
        b.sort_unstable();
        w.sort_unstable();
        (b, w)
    }

    pub fn count(&self) -> (u32, u32) {
        (self.c.iter().filter(|&&x| x == 1).count() as u32, self.c.iter().filter(|&&x| x == 2).count() as u32)
    }

    pub fn hash64(&self) -> u64 {
        fnv(&self.c, fnv(&[self.h as u8, self.w as u8], FNV0))
    }

    pub fn draw(&self) -> String {
        let mut s = String::new();
        for r in 0..self.h {
            for c in 0..self.w {
                s.push(['.', 'X', 'O'][self.c[r * self.w + c] as usize]);
            }
            if r + 1 < self.h {
                s.push('/');
            }
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rules {
    pub flags: u8,
    pub sflags: u8,
    pub komi4: i32,
}

pub fn japanese() -> Rules {
    Rules { flags: KO | SUICIDE, sflags: S_KOMI | S_PRIS, komi4: 26 }
}

pub fn chinese() -> Rules {
    Rules { flags: KO | SUPERKO | SUICIDE, sflags: S_KOMI | S_STONES, komi4: 30 }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Score(u8, i64),
    Resign(u8),
    Time(u8),
    Forfeit(u8),
    Draw,
}

/// What the rules say may not be played, one bit per reason that applies.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Verdict {
    pub occupied: bool,
    pub suicide: bool,
    pub ko: bool,
    pub superko: bool,
}

impl Verdict {
    pub fn forbidden(&self, flags: u8) -> bool {
        self.occupied
            || (flags & SUICIDE != 0 && self.suicide)
            || (flags & KO != 0 && self.ko)
            || (flags & SUPERKO != 0 && self.superko)
    }
    pub fn repetition(&self, flags: u8) -> bool {
        !self.occupied && ((flags & KO != 0 && self.ko) || (flags & SUPERKO != 0 && self.superko))
    }
}

/// The game as the rules see it. `board` is re-read from the real game after every step, so that
/// every step is judged on its own.
#[derive(Clone, Debug)]
pub struct Track {
    pub rules: Rules,
    pub board: Board,
    pub turn: u8,
    pub passes: u32,
    pub pris: (u32, u32),
    pub placed: (u32, u32),
    /// boards from which plays were made, in order
    pub plays_from: Vec<Board>,
    /// the same as a set (hash -> indices)
    pub seen: std::collections::HashMap<u64, Vec<usize>, std::hash::BuildHasherDefault<IdH>>,
    /// distinct boards in order of first occurrence (indices in plays_from)
    pub distinct: Vec<usize>,
    /// the previous action if it was a play: (board before, point, stones captured, own removed)
    pub last: Option<(Board, usize, usize, usize)>,
    pub outcome: Option<End>,
}

#[derive(Default, Clone, Debug)]
pub struct IdH(u64);
impl std::hash::Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = fnv(b, self.0);
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}

impl Track {
    pub fn new(rules: Rules, board: Board, turn: u8) -> Self {
        let placed = board.count();
        Track {
            rules,
            board,
            turn,
            passes: 0,
            pris: (0, 0),
            placed,
            plays_from: vec![],
            seen: Default::default(),
            distinct: vec![],
            last: None,
            outcome: None,
        }
    }

    pub fn paused(&self) -> bool {
        self.passes >= 2
    }

    pub fn is_over(&self) -> bool {
        self.outcome.is_some() || self.paused()
    }

    pub fn suicide_permitted(&self) -> bool {
        self.rules.flags & SUICIDE == 0
    }

    pub fn was_seen(&self, b: &Board) -> bool {
        self.seen.get(&b.hash64()).map_or(false, |v| v.iter().any(|&i| self.plays_from[i] == *b))
    }

    pub fn effect(&self, p: usize) -> Effect {
        self.board.play(p, self.turn, self.suicide_permitted())
    }

    pub fn verdict(&self, p: usize) -> Verdict {
        if self.board.c[p] != 0 {
            return Verdict { occupied: true, suicide: false, ko: false, superko: false };
        }
        let raw = self.board.play(p, self.turn, true);
        let mut v = Verdict { occupied: false, suicide: raw.suicide, ko: false, superko: false };
        v.superko = raw.board == self.board || self.was_seen(&raw.board);
        if let Some((before, _, ncap, _)) = &self.last {
            v.ko = *ncap == 1 && raw.captured.len() == 1 && !raw.suicide && raw.board == *before;
        }
        v
    }

    /// Points that may be played under `flags` (FILLEYE left to the caller).
    pub fn legal(&self, flags: u8) -> Vec<usize> {
        (0..self.board.n()).filter(|&p| self.board.c[p] == 0 && !self.verdict(p).forbidden(flags)).collect()
    }

    /// Bookkeeping of an accepted play; `after` is the board really observed.
    pub fn played(&mut self, p: usize, e: &Effect, after: Board) {
        let h = self.board.hash64();
        let known = self.was_seen(&self.board);
        let idx = self.plays_from.len();
        if !known {
            self.distinct.push(idx);
            self.seen.entry(h).or_default().push(idx);
        }
        let before = std::mem::replace(&mut self.board, after);
        self.plays_from.push(before.clone());
        let cap = e.captured.len() as u32;
        let own = e.own_removed.len() as u32;
        if self.turn == 1 {
            self.pris.0 += cap;
            self.pris.1 += own;
            self.placed.0 += 1;
        } else {
            self.pris.1 += cap;
            self.pris.0 += own;
            self.placed.1 += 1;
        }
        self.last = Some((before, p, cap as usize, own as usize));
        self.turn = 3 - self.turn;
        self.passes = 0;
    }

    pub fn passed(&mut self) {
        self.passes += 1;
        self.turn = 3 - self.turn;
        self.last = None;
    }

    /// Scores in quarter points.
    pub fn score4(&self, sflags: u8) -> (i64, i64) {
        let (tb, tw) = self.board.territories();
        let (mut b, mut w) = (tb.len() as i64 * 4, tw.len() as i64 * 4);
        if sflags & S_PRIS != 0 {
            b += self.pris.0 as i64 * 4;
            w += self.pris.1 as i64 * 4;
        }
        if sflags & S_STONES != 0 {
            let (sb, sw) = self.board.count();
            b += sb as i64 * 4;
            w += sw as i64 * 4;
        }
        if sflags & S_KOMI != 0 {
            w += self.rules.komi4 as i64;
        }
        (b, w)
    }

    pub fn expected_outcome(&self) -> Option<End> {
        if self.outcome.is_some() {
            self.outcome
        } else if self.paused() {
            let (b, w) = self.score4(self.rules.sflags);
            Some(match b.cmp(&w) {
                std::cmp::Ordering::Equal => End::Draw,
                std::cmp::Ordering::Greater => End::Score(1, b - w),
                std::cmp::Ordering::Less => End::Score(2, w - b),
            })
        } else {
            None
        }
    }
}
