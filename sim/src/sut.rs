//! Adapter to the real library: conversions, guarded calls, observations.

use crate::model::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, IllegalRules, Move, Rule, ScoreRules, CHINESE, JAPANESE};
use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

/// Records panics instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = (msg, loc));
    }));
}

#[derive(Clone, Debug)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

impl std::fmt::Display for Panicked {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let loc = self.loc.rsplit("/src/").next().unwrap_or(&self.loc);
        write!(f, "panic '{}' at {}", self.msg.replace('\n', " "), loc)
    }
}

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| {
            let (msg, loc) = p.borrow().clone();
            Panicked { msg, loc }
        })
    })
}

pub fn col(c: u8) -> Color {
    if c == 1 {
        Color::Black
    } else {
        Color::White
    }
}

pub fn uncol(c: Color) -> u8 {
    match c {
        Color::Black => 1,
        Color::White => 2,
    }
}

pub fn cell(c: Option<Color>) -> u8 {
    c.map_or(0, uncol)
}

pub fn flags(f: u8) -> IllegalRules {
    let mut r = IllegalRules::empty();
    if f & KO != 0 {
        r |= IllegalRules::KO;
    }
    if f & SUPERKO != 0 {
        r |= IllegalRules::SUPERKO;
    }
    if f & SUICIDE != 0 {
        r |= IllegalRules::SUICIDE;
    }
    if f & FILLEYE != 0 {
        r |= IllegalRules::FILLEYE;
    }
    r
}

pub fn sflags(f: u8) -> ScoreRules {
    let mut r = ScoreRules::empty();
    if f & S_STONES != 0 {
        r |= ScoreRules::STONES;
    }
    if f & S_KOMI != 0 {
        r |= ScoreRules::KOMI;
    }
    if f & S_PRIS != 0 {
        r |= ScoreRules::PRISONNERS;
    }
    r
}

/// builtin: 1 JAPANESE, 2 CHINESE, else assembled from flags
pub fn rule(builtin: u8, r: &Rules) -> Rule {
    match builtin {
        1 => JAPANESE,
        2 => CHINESE,
        _ => Rule { komi: r.komi4 as f32 / 4.0, flag_illegal: flags(r.flags), flag_score: sflags(r.sflags) },
    }
}

pub fn sizes(h: usize, w: usize) -> GobanSizes {
    match (h, w) {
        (9, 9) => GobanSizes::Nine,
        (13, 13) => GobanSizes::Thirteen,
        (19, 19) => GobanSizes::Nineteen,
        _ => GobanSizes::Custom(h, w),
    }
}

pub fn coord(w: usize, i: usize) -> (u8, u8) {
    ((i / w) as u8, (i % w) as u8)
}

pub fn mv(w: usize, i: usize) -> Move {
    let (r, c) = coord(w, i);
    Move::Play(r, c)
}

pub fn idx(w: usize, (r, c): (u8, u8)) -> usize {
    r as usize * w + c as usize
}

/// The stones as `get_color` reports them.
pub fn cells(g: &Goban) -> Board {
    let (h, w) = g.size();
    let mut b = Board::new(h as usize, w as usize);
    for r in 0..h {
        for c in 0..w {
            b.c[r as usize * w as usize + c as usize] = cell(g.get_color((r, c)));
        }
    }
    b
}

pub fn end(e: Option<EndGame>) -> Option<End> {
    e.map(|e| match e {
        EndGame::WinnerByScore(c, s) => End::Score(uncol(c), (s as f64 * 4.0).round() as i64),
        EndGame::WinnerByResign(c) => End::Resign(uncol(c)),
        EndGame::WinnerByTime(c) => End::Time(uncol(c)),
        EndGame::WinnerByForfeit(c) => End::Forfeit(uncol(c)),
        EndGame::Draw => End::Draw,
    })
}

pub fn unend(e: End) -> EndGame {
    match e {
        End::Score(c, s) => EndGame::WinnerByScore(col(c), s as f32 / 4.0),
        End::Resign(c) => EndGame::WinnerByResign(col(c)),
        End::Time(c) => EndGame::WinnerByTime(col(c)),
        End::Forfeit(c) => EndGame::WinnerByForfeit(col(c)),
        End::Draw => EndGame::Draw,
    }
}

/// Groups as the library reports them, canonical. Stones of each group are found through
/// `get_connected_groups_idx` of a neighbouring point or, for a point without neighbours, left out.
pub fn sut_groups(g: &Goban) -> Vec<Grp> {
    let (h, w) = g.size();
    let w = w as usize;
    let n = h as usize * w;
    let mut ids: Vec<usize> = vec![];
    for i in 0..n {
        for id in g.get_connected_groups_idx(coord(w, i)) {
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
    }
    let mut v: Vec<Grp> = ids
        .iter()
        .map(|&id| {
            let mut stones = vec![];
            let mut color = 0;
            for s in g.chain_stones(id) {
                stones.push(idx(w, s.coord));
                color = uncol(s.color);
            }
            stones.sort_unstable();
            let libs = stones
                .iter()
                .flat_map(|&s| g.get_liberties(coord(w, s)).collect::<Vec<_>>())
                .map(|c| idx(w, c))
                .collect::<std::collections::BTreeSet<_>>()
                .into_iter()
                .collect();
            Grp { color, stones, libs }
        })
        .collect();
    v.sort();
    v
}

pub fn sorted_idx(w: usize, it: impl Iterator<Item = (u8, u8)>) -> Vec<usize> {
    let mut v: Vec<usize> = it.map(|c| idx(w, c)).collect();
    v.sort_unstable();
    v
}

/// Everything a user can observe of a game. level 0: status; 1: + scores, legal moves, groups;
/// 2: + history and legal moves under other rules.
pub fn obs(g: &Game, level: u8) -> String {
    let b = cells(g.goban());
    let w = b.w;
    let mut s = String::with_capacity(256);
    let (h, ww) = g.size();
    let _ = write!(
        s,
        "size={}x{} board={} turn={} pris={:?} over={} outcome={:?} komi={:?}",
        h,
        ww,
        b.draw(),
        uncol(g.turn()),
        g.prisoners(),
        g.is_over(),
        g.outcome(),
        g.komi()
    );
    if level >= 1 {
        let _ = write!(
            s,
            " score={:?} terr={:?} stones={:?} z={:x}",
            g.calculate_score(),
            g.calculate_territories(),
            g.number_of_stones(),
            g.zobrist_hash()
        );
        let _ = write!(s, " legals={:?}", sorted_idx(w, g.legals()));
        let gr: Vec<_> = sut_groups(g.goban()).into_iter().map(|g| (g.color, g.stones, g.libs)).collect();
        let _ = write!(s, " groups={:?}", gr);
        let mut libs: Vec<(usize, Vec<usize>)> = g
            .chains()
            .map(|c| {
                let mut l = c.liberties();
                l.sort_unstable();
                (c.num_stones as usize, l)
            })
            .collect();
        libs.sort();
        let _ = write!(s, " libs={:?}", libs);
    }
    if level >= 2 {
        for f in [0u8, KO, SUPERKO, SUICIDE, KO | SUPERKO | SUICIDE, FILLEYE] {
            let _ = write!(s, " l{}={:?}", f, sorted_idx(w, g.legals_by(flags(f))));
        }
        s.push_str(" hist=");
        for hb in g.history() {
            s.push_str(&cells(hb).draw());
            s.push('|');
        }
    }
    s
}

/// First difference of two observation strings, for messages.
pub fn diff(a: &str, b: &str) -> String {
    let (aw, bw): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
    // fields are "key=value", values may contain spaces: join until the next field
    let join = |v: &[&str]| {
        let mut out: Vec<String> = vec![];
        for x in v {
            if x.contains('=') || out.is_empty() {
                out.push(x.to_string());
            } else {
                let l = out.last_mut().unwrap();
                l.push(' ');
                l.push_str(x);
            }
        }
        out
    };
    let (af, bf) = (join(&aw), join(&bw));
    let mut out = vec![];
    for (x, y) in af.iter().zip(bf.iter()) {
        if x != y {
            let cut = |s: &str| s.chars().take(160).collect::<String>();
            out.push(format!("{} / {}", cut(x), cut(y)));
            if out.len() == 3 {
                break;
            }
        }
    }
    out.join("; ")
}

/// The answers whose order is fixed by the position, as they come.
pub fn ordered(g: &Game) -> String {
    let mut s = String::new();
    let _ = write!(s, "legals={:?} pseudo={:?} vec={:?} empty={:?}", g.legals().collect::<Vec<_>>(), g.pseudo_legals().collect::<Vec<_>>(), g.pseudo_legals_vec(), g.get_empty_idx().collect::<Vec<_>>());
    for f in [0u8, KO, SUPERKO | SUICIDE, FILLEYE] {
        let _ = write!(s, " l{}={:?}", f, g.legals_by(flags(f)).collect::<Vec<_>>());
    }
    let _ = write!(s, " stones={:?}", g.get_stones().map(|x| (x.coord, uncol(x.color))).collect::<Vec<_>>());
    for c in [1, 2] {
        let _ = write!(s, " c{}={:?}", c, g.get_coords_by_color(Some(col(c))).collect::<Vec<_>>());
    }
    let _ = write!(s, " chains={:?}", g.chains().map(|c| (uncol(c.color), c.liberties())).collect::<Vec<_>>());
    s
}
