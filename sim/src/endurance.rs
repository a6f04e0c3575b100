//! C16: boards and games with histories far longer than one normal game.

use crate::cx::*;
use crate::model::*;
use crate::party::*;
use crate::rng::*;
use crate::sut::*;
use crate::world::*;
use goban::pieces::goban::Goban;
use goban::rules::game::Game;
use goban::rules::game_builder::GameBuilder;
use goban::rules::Move;

pub const CYC_BOARD: u8 = 33; // a = seed, b = operations, c = style
pub const CYC_GAME: u8 = 34; // a = seed, b = plays
pub const PROBE: u8 = 35;

struct Bench {
    g: Goban,
    b: Board,
}

impl Bench {
    fn push(&mut self, p: usize, c: u8) {
        self.g.push(coord(self.b.w, p), col(c));
        self.b.c[p] = c;
    }

    /// Removes the group of the stone at p. False if the library does not know it.
    fn remove(&mut self, p: usize) -> bool {
        let w = self.b.w;
        let c = self.b.c[p];
        let mut found = None;
        let nbrs: Vec<usize> = self.b.nbrs(p).collect();
        'o: for q in nbrs {
            for id in self.g.get_connected_groups_idx(coord(w, q)) {
                if self.g.chain_stones(id).any(|s| idx(w, s.coord) == p && uncol(s.color) == c) {
                    found = Some(id);
                    break 'o;
                }
            }
        }
        match found {
            Some(id) => {
                self.g.remove_chain(id);
                let (st, _) = self.b.region(p);
                for s in st {
                    self.b.c[s] = 0;
                }
                true
            }
            None => false,
        }
    }

    fn cycle(&mut self, cx: &mut Cx, seed: u32, count: usize, style: u32) -> R {
        let mut rng = Rng::new(seed as u64);
        let n = self.b.n();
        let (h, w) = (self.b.h, self.b.w);
        let mut ops = 0u64;
        let due = cx.due;
        let r = guard(|| -> R {
            match style % 5 {
                0 => {
                    // one point, again and again
                    let empties: Vec<usize> = (0..n).filter(|&p| self.b.c[p] == 0 && self.b.nbrs(p).all(|q| self.b.c[q] == 0)).collect();
                    if empties.is_empty() {
                        return Ok(());
                    }
                    let p = *rng.pick(&empties);
                    for k in 0..count {
                        if k % 64 == 63 && due.passed() {
                            break;
                        }
                        ops += 1;
                        self.push(p, 1 + (k % 2) as u8);
                        if !self.remove(p) {
                            return viol(format!("stone at {:?} has no group on {}", coord(w, p), self.b.draw()));
                        }
                    }
                }
                1 | 2 => {
                    // random placement; style 2 prefers merges
                    let fill = rng.range(20, 95);
                    // now and then in two colours like a chessboard: as many groups as points
                    let checkered = seed % 3 == 0;
                    let fill = if checkered && seed % 2 == 0 { fill / 2 + 50 } else { fill };
                    for k in 0..count {
                        if k % 64 == 63 && due.passed() {
                            break;
                        }
                        ops += 1;
                        let p = rng.below(n);
                        if self.b.c[p] == 0 {
                            let c = if checkered && rng.below(50) > 0 {
                                1 + ((p / w + p % w) % 2) as u8
                            } else if style % 5 == 2 { 1 + rng.below(8) as u8 / 7 } else { 1 + rng.below(2) as u8 };
                            self.push(p, c);
                        } else if rng.pct(100 - fill) || style % 5 == 2 && !checkered && rng.pct(30) {
                            if !self.remove(p) {
                                return viol(format!("stone at {:?} has no group on {}", coord(w, p), self.b.draw()));
                            }
                        }
                    }
                }
                3 => {
                    // crosses: four groups become one, which is removed
                    if h < 3 || w < 3 {
                        return Ok(());
                    }
                    for k in 0..count / 6 {
                        if k % 64 == 63 && due.passed() {
                            break;
                        }
                        ops += 6;
                        let (r, c) = (1 + rng.below(h - 2), 1 + rng.below(w - 2));
                        let p = r * w + c;
                        let color = 1 + rng.below(2) as u8;
                        let mut ps = vec![p - 1, p + 1, p - w, p + w];
                        ps.push(p);
                        for &q in &ps {
                            if self.b.c[q] != 0 && !self.remove(q) {
                                return viol(format!("stone at {:?} has no group on {}", coord(w, q), self.b.draw()));
                            }
                        }
                        let k = rng.range(1, 4);
                        for &q in ps.iter().take(k).chain([&p]) {
                            self.push(q, color);
                        }
                        if rng.pct(80) && !self.remove(p) {
                            return viol(format!("stone at {:?} has no group on {}", coord(w, p), self.b.draw()));
                        }
                    }
                }
                _ => {
                    // through the states of a capture: surround and remove, copies in between
                    for k in 0..count {
                        if k % 64 == 63 && due.passed() {
                            break;
                        }
                        ops += 1;
                        let p = rng.below(n);
                        if self.b.c[p] == 0 {
                            let c = 1 + ((p + k / n) % 2) as u8;
                            self.push(p, c);
                            let dead: Vec<usize> = self.b.nbrs(p).filter(|&q| self.b.c[q] == 3 - c && self.b.group(q).libs.is_empty()).collect();
                            for q in dead {
                                if self.b.c[q] != 0 && !self.remove(q) {
                                    return viol(format!("stone at {:?} has no group on {}", coord(w, q), self.b.draw()));
                                }
                            }
                            if self.b.group(p).libs.is_empty() && !self.remove(p) {
                                return viol(format!("stone at {:?} has no group on {}", coord(w, p), self.b.draw()));
                            }
                        }
                        if k % 5000 == 4999 {
                            let c = self.g.clone();
                            self.g = c;
                        }
                    }
                }
            }
            Ok(())
        });
        cx.add("board_operations", ops);
        match r {
            Ok(x) => x,
            Err(p) => viol(format!("board failed in a long series of placements and removals: {}", p)),
        }
    }

    fn probe(&self, cx: &mut Cx) -> R {
        let now = pan(guard(|| cells(&self.g)), || "read board")?;
        if now != self.b {
            return viol(format!("board shows {} after many operations, expected {}", now.draw(), self.b.draw()));
        }
        if self.b.groups().len() > 255 {
            cx.n("boards_with_more_than_255_groups");
        }
        check_groups(cx, &self.g, &self.b, 1, None)?;
        pan(guard(|| check_board_views(&self.g, &self.b)), || "view")??;
        // a fresh board with the same stones
        let fresh = pan(
            guard(|| {
                let mut f = Goban::new((self.b.h as u8, self.b.w as u8));
                for p in 0..self.b.n() {
                    if self.b.c[p] != 0 {
                        f.push(coord(self.b.w, p), col(self.b.c[p]));
                    }
                }
                f
            }),
            || "fresh board",
        )?;
        if fresh != self.g || fresh.zobrist_hash() != self.g.zobrist_hash() {
            return viol(format!("board {} reached after many operations is not equal to a fresh one", self.b.draw()));
        }
        if fresh.calculate_territories() != self.g.calculate_territories() {
            return viol(format!("territories of {} differ from those of a fresh board", self.b.draw()));
        }
        cx.n("fresh_boards_compared");
        cx.states.insert(self.b.hash64());
        Ok(())
    }
}

pub fn run(cx: &mut Cx, cfg: &Cfg, evs: &[Ev]) -> R {
    let mut bench = Bench { g: Goban::new((cfg.h as u8, cfg.w as u8)), b: Board::new(cfg.h, cfg.w) };
    let mut game: Option<(Game, Track)> = None;
    let superko = cfg.rules.flags & SUPERKO != 0;
    for e in evs {
        if cx.late() {
            break;
        }
        cx.step += 1;
        cx.now_ms += e.b as u64;
        cx.shp(&[e.k, (e.c % 5) as u8]);
        match e.k {
            CYC_BOARD if cfg.n() > 1 => {
                bench.cycle(cx, e.a, e.b as usize, e.c)?;
                cx.hot += 1;
                bench.probe(cx)?;
                cx.digest = mix(cx.digest ^ bench.b.hash64());
            }
            CYC_GAME if cfg.n() <= 36 && !superko => {
                if game.is_none() {
                    game = Some((cfg.create(cfg.ctor)?, cfg.start_track()));
                }
                let (g, t) = game.as_mut().unwrap();
                cycle_game(cx, g, t, e.a, e.b as usize)?;
                probe_game(cx, cfg, g, t)?;
                cx.hot += 1;
                cx.digest = mix(cx.digest ^ t.board.hash64() ^ t.pris.0 as u64);
            }
            _ => {}
        }
    }
    Ok(())
}

fn cycle_game(cx: &mut Cx, g: &mut Game, t: &mut Track, seed: u32, count: usize) -> R {
    let mut rng = Rng::new(seed as u64 ^ 0x6a4d);
    let n = t.board.n();
    let w = t.board.w;
    let mut plays = 0u64;
    let due = cx.due;
    let r = guard(|| -> R {
        for k in 0..count {
            if k % 16 == 15 && due.passed() {
                break;
            }
            if t.passes >= 2 {
                g.resume();
                t.passes = 0;
            }
            let p = rng.below(n);
            let m = if rng.below(20) == 0 { Move::Pass } else { mv(w, p) };
            let ok = g.try_play(m).is_ok();
            if m == Move::Pass {
                if !ok {
                    return viol(format!("pass refused after {} steps", k));
                }
                t.passes += 1;
                t.turn = 3 - t.turn;
                t.last = None;
                continue;
            }
            let v = if t.board.c[p] != 0 { None } else { Some(t.effect(p)) };
            let expect = match &v {
                None => false,
                Some(e) => {
                    let ko = match &t.last {
                        Some((b, _, 1, _)) => t.rules.flags & KO != 0 && e.captured.len() == 1 && !e.suicide && e.board == *b,
                        _ => false,
                    };
                    !(t.rules.flags & SUICIDE != 0 && e.suicide) && !ko
                }
            };
            let eye = t.rules.flags & FILLEYE != 0;
            if ok != expect && !(eye && !ok) {
                return viol(format!("play {:?} by {} on {} was {} in a long game", m, t.turn, t.board.draw(), if ok { "accepted" } else { "refused" }));
            }
            if ok {
                plays += 1;
                let e = v.unwrap();
                let (cap, own) = (e.captured.len(), e.own_removed.len());
                if t.turn == 1 {
                    t.pris.0 += cap as u32;
                    t.pris.1 += own as u32;
                } else {
                    t.pris.1 += cap as u32;
                    t.pris.0 += own as u32;
                }
                let before = std::mem::replace(&mut t.board, e.board);
                t.last = Some((before, p, cap, own));
                t.turn = 3 - t.turn;
                t.passes = 0;
                let now = cells(g.goban());
                if now != t.board {
                    return viol(format!("play {:?} in a long game gives {}, expected {}", m, now.draw(), t.board.draw()));
                }
                if g.prisoners() != t.pris {
                    return viol(format!("prisoners {:?} in a long game, expected {:?}", g.prisoners(), t.pris));
                }
            }
        }
        Ok(())
    });
    cx.add("long_game_plays", plays);
    match r {
        Ok(x) => x,
        Err(p) => viol(format!("game failed in a long series of plays: {}", p)),
    }
}

fn probe_game(cx: &mut Cx, cfg: &Cfg, g: &Game, t: &Track) -> R {
    check_groups(cx, g.goban(), &t.board, t.turn, Some(g))?;
    let w = cfg.w;
    let mut b = GameBuilder::default();
    b.size((cfg.h as u8, cfg.w as u8)).rule(rule(cfg.builtin, &t.rules)).turn(col(t.turn)).komi(g.komi());
    for s in g.get_stones() {
        b.add(s);
    }
    let f = match pan(guard(|| b.build()), || "build")? {
        Ok(f) => f,
        Err(e) => return viol(format!("builder refused the stones of a long game: {}", e)),
    };
    let look = |g: &Game| {
        pan(
            guard(|| {
                format!(
                    "l0={:?} l4={:?} terr={:?} z={:x} legal_stones={:?} floating={}",
                    sorted_idx(w, g.legals_by(flags(0))),
                    sorted_idx(w, g.legals_by(flags(SUICIDE))),
                    g.calculate_territories(),
                    g.zobrist_hash(),
                    g.number_of_stones(),
                    g.get_floating_stones().len()
                )
            }),
            || "observe",
        )
    };
    let (x, y) = (look(g)?, look(&f)?);
    if x != y || f.goban() != g.goban() {
        return viol(format!("long game on {} differs from a fresh one: {}", t.board.draw(), diff(&x, &y)));
    }
    let listed = pan(guard(|| g.history().count()), || "history")?;
    cx.n("fresh_games_compared");
    if listed > 65_536 {
        cx.n("games_with_more_than_65536_positions");
    }
    cx.states.insert(t.board.hash64() ^ 1);
    Ok(())
}

pub fn gen_cfg_c16(rng: &mut Rng) -> Cfg {
    let mut c = gen_cfg(rng, 16);
    c.setup.clear();
    c.handicap.clear();
    c.outcome = 0;
    if rng.pct(50) {
        let s = [(2, 2), (1, 3), (1, 4), (2, 3), (3, 2), (1, 5), (3, 1), (4, 1), (1, 2), (1, 6)];
        let (h, w) = *rng.pick(&s);
        c.h = h;
        c.w = w;
        c.builtin = if rng.pct(20) { 1 } else { 0 };
        c.rules.flags = *rng.pick(&[0, KO, SUICIDE, KO | SUICIDE]);
        if c.builtin == 1 {
            c.rules = japanese();
        }
    }
    c
}

pub fn gen(rng: &mut Rng, cfg: &Cfg, long: bool) -> Vec<Ev> {
    let u = |rng: &mut Rng| rng.u32() & 0x7fff_ffff;
    let mut v = vec![];
    let total = if rng.pct(60) { 150_000 } else { 20_000 } * if long { 3 } else { 1 };
    let favour = rng.below(5) as u32;
    let game = cfg.n() <= 36 && cfg.rules.flags & SUPERKO == 0 && rng.pct(70);
    // every new position of a game is kept in its history
    let total = if game && cfg.n() > 6 { 6_000 * if long { 4 } else { 1 } } else { total };
    // now and then more positions than any short number can count
    let total = if game && cfg.n() >= 12 && cfg.n() <= 36 && mix(cfg.entropy) % 12 == 0 { 400_000 } else { total };
    let mut left = total;
    while left > 0 {
        let k = rng.range(1, if total > 200_000 { 200_000 } else { 30_000 }).min(left);
        left -= k;
        if game {
            v.push(Ev { k: CYC_GAME, a: u(rng), b: k as u32, c: 0 });
        } else {
            let c = if rng.pct(60) { favour } else { u(rng) };
            let k = if c % 5 == 3 { k * 3 } else { k };
            v.push(Ev { k: CYC_BOARD, a: u(rng), b: k as u32, c });
        }
    }
    v
}

pub fn gen_game(rng: &mut Rng, total: usize) -> Vec<Ev> {
    let mut v = vec![];
    let mut left = total;
    while left > 0 {
        let k = rng.range(1, 100_000).min(left);
        left -= k;
        v.push(Ev { k: CYC_GAME, a: rng.u32() & 0x7fff_ffff, b: k as u32, c: 0 });
    }
    v
}
