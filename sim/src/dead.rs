//! C15: dead-stone analysis under simulated entropy.

use crate::cx::*;
use crate::entropy::{configure, counters, EntropyCfg};
use crate::model::*;
use crate::party::*;
use crate::rng::*;
use crate::sut::*;
use crate::world::*;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::Move;

pub const DEADRUN: u8 = 32; // a = simulations, b = entropy seed, c = entropy mode and faults

/// The stones of a reported group, checked to be a real group of the board.
fn group_stones(g: &Game, id: usize, b: &Board) -> R<Grp> {
    let w = b.w;
    let mut stones = vec![];
    let mut color = 0;
    for s in g.chain_stones(id) {
        stones.push(idx(w, s.coord));
        color = uncol(s.color);
        if stones.len() > b.n() {
            return viol(format!("stones of a reported group do not end on {}", b.draw()));
        }
    }
    stones.sort_unstable();
    match b.groups().into_iter().find(|x| x.stones == stones && x.color == color) {
        Some(x) => Ok(x),
        None => viol(format!("reported group {:?} is not a group of {}", stones, b.draw())),
    }
}

fn floating(g: &Game, b: &Board) -> R<Vec<Grp>> {
    let ids = pan(guard(|| g.get_floating_stones()), || "get_floating_stones")?;
    let mut v = vec![];
    for id in ids {
        v.push(pan(guard(|| group_stones(g, id, b)), || "stones of a floating group")??);
    }
    v.sort();
    Ok(v)
}

/// Groups without two eyes.
fn floating_model(g: &Game, b: &Board) -> R<Vec<Grp>> {
    let w = b.w;
    let mut eyes = vec![];
    for p in 0..b.n() {
        if b.c[p] != 0 {
            continue;
        }
        for c in [1u8, 2] {
            if pan(guard(|| g.check_eye(Stone { coord: coord(w, p), color: col(c) })), || "check_eye")? {
                eyes.push(p);
                break;
            }
        }
    }
    let mut v: Vec<Grp> = b.groups().into_iter().filter(|x| eyes.iter().filter(|&&e| x.libs.contains(&e)).count() < 2).collect();
    v.sort();
    Ok(v)
}

/// Every board on which a game that goes on from here can end, if they are few enough to list: the
/// players move until neither has a move left except into an eye of their own. The list may hold
/// boards that no game ends on (turns are not modelled, and a repetition counts as forbidden whenever
/// it may be), never the other way round.
fn finals(t: &Track, cap: usize) -> Option<Vec<Board>> {
    let start = &t.board;
    let n = start.n();
    let suicide_ok = t.suicide_permitted();
    let mut diag: Vec<Vec<usize>> = vec![];
    let mut cross: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        let (r, c) = ((i / start.w) as i32, (i % start.w) as i32);
        let on = |v: &[(i32, i32)]| v.iter().map(|d| (r + d.0, c + d.1)).filter(|x| x.0 >= 0 && x.1 >= 0 && x.0 < start.h as i32 && x.1 < start.w as i32).map(|x| x.0 as usize * start.w + x.1 as usize).collect::<Vec<_>>();
        cross.push(on(&[(0, 1), (1, 0), (0, -1), (-1, 0)]));
        diag.push(on(&[(1, 1), (1, -1), (-1, -1), (-1, 1)]));
    }
    let mut ids: std::collections::HashMap<Vec<u8>, usize> = Default::default();
    let mut boards = vec![start.clone()];
    ids.insert(start.c.clone(), 0);
    // (to, whether the player may have an eye there)
    let mut next: Vec<Vec<(usize, u8, bool)>> = vec![];
    let mut k = 0;
    while k < boards.len() {
        let b = boards[k].clone();
        let mut v = vec![];
        for p in (0..n).filter(|&p| b.c[p] == 0) {
            for c in [1u8, 2] {
                let eye = cross[p].iter().all(|&q| b.c[q] == c);
                if eye && diag[p].iter().all(|&q| b.c[q] == c) {
                    continue;
                }
                let e = b.play(p, c, suicide_ok);
                if e.suicide && !suicide_ok || e.board == b {
                    continue;
                }
                let id = match ids.get(&e.board.c) {
                    Some(&id) => id,
                    None => {
                        if boards.len() >= cap {
                            return None;
                        }
                        ids.insert(e.board.c.clone(), boards.len());
                        boards.push(e.board);
                        boards.len() - 1
                    }
                };
                v.push((id, c, eye));
            }
        }
        next.push(v);
        k += 1;
    }
    // boards that lead back to each other
    let m = boards.len();
    let mut comp = vec![usize::MAX; m];
    let (mut low, mut num) = (vec![0usize; m], vec![0usize; m]);
    let (mut stack, mut work, mut count, mut comps) = (vec![], vec![(0usize, 0usize)], 0usize, 0usize);
    while let Some((v, i)) = work.pop() {
        if i == 0 {
            count += 1;
            num[v] = count;
            low[v] = count;
            stack.push(v);
        }
        if i > 0 {
            let u = next[v][i - 1].0;
            low[v] = low[v].min(low[u]);
        }
        let mut j = i;
        let mut down = false;
        while j < next[v].len() {
            let u = next[v][j].0;
            if num[u] == 0 {
                work.push((v, j + 1));
                work.push((u, 0));
                down = true;
                break;
            }
            if comp[u] == usize::MAX {
                low[v] = low[v].min(num[u]);
            }
            j += 1;
        }
        if down {
            continue;
        }
        if low[v] == num[v] {
            loop {
                let u = stack.pop().unwrap();
                comp[u] = comps;
                if u == v {
                    break;
                }
            }
            comps += 1;
        }
    }
    let out = (0..m)
        .filter(|&v| {
            let sure = |c: u8| next[v].iter().any(|&(u, d, eye)| d == c && !eye && comp[u] != comp[v] && !t.was_seen(&boards[u]));
            // a player who has passed already may be followed by a player who cannot move
            if v == 0 && t.passes > 0 {
                return !sure(t.turn);
            }
            !sure(1) && !sure(2)
        })
        .map(|v| boards[v].clone())
        .collect();
    Some(out)
}

pub fn run(cx: &mut Cx, cfg: &Cfg, evs: &[Ev]) -> R {
    let g = cfg.create(cfg.ctor)?;
    let mut p = Party::new(g, cfg.start_track(), 1000);
    let mut last: Vec<usize> = vec![];
    for e in evs {
        if cx.late() {
            break;
        }
        cx.step += 1;
        cx.now_ms += 1 + e.c as u64 % 20;
        cx.shp(&[e.k]);
        match e.k {
            REQ => {
                let req = choose_on(cfg, &p.t.board, p.t.turn, &p.t, &last, *e);
                let pre = p.t.board.clone();
                p.request(cx, req, How::Try)?;
                last = (0..pre.n()).filter(|&i| pre.c[i] != 0 && p.t.board.c[i] == 0).collect();
            }
            RESUME => {
                p.request(cx, Req::Resume, How::Try)?;
            }
            KOMI => {
                p.request(cx, Req::Komi((e.a % 80) as i32 - 20), How::Try)?;
            }
            DEADRUN => analyse(cx, &p, *e)?,
            _ => {}
        }
    }
    Ok(())
}

fn analyse(cx: &mut Cx, p: &Party, e: Ev) -> R {
    let b = p.t.board.clone();
    let before = pan(guard(|| obs(&p.g, 2)), || "observe")?;
    let fl = floating(&p.g, &b)?;
    let fm = floating_model(&p.g, &b)?;
    if fl != fm {
        let s = |v: &[Grp]| v.iter().map(|g| g.stones.clone()).collect::<Vec<_>>();
        return viol(format!("floating groups of {}: {:?}, without two eyes are {:?}", b.draw(), s(&fl), s(&fm)));
    }
    cx.n("floating_sets_compared");
    if fm.len() < b.groups().len() {
        cx.n("positions_with_live_groups");
    }
    let nsim = 1 + e.a as usize % [1, 2, 3, 6][e.a as usize / 16 % 4];
    let n = b.n();
    if n > 30 {
        return Ok(());
    }
    let mode = if e.c % 16 < 10 { 0 } else { 1 + e.c % 3 };
    let ent = EntropyCfg { seed: e.b as u64, mode, eintr: if e.c / 16 % 4 == 0 { 40 } else { 0 }, short: if e.c / 64 % 4 == 0 { 40 } else { 0 } };
    let g = &p.g;
    let over = p.t.is_over();
    // the analysis with the number of simulations the library chooses
    let whole = n <= 6 && e.c / 4096 % 24 == 0;
    // another process does the analysis: fresh thread, its own entropy
    let (res, calls) = std::thread::scope(|s| {
        let b = &b;
        let sh = Sh(g);
        s.spawn(move || {
            configure(ent);
            let g = sh.get();
            let r = guard(|| if whole { g.dead_stones() } else { g.dead_stones_wth_simulations(nsim) });
            let r: R<(Vec<Grp>, Vec<Grp>)> = match r {
                Err(p) => viol(format!("dead-stone analysis with {} simulations failed on {}: {}", nsim, b.draw(), p)),
                Ok(ids) => (|| {
                    let mut v = vec![];
                    for id in ids {
                        v.push(pan(guard(|| group_stones(g, id, b)), || "stones of a dead group")??);
                    }
                    v.sort();
                    Ok((v, floating(g, b)?))
                })(),
            };
            (r, counters())
        })
        .join()
        .unwrap()
    });
    cx.n("analyses");
    if whole {
        cx.n("analyses_of_default_length");
    }
    cx.add("entropy_calls", calls.0);
    cx.add("fault_entropy_eintr", calls.1);
    cx.add("fault_entropy_short_read", calls.2);
    if mode != 0 {
        cx.n("fault_entropy_constant");
    }
    let (dead, fl2) = res?;
    if fl2 != fl {
        return viol(format!("floating groups of {} depend on the process: {:?} / {:?}", b.draw(), fl, fl2));
    }
    for d in &dead {
        if !fl.contains(d) {
            return viol(format!("group {:?} of {} reported dead, but it is not floating", d.stones, b.draw()));
        }
    }
    if !over && !fl.is_empty() && e.c / 256 % 4 != 0 {
        if let Some(ends) = finals(&p.t, if e.c / 1024 % 32 == 0 { 12000 } else { 1500 }) {
            cx.n("positions_with_every_end_listed");
            cx.add("ends_listed", ends.len() as u64);
            for x in &fl {
                let kept = |y: &Board| x.stones.iter().all(|&s| y.c[s] == x.color);
                let (all, none) = (ends.iter().all(kept), !ends.iter().any(kept));
                if all && dead.contains(x) {
                    return viol(format!("group {:?} of {} reported dead, but it is whole wherever the game can end", x.stones, b.draw()));
                }
                if none && !dead.contains(x) {
                    return viol(format!("group {:?} of {} not reported dead, but it is gone wherever the game can end", x.stones, b.draw()));
                }
                if all {
                    cx.n("floating_groups_that_always_stay");
                }
                if none {
                    cx.n("groups_that_never_stay");
                }
            }
        }
    }
    let now = pan(guard(|| obs(&p.g, 2)), || "observe")?;
    if now != before {
        return viol(format!("dead-stone analysis changed the game: {}", diff(&before, &now)));
    }
    // the game goes on as before
    let mut c = p.g.clone();
    if !over {
        pan(
            guard(|| {
                let _ = c.try_play(Move::Pass);
            }),
            || "pass after the analysis",
        )?;
    }
    if !over && !fl.is_empty() {
        cx.hot += 1;
    }
    if !dead.is_empty() {
        cx.n("analyses_with_dead_groups");
    }
    if over {
        cx.n("analyses_of_finished_games");
    }
    cx.digest = mix(cx.digest ^ dead.len() as u64 ^ b.hash64() ^ calls.0 << 32);
    for d in &dead {
        cx.dig(&format!("{:?}", d.stones));
    }
    cx.shp(&[dead.len() as u8, nsim as u8]);
    Ok(())
}

struct Sh<'a>(&'a Game);
unsafe impl Send for Sh<'_> {}
impl<'a> Sh<'a> {
    fn get(&self) -> &'a Game {
        self.0
    }
}

pub fn gen(rng: &mut Rng, cfg: &Cfg, long: bool) -> Vec<Ev> {
    let u = |rng: &mut Rng| rng.u32() & 0x7fff_ffff;
    let mut v = vec![];
    let n = cfg.n();
    let len = rng.range(1, if n > 30 { 60 } else { 12 + 2 * n.min(20) });
    let every = rng.range(2, 12);
    let mut budget = if long { 14 } else { 5 };
    for i in 0..len {
        let k = if rng.pct(4) { RESUME } else if rng.pct(3) { KOMI } else { REQ };
        let mut kind = rng.below(64) as u32;
        if kind >= 59 && rng.pct(70) {
            kind = rng.below(59) as u32;
        }
        v.push(Ev { k, a: kind, b: u(rng), c: u(rng) });
        if i % every == every - 1 && budget > 0 {
            budget -= 1;
            v.push(Ev { k: DEADRUN, a: u(rng), b: u(rng), c: u(rng) });
        }
    }
    v.push(Ev { k: DEADRUN, a: u(rng), b: u(rng), c: u(rng) });
    v
}
