//! C08: several tasks on real threads, one of which runs at a time. The schedule decides at every
//! basic block of the library (compiler-inserted coverage callbacks) and at every step between
//! calls who goes on.

use crate::cx::*;
use crate::model::*;
use crate::party::*;
use crate::rng::*;
use crate::sut::*;
use crate::world::*;
use goban::rules::game::Game;
use goban::rules::Move;
use std::cell::Cell;
use std::fmt::Write;
use std::marker::PhantomData;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub const TOP: u8 = 30; // a = task, b = operation, c = argument
pub const SCHED: u8 = 31; // a = who goes on, b = for how many steps

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static ME: Cell<usize> = const { Cell::new(0) };
    static BATON: Cell<*const Baton> = const { Cell::new(std::ptr::null()) };
    static BLOCKS: Cell<u64> = const { Cell::new(0) };
}

// ---- compiler-inserted callbacks (only goban is compiled with them, and only for this check) ----

static mut NEXT_GUARD: u32 = 0;
static COVERED: [std::sync::atomic::AtomicU8; 1 << 16] = [const { std::sync::atomic::AtomicU8::new(0) }; 1 << 16];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        NEXT_GUARD += 1;
        *start = NEXT_GUARD;
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let on = ACTIVE.try_with(|a| a.get()).unwrap_or(false);
    if on {
        COVERED[*guard as usize & 0xffff].store(1, std::sync::atomic::Ordering::Relaxed);
        step(*guard);
    }
}

pub fn covered() -> usize {
    COVERED.iter().filter(|x| x.load(std::sync::atomic::Ordering::Relaxed) != 0).count()
}

pub fn instrumented_blocks() -> u32 {
    unsafe { NEXT_GUARD }
}

fn step(at: u32) {
    BLOCKS.with(|b| b.set(b.get() + 1));
    let l = LEFT.with(|l| l.get());
    if l > 0 {
        LEFT.with(|x| x.set(l - 1));
        return;
    }
    let b = BATON.with(|b| b.get());
    if !b.is_null() {
        ACTIVE.with(|a| a.set(false));
        unsafe { (*b).switch(ME.with(|m| m.get()), at) };
        ACTIVE.with(|a| a.set(true));
    }
}

/// A task that yields or sleeps: the scheduler decides who goes on. False outside tasks.
pub fn give_way() -> bool {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return false;
    }
    LEFT.with(|l| l.set(0));
    step(1);
    true
}

/// A task is about to wait for a lock. None outside tasks; otherwise what the call returns.
pub fn futex_wait(addr: *const u32, val: u32, timeout: bool) -> Option<i64> {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        return None;
    }
    let b = BATON.with(|b| b.get());
    if b.is_null() {
        // alone: nobody of the simulation can release it
        return None;
    }
    if unsafe { load(addr) } != val {
        return Some(-11);
    }
    ACTIVE.with(|a| a.set(false));
    unsafe { (*b).block(ME.with(|m| m.get()), addr, val, timeout) };
    ACTIVE.with(|a| a.set(true));
    Some(if unsafe { load(addr) } != val { 0 } else { -110 })
}

unsafe fn load(addr: *const u32) -> u32 {
    (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst)
}

/// How a process ends in which every task waits for a lock.
pub const DEADLOCK: i32 = 77;

/// The stretch given to a task once the schedule is used up.
const TAIL: u64 = 20_000;

#[derive(Clone, Copy)]
struct Wait(*const u32, u32, bool);
unsafe impl Send for Wait {}

// ---- baton ----

struct St {
    current: usize,
    runnable: Vec<bool>,
    started: usize,
    quantum: u64,
    sched: Vec<(u32, u32)>,
    pos: usize,
    progress: u64,
    switches: u64,
    inside: u64,
    shape: u64,
    blocked: u64,
    /// what a task waits for
    waits: Vec<Option<Wait>>,
    lock_waits: u64,
}

struct Baton {
    m: Mutex<St>,
    cv: Condvar,
    n: usize,
}

impl Baton {
    fn new(n: usize, sched: Vec<(u32, u32)>) -> Baton {
        Baton {
            m: Mutex::new(St {
                current: usize::MAX,
                runnable: vec![true; n],
                started: 0,
                quantum: 0,
                sched,
                pos: 0,
                progress: 0,
                switches: 0,
                inside: 0,
                shape: FNV0,
                blocked: 0,
                waits: vec![None; n],
                lock_waits: 0,
            }),
            cv: Condvar::new(),
            n,
        }
    }

    fn next(&self, s: &mut St, me: usize, at: u32) {
        s.progress += 1;
        let free = |s: &St, i: usize| match s.waits[i] {
            None => true,
            Some(Wait(a, v, timeout)) => timeout || unsafe { load(a) } != v,
        };
        let mut cand: Vec<usize> = (0..self.n).filter(|&i| s.runnable[i] && free(s, i)).collect();
        if cand.is_empty() && s.runnable.iter().any(|&r| r) {
            // every task waits for a lock: only a thread of the library's own could release one
            for _ in 0..500 {
                crate::entropy::real_time(|| std::thread::sleep(Duration::from_millis(20)));
                cand = (0..self.n).filter(|&i| s.runnable[i] && free(s, i)).collect();
                if !cand.is_empty() {
                    break;
                }
            }
            if cand.is_empty() {
                std::process::exit(DEADLOCK);
            }
        }
        if cand.is_empty() {
            s.current = usize::MAX;
            return;
        }
        if s.pos < s.sched.len() {
            let (a, b) = s.sched[s.pos];
            s.pos += 1;
            s.current = cand[a as usize % cand.len()];
            s.quantum = quantum(b);
        } else {
            s.current = cand.iter().copied().find(|&i| i > me).unwrap_or(cand[0]);
            s.quantum = TAIL;
        }
        if s.current != me && me < self.n {
            s.switches += 1;
            if at != 0 {
                s.inside += 1;
            }
        }
        s.shape = fnv(&[s.current as u8], fnv(&at.to_le_bytes(), s.shape));
    }

    fn block(&self, me: usize, addr: *const u32, val: u32, timeout: bool) {
        let mut s = self.m.lock().unwrap();
        s.lock_waits += 1;
        s.waits[me] = Some(Wait(addr, val, timeout));
        if s.current == me {
            self.next(&mut s, me, 2);
            self.cv.notify_all();
        }
        self.wait(s, me);
        self.m.lock().unwrap().waits[me] = None;
    }

    fn wait(&self, mut s: std::sync::MutexGuard<St>, me: usize) {
        let mut seen = s.progress;
        while s.current != me {
            let (g, to) = crate::entropy::real_time(|| self.cv.wait_timeout(s, Duration::from_secs(5)).unwrap());
            s = g;
            if to.timed_out() && s.current != me {
                if s.progress == seen && s.current < self.n && s.runnable[me] {
                    // the running task hangs in a way that the seams do not see
                    s.blocked += 1;
                    s.current = me;
                    s.quantum = TAIL;
                    s.progress += 1;
                    self.cv.notify_all();
                    break;
                }
                seen = s.progress;
            }
        }
        LEFT.with(|l| l.set(s.quantum));
    }

    fn start(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.started += 1;
        if s.started == self.n {
            self.next(&mut s, usize::MAX, 0);
            self.cv.notify_all();
        }
        while s.started < self.n {
            s = self.cv.wait(s).unwrap();
        }
        self.wait(s, me);
    }

    fn switch(&self, me: usize, at: u32) {
        let mut s = self.m.lock().unwrap();
        if s.current == me {
            self.next(&mut s, me, at);
            self.cv.notify_all();
        }
        self.wait(s, me);
    }

    fn finish(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.runnable[me] = false;
        if s.current == me {
            self.next(&mut s, me, 0);
        }
        self.cv.notify_all();
    }
}

/// Steps until the next decision: mostly short, sometimes long.
fn quantum(b: u32) -> u64 {
    let x = (b >> 4) as u64;
    match b % 8 {
        0 => 0,
        1 | 2 => x % 6,
        3 | 4 => x % 60,
        5 | 6 => x % 600,
        _ => x % 6000,
    }
}

// ---- can a game be moved to and shared between threads? ----

trait No {
    fn sendable(&self) -> bool {
        false
    }
    fn shareable(&self) -> bool {
        false
    }
}
struct ProbeSend<T>(PhantomData<T>);
struct ProbeSync<T>(PhantomData<T>);
impl<T> No for &ProbeSend<T> {}
impl<T> No for &ProbeSync<T> {}
impl<T: Send> ProbeSend<T> {
    fn sendable(&self) -> bool {
        true
    }
}
impl<T: Sync> ProbeSync<T> {
    fn shareable(&self) -> bool {
        true
    }
}

pub struct Assert<T>(pub T);
unsafe impl<T> Send for Assert<T> {}
unsafe impl<T> Sync for Assert<T> {}
impl<T> Assert<T> {
    pub fn into(self) -> T {
        self.0
    }
}

#[derive(Clone, Copy)]
struct Shared<'a>(&'a Game);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}
impl<'a> Shared<'a> {
    fn get(&self) -> &'a Game {
        self.0
    }
}

// ---- tasks ----

struct Task {
    games: Vec<Game>,
    /// a game of its own, unrelated to the shared one
    own: Option<Game>,
    log: Vec<String>,
}

fn pause() {
    let on = ACTIVE.with(|a| a.get());
    if on {
        step(0);
    }
}

const INTERFERED: &str = "interference: ";
pub const NOPS: u32 = 20;

fn game_digest(g: &Game) -> String {
    let s = obs(g, 1);
    // full text is kept: a difference has to be explainable
    s
}

/// Everything that can be consumed lazily, as numbers.
fn lazy<'a>(g: &'a Game, kind: usize) -> Box<dyn Iterator<Item = u64> + 'a> {
    let at = |c: (u8, u8)| (c.0 as u64) << 8 | c.1 as u64;
    match kind % 11 {
        0 => Box::new(g.legals().map(at)),
        1 => Box::new(g.legals_by(flags((kind / 11 % 16) as u8)).map(at)),
        2 => Box::new(g.pseudo_legals().map(at)),
        3 => Box::new(g.get_empty_coords().map(at)),
        4 => Box::new(g.get_empty_idx().map(|x| x as u64)),
        5 => Box::new(g.get_stones().map(move |s| at(s.coord) << 2 | uncol(s.color) as u64)),
        6 => Box::new(g.get_coords_by_color(Some(col(1 + (kind / 11 % 2) as u8))).map(at)),
        7 => Box::new(g.get_stones_by_color(if kind / 11 % 3 == 0 { None } else { Some(col((kind / 11 % 3) as u8)) }).map(move |p| at(p.coord) << 2 | cell(p.color) as u64)),
        8 => Box::new(g.chains().map(|c| c.liberties().iter().fold(c.num_stones as u64, |a, &l| a.wrapping_mul(1009).wrapping_add(l as u64 + 1)))),
        9 => Box::new(g.history().map(|b| cells(b).hash64())),
        _ => {
            let (h, w) = g.size();
            let p = (kind / 11 % h as usize) as u8;
            let q = (kind / 11 / h as usize % w as usize) as u8;
            Box::new(g.get_connected_points((p, q)).map(move |x| at(x.coord) << 2 | cell(x.color) as u64).chain(g.get_liberties((p, q)).map(at)))
        }
    }
}

/// A game of another size whose stones have the indexes of this one's.
fn same_indexes(base: &Game, r: &mut Rng) -> Option<Game> {
    let b = cells(base.goban());
    let (h, w, n) = (b.h, b.w, b.n());
    let (h2, w2) = *r.pick(&[(w, h), (h + 1, w), (h, w + 1), (1, n), (n, 1), (h + 1, w.max(2) - 1), (2, n / 2 + 1), (n / 2 + 1, 2)]);
    if h2 > 19 || w2 > 19 || (h2, w2) == (h, w) {
        return None;
    }
    let mut o = Board::new(h2, w2);
    for p in 0..n {
        if b.c[p] != 0 {
            *o.c.get_mut(p)? = b.c[p];
        }
    }
    if o.has_dead() {
        return None;
    }
    let mut builder = Game::builder();
    builder.size((h2 as u8, w2 as u8)).turn(base.turn());
    for p in 0..o.n() {
        if o.c[p] != 0 {
            builder.add(goban::pieces::stones::Stone { coord: coord(w2, p), color: col(o.c[p]) });
        }
    }
    builder.build().ok()
}

fn eyes(g: &Game) -> String {
    let mut s = String::new();
    let (h, w) = g.size();
    for p in 0..h as usize * w as usize {
        let c = coord(w as usize, p);
        for k in [1, 2] {
            s.push(if g.check_eye(goban::pieces::stones::Stone { coord: c, color: col(k) }) { 'e' } else { '-' });
        }
        if g.get_color(c).is_none() {
            for f in [0, KO, SUICIDE, SUPERKO, FILLEYE] {
                let _ = write!(s, "{}", g.check_point_by(c, flags(f)).map_or(0, |e| 1 + e as u8));
            }
        }
    }
    let _ = write!(s, " {:?}", g.calculate_territories());
    s
}

/// Runs `f` on a fresh thread in the place of this task.
fn elsewhere<T>(f: impl FnOnce() -> T) -> T {
    let (me, left, bat, active) = (ME.with(|x| x.get()), LEFT.with(|x| x.get()), Assert(BATON.with(|x| x.get())), ACTIVE.with(|x| x.get()));
    ACTIVE.with(|a| a.set(false));
    let f = Assert(f);
    let (r, left, blocks) = std::thread::scope(|s| {
        s.spawn(move || {
            let (f, bat) = (f.into(), bat.into());
            crate::entropy::configure(crate::entropy::EntropyCfg { seed: 99, ..Default::default() });
            ME.with(|x| x.set(me));
            LEFT.with(|x| x.set(left));
            BATON.with(|x| x.set(bat));
            ACTIVE.with(|x| x.set(active));
            let r = guard(f);
            ACTIVE.with(|x| x.set(false));
            Assert((r, LEFT.with(|x| x.get()), BLOCKS.with(|x| x.get())))
        })
        .join()
        .unwrap()
        .into()
    });
    LEFT.with(|x| x.set(left));
    BLOCKS.with(|x| x.set(x.get() + blocks));
    ACTIVE.with(|x| x.set(active));
    match r {
        Ok(r) => r,
        Err(p) => panic!("{}", p),
    }
}

fn operate(t: &mut Task, base: &Game, w: usize, n: usize, b: u32, c: u32) -> String {
    let c = c as usize;
    let mut out = String::new();
    let k = if t.games.is_empty() { 0 } else { c / 7 % t.games.len() };
    match b % NOPS {
        0 => {
            if t.games.len() < 3 {
                let f = base.clone();
                if c % 4 == 0 {
                    let (a, b) = (obs(base, 2), obs(&f, 2));
                    if a != b {
                        let _ = write!(out, "{}a fork differs from its game: {}", INTERFERED, diff(&a, &b));
                        return out;
                    }
                }
                t.games.push(f);
            }
            out.push_str("fork");
        }
        1 | 2 | 3 => {
            // play on an own fork
            if let Some(g) = t.games.get_mut(k) {
                let legal: Vec<_> = g.legals().collect();
                let m = if legal.is_empty() { Move::Pass } else { let x = legal[c % legal.len()]; Move::Play(x.0, x.1) };
                pause();
                let r = g.try_play(m).map(|_| ()).err();
                let _ = write!(out, "play {:?} {:?} {}", m, r, game_digest(g));
            }
        }
        4 => {
            if let Some(g) = t.games.get_mut(k) {
                let r = g.try_play(mv(w, c % n)).map(|_| ()).err();
                let _ = write!(out, "try {} {:?} {}", c % n, r, game_digest(g));
            }
        }
        5 => {
            // lazy enumeration of the shared game, step by step
            let mut it = base.legals();
            let mut v = vec![];
            loop {
                pause();
                match it.next() {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            let _ = write!(out, "legals {:?}", v);
        }
        6 => {
            let f = flags((c % 16) as u8);
            let mut v = vec![];
            for x in base.legals_by(f) {
                v.push(x);
                pause();
            }
            let _ = write!(out, "legals_by {} {:?}", c % 16, v);
        }
        7 => {
            let p = coord(w, c % n);
            if base.get_color(p).is_none() {
                let pv = base.play_for_verification(p);
                let _ = write!(out, "preview {}", cells(&pv).draw());
            }
            let _ = write!(out, " {:?}", base.check_point(p));
        }
        8 => {
            let _ = write!(out, "score {:?} {:?} {:?}", base.calculate_score(), base.outcome(), base.calculate_territories());
        }
        9 => {
            let _ = write!(out, "base {}", obs(base, 2));
        }
        10 => {
            if let Some(g) = t.games.get_mut(k) {
                let mut f = g.clone();
                if c % 3 == 0 {
                    // a copy into a game that exists
                    f = Game::new(goban::rules::GobanSizes::Custom(2, 1 + c % 19), goban::rules::JAPANESE);
                    f.clone_from(g);
                }
                let (a, b) = (obs(g, 2), obs(&f, 2));
                if a != b {
                    let _ = write!(out, "{}a fork differs from its game: {}", INTERFERED, diff(&a, &b));
                    return out;
                }
                if c % 5 == 0 && !g.is_over() {
                    // the copy knows of the pass before it
                    for x in [&mut *g, &mut f] {
                        let _ = x.try_play(Move::Pass);
                    }
                    if g.is_over() != f.is_over() {
                        let _ = write!(out, "{}a pass ends the game {}, not its fork", INTERFERED, cells(g.goban()).draw());
                        return out;
                    }
                    for x in [g, &mut f] {
                        x.resume();
                    }
                }
                if t.games.len() < 4 {
                    t.games.push(f);
                } else {
                    t.games[0] = f;
                }
            }
            out.push_str("fork of fork");
        }
        11 => {
            if let Some(g) = t.games.get(k) {
                let _ = write!(out, "score {:?} eq {} z {:x} floating {}", g.calculate_score(), g.goban() == base.goban(), g.zobrist_hash(), g.get_floating_stones().len());
            }
        }
        12 => {
            if !t.games.is_empty() {
                t.games.remove(k);
            }
            out.push_str("drop");
        }
        13 => {
            if let Some(g) = t.games.get_mut(k) {
                let m = if c % 2 == 0 { Move::Pass } else { Move::Pass };
                let r = g.try_play(m).map(|_| ()).err();
                g.resume();
                let _ = write!(out, "pass {:?} {}", r, game_digest(g));
            }
        }
        14 => {
            // groups of the shared board, step by step
            let mut v = vec![];
            for ch in base.chains() {
                pause();
                let mut l = ch.liberties();
                l.sort_unstable();
                v.push((uncol(ch.color), ch.num_stones, l));
            }
            v.sort();
            let _ = write!(out, "groups {:?}", v);
        }
        15 | 16 => {
            // several lazy enumerations, of the shared game and of forks, advanced in turn on one thread
            let mut rng = Rng::new(c as u64 ^ 0x1A2);
            let games: Vec<&Game> = std::iter::once(base).chain(t.games.iter()).collect();
            let pick: Vec<(usize, usize)> = (0..rng.range(2, 4)).map(|_| (rng.below(games.len()), rng.below(11 * 16))).collect();
            let alone: Vec<Vec<u64>> = pick.iter().map(|&(g, k)| lazy(games[g], k).collect()).collect();
            let mut its: Vec<_> = pick.iter().map(|&(g, k)| Some(lazy(games[g], k))).collect();
            let mut got: Vec<Vec<u64>> = vec![vec![]; its.len()];
            while its.iter().any(|i| i.is_some()) {
                let i = rng.below(its.len());
                pause();
                if let Some(it) = &mut its[i] {
                    match it.next() {
                        Some(x) => got[i].push(x),
                        None => its[i] = None,
                    }
                }
                if rng.pct(5) {
                    // an enumeration that is given up
                    let _ = lazy(games[rng.below(games.len())], rng.below(176)).next();
                }
            }
            for i in 0..got.len() {
                if got[i] != alone[i] {
                    let _ = write!(out, "{}enumeration {} of game {} gave {:?} when others were advanced in between, {:?} alone", INTERFERED, pick[i].1 % 11, pick[i].0, got[i], alone[i]);
                    return out;
                }
            }
            let _ = write!(out, "together {:?}", got);
        }
        17 | 18 => {
            // another game on a board of another size
            let mut rng = Rng::new(c as u64 ^ 0x0117);
            if t.own.is_none() || c % 5 == 0 {
                let (h, w) = (rng.range(2, 7), rng.range(2, 7));
                t.own = Some(Game::new(sizes(h, w), if c % 2 == 0 { goban::rules::JAPANESE } else { goban::rules::CHINESE }));
            }
            if c % 3 == 0 {
                // stones at the same indexes as in the shared game
                if let Some(g) = same_indexes(base, &mut rng) {
                    let (here, there) = (eyes(&g), elsewhere(|| eyes(&g)));
                    let (here2, there2) = (eyes(base), elsewhere(|| eyes(base)));
                    for (a, b) in [(here, there), (here2, there2)] {
                        if a != b {
                            let _ = write!(out, "{}the games {} and {} exist; one answers {} in this thread, in a fresh one {}", INTERFERED, cells(g.goban()).draw(), cells(base.goban()).draw(), a, b);
                            return out;
                        }
                        let _ = write!(out, "{} ", a);
                    }
                    t.own = Some(g);
                }
            }
            let g = t.own.as_mut().unwrap();
            for _ in 0..rng.range(1, 6) {
                let legal: Vec<_> = g.legals().collect();
                pause();
                let m = if legal.is_empty() { Move::Pass } else { let x = legal[rng.below(legal.len())]; Move::Play(x.0, x.1) };
                let r = g.try_play(m).map(|_| ()).err();
                if g.is_over() {
                    g.resume();
                }
                let _ = write!(out, "own {:?} {:?} ", m, r);
            }
            out.push_str(&game_digest(g));
        }
        _ => {
            // an own fork is enumerated while it is being copied and the copy played on
            if let Some(g) = t.games.get(k) {
                let mut v = vec![];
                let mut f = g.clone();
                let alone: Vec<_> = g.legals().collect();
                for x in g.legals() {
                    v.push(x);
                    pause();
                    if f.try_play(Move::Play(x.0, x.1)).is_err() {
                        let _ = f.try_play(Move::Pass);
                        f.resume();
                    }
                }
                if v != alone {
                    let _ = write!(out, "{}legal moves {:?} while a fork was played on, {:?} alone", INTERFERED, v, alone);
                    return out;
                }
                let _ = write!(out, "enumerate {:?} {} then {}", v, cells(g.goban()).draw(), game_digest(&f));
            }
        }
    }
    out
}

fn run_ops(t: &mut Task, base: Shared, w: usize, n: usize, ops: &[(u32, u32)], depth: usize) {
    for (i, &(b, c)) in ops.iter().enumerate() {
        if b / NOPS % 12 == 0 && depth < 3 && i > 0 {
            // the task moves to another thread
            let rest = &ops[i..];
            let (me, left, bat, active) = (ME.with(|x| x.get()), LEFT.with(|x| x.get()), Assert(BATON.with(|x| x.get())), ACTIVE.with(|x| x.get()));
            ACTIVE.with(|a| a.set(false));
            let moved = Assert(&mut *t);
            let (left, blocks) = std::thread::scope(|s| {
                s.spawn(move || {
                    let t = moved.into();
                    let bat = bat.into();
                    crate::entropy::configure(crate::entropy::EntropyCfg { seed: 99, ..Default::default() });
                    ME.with(|x| x.set(me));
                    LEFT.with(|x| x.set(left));
                    BATON.with(|x| x.set(bat));
                    ACTIVE.with(|x| x.set(active));
                    t.log.push("moved".into());
                    let (b, c) = rest[0];
                    one(t, base, w, n, b, c);
                    run_ops(t, base, w, n, &rest[1..], depth + 1);
                    ACTIVE.with(|x| x.set(false));
                    (LEFT.with(|x| x.get()), BLOCKS.with(|x| x.get()))
                })
                .join()
                .unwrap()
            });
            LEFT.with(|x| x.set(left));
            BLOCKS.with(|x| x.set(x.get() + blocks));
            ACTIVE.with(|x| x.set(active));
            return;
        }
        one(t, base, w, n, b, c);
    }
}

fn one(t: &mut Task, base: Shared, w: usize, n: usize, b: u32, c: u32) {
    pause();
    let r = {
        let tt = &mut *t;
        guard(move || operate(tt, base.get(), w, n, b, c))
    };
    let s = match r {
        Ok(s) => s,
        Err(p) => format!("{}", p),
    };
    t.log.push(s);
}

fn make_base(cx: &mut Cx, cfg: &Cfg, evs: &[Ev]) -> R<Game> {
    let g = cfg.create(cfg.ctor)?;
    let mut p = Party::new(g, cfg.start_track(), 1000);
    let mut last: Vec<usize> = vec![];
    for e in evs {
        if e.k == REQ {
            let req = choose_on(cfg, &p.t.board, p.t.turn, &p.t, &last, *e);
            if matches!(req, Req::Resign(_) | Req::Off(..)) {
                continue;
            }
            let pre = p.t.board.clone();
            p.request(cx, req, How::Try)?;
            if p.t.paused() {
                p.request(cx, Req::Resume, How::Try)?;
            }
            last = (0..pre.n()).filter(|&i| pre.c[i] != 0 && p.t.board.c[i] == 0).collect();
        }
    }
    Ok(p.g)
}

fn solo(base: &Game, cfg: &Cfg, prog: &[Vec<(u32, u32)>]) -> (Vec<Vec<String>>, u64) {
    let mut all = vec![];
    let mut blocks = 0;
    for ops in prog {
        let sh = Shared(base);
        let (w, n) = (cfg.w, cfg.n());
        let r = std::thread::scope(|s| {
            s.spawn(move || {
                crate::entropy::configure(crate::entropy::EntropyCfg { seed: 99, ..Default::default() });
                let mut t = Task { games: vec![], own: None, log: vec![] };
                LEFT.with(|x| x.set(u64::MAX));
                ACTIVE.with(|x| x.set(true));
                run_ops(&mut t, sh, w, n, ops, 0);
                ACTIVE.with(|x| x.set(false));
                Assert((std::mem::take(&mut t.log), BLOCKS.with(|x| x.get())))
            })
            .join()
            .unwrap()
            .into()
        });
        all.push(r.0);
        blocks += r.1;
    }
    (all, blocks)
}

pub fn run(cx: &mut Cx, cfg: &Cfg, evs: &[Ev]) -> R {
    if !(&ProbeSend::<Game>(PhantomData)).sendable() {
        return viol("a game cannot be moved to another thread (it is not Send)");
    }
    if !(&ProbeSync::<Game>(PhantomData)).shareable() {
        return viol("a game cannot be shared between threads (it is not Sync)");
    }
    let nt = cfg.clients.clamp(2, 4);
    let mut prog: Vec<Vec<(u32, u32)>> = vec![vec![]; nt];
    let mut sched = vec![];
    for e in evs {
        match e.k {
            TOP => prog[e.a as usize % nt].push((e.b, e.c)),
            SCHED => sched.push((e.a, e.b)),
            _ => {}
        }
    }
    cx.step = evs.len();
    let base0 = make_base(cx, cfg, evs)?;
    let base = make_base(cx, cfg, evs)?;
    let before = pan(guard(|| obs(&base, 2)), || "observe")?;
    let (alone, _) = solo(&base0, cfg, &prog);
    let after_solo = pan(guard(|| obs(&base0, 2)), || "observe")?;
    if before != after_solo {
        return viol(format!("tasks that only read the game and played on forks changed it: {}", diff(&before, &after_solo)));
    }
    // interleaved
    let baton = Arc::new(Baton::new(nt, sched));
    let mut handles: Vec<Vec<String>> = vec![];
    let mut blocks = 0;
    let sh = Shared(&base);
    let (w, n) = (cfg.w, cfg.n());
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|i| {
                let baton = baton.clone();
                let ops = &prog[i];
                s.spawn(move || {
                    crate::entropy::configure(crate::entropy::EntropyCfg { seed: 99, ..Default::default() });
                    ME.with(|x| x.set(i));
                    BATON.with(|x| x.set(&*baton as *const Baton));
                    baton.start(i);
                    ACTIVE.with(|x| x.set(true));
                    let mut t = Task { games: vec![], own: None, log: vec![] };
                    run_ops(&mut t, sh, w, n, ops, 0);
                    ACTIVE.with(|x| x.set(false));
                    baton.finish(i);
                    Assert((std::mem::take(&mut t.log), BLOCKS.with(|x| x.get())))
                })
            })
            .collect();
        for h in hs {
            let (l, b) = h.join().unwrap().into();
            handles.push(l);
            blocks += b;
        }
    });
    {
        let s = baton.m.lock().unwrap();
        cx.add("task_switches", s.switches);
        cx.add("task_switches_inside_calls", s.inside);
        cx.add("blocked_task_fallbacks", s.blocked);
        cx.add("tasks_that_waited_for_a_lock", s.lock_waits);
        cx.shape = mix(cx.shape ^ s.shape);
        cx.hot += s.inside;
        if s.blocked == 0 {
            cx.digest = mix(cx.digest ^ s.shape);
        }
    }
    cx.add("library_blocks_executed_by_tasks", blocks);
    cx.add("task_operations", prog.iter().map(|p| p.len() as u64).sum());
    let after = pan(guard(|| obs(&base, 2)), || "observe")?;
    if after != before {
        return viol(format!("interleaved tasks that only read the game and played on forks changed it: {}", diff(&before, &after)));
    }
    let compare = |x: &[Vec<String>], y: &[Vec<String>], what: &str| -> R {
        for i in 0..nt {
            if x[i].len() != y[i].len() {
                return viol(format!("task {} logged {} answers {}, {} alone", i, x[i].len(), what, y[i].len()));
            }
            for (k, (a, b)) in x[i].iter().zip(&y[i]).enumerate() {
                if a != b {
                    let d = diff(a, b);
                    return viol(format!("task {} step {}: answer {} differs from the answer alone: {}", i, k, what, if d.is_empty() { format!("{} / {}", a, b) } else { d }));
                }
            }
        }
        Ok(())
    };
    compare(&handles, &alone, "when interleaved")?;
    for l in &alone {
        for s in l {
            cx.dig(s);
        }
        if let Some(p) = l.iter().find(|s| s.starts_with(INTERFERED)) {
            return viol(p.clone());
        }
        if let Some(p) = l.iter().find(|s| s.starts_with("panic '")) {
            return viol(format!("a task failed: {}", p));
        }
    }
    let (again, _) = solo(&base, cfg, &prog);
    compare(&again, &alone, "alone after the interleaved run")?;
    // judged by the model: what the shared game says
    let b = pan(guard(|| cells(base.goban())), || "read board")?;
    cx.states.insert(b.hash64());
    Ok(())
}

pub fn gen(rng: &mut Rng, cfg: &Cfg, long: bool) -> Vec<Ev> {
    let mut v = vec![];
    let u = |rng: &mut Rng| rng.u32() & 0x7fff_ffff;
    for _ in 0..rng.below(30) {
        v.push(Ev { k: REQ, a: rng.below(59) as u32, b: u(rng), c: u(rng) });
    }
    let nt = cfg.clients.clamp(2, 4);
    for t in 0..nt {
        v.push(Ev { k: TOP, a: t as u32, b: NOPS, c: 0 });
    }
    let ops = if long { rng.range(10, 90) } else { rng.range(4, 40) };
    // now and then all tasks favour the same kind of operation
    let fav = rng.below(NOPS as usize) as u32;
    let bias = if rng.pct(50) { rng.range(20, 80) } else { 0 };
    for _ in 0..ops {
        let mut b = u(rng);
        if rng.pct(bias) {
            b = b / NOPS * NOPS + fav;
        }
        v.push(Ev { k: TOP, a: u(rng), b, c: u(rng) });
    }
    let style = rng.below(4);
    for _ in 0..rng.range(5, if long { 400 } else { 120 }) {
        let mut b = u(rng);
        match style {
            0 => b = b / 8 * 8 + 3,
            1 => b = b / 8 * 8 + 5,
            _ => {}
        }
        v.push(Ev { k: SCHED, a: u(rng), b, c: 0 });
    }
    v
}
