//! A go server in one process: a host that owns the real game and a write-ahead log on a simulated
//! disk, clients that ask for moves from stale views over a simulated network, spectators, crashes
//! and recoveries. Everything that happens is decided by the schedule (`Ev`s).

use crate::cx::*;
use crate::model::*;
use crate::party::*;
use crate::rng::*;
use crate::sut::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{MaybeColor, Stone};
use goban::rules::game::Game;
use goban::rules::game_builder::GameBuilder;
use goban::rules::Move;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub h: usize,
    pub w: usize,
    pub builtin: u8,
    pub rules: Rules,
    pub setup: Vec<(usize, u8)>,
    pub handicap: Vec<usize>,
    pub turn: u8,      // 0: not given
    pub outcome: u8,   // 0 none, else an outcome given to the builder
    pub ctor: u8,      // 0 new, 1 builder
    pub clients: usize,
    pub win: [usize; 4], // focus window r0 c0 h w
    pub check_every: usize,
    pub dedupe: bool,
    pub sync_each: bool,
    pub ack_early: bool,
    pub wal: bool, // log before applying
    pub rto: u64,
    pub entropy: u64,
}

impl Cfg {
    pub fn n(&self) -> usize {
        self.h * self.w
    }

    pub fn start_board(&self) -> Board {
        let mut b = Board::new(self.h, self.w);
        for &p in &self.handicap {
            b.c[p] = 1;
        }
        for &(p, c) in &self.setup {
            b.c[p] = c;
        }
        b
    }

    pub fn start_turn(&self) -> u8 {
        if self.turn != 0 {
            self.turn
        } else if !self.handicap.is_empty() {
            2
        } else {
            1
        }
    }

    pub fn start_track(&self) -> Track {
        let mut t = Track::new(self.rules.clone(), self.start_board(), self.start_turn());
        t.outcome = given_outcome(self.outcome);
        t
    }

    pub fn base_komi(&self) -> i32 {
        match self.builtin {
            1 => japanese().komi4,
            2 => chinese().komi4,
            _ => self.rules.komi4,
        }
    }

    pub fn builder(&self) -> GameBuilder {
        let mut b = GameBuilder::default();
        // the order of the calls does not matter, except among the stones of the setup
        let mut calls = [0, 1, 2, 3, 4, 5, 6];
        if mix(self.entropy ^ 0xb17d) % 2 == 0 {
            let mut r = Rng::new(self.entropy ^ 0xb17d);
            for i in (1..calls.len()).rev() {
                calls.swap(i, r.below(i + 1));
            }
        }
        for k in calls {
            match k {
                0 => {
                    b.size((self.h as u8, self.w as u8));
                }
                1 => {
                    b.rule(rule(self.builtin, &self.rules));
                }
                2 if self.rules.komi4 != self.base_komi() => {
                    b.komi(self.rules.komi4 as f32 / 4.0);
                }
                3 if !self.handicap.is_empty() => {
                    let pts: Vec<_> = self.handicap.iter().map(|&p| coord(self.w, p)).collect();
                    b.put_handicap(&pts);
                }
                4 => {
                    for &(p, c) in &self.setup {
                        b.add(Stone { coord: coord(self.w, p), color: col(c) });
                    }
                }
                5 if self.turn != 0 => {
                    b.turn(col(self.turn));
                }
                6 => {
                    if let Some(e) = given_outcome(self.outcome) {
                        b.outcome(unend(e));
                    }
                }
                _ => {}
            }
        }
        b
    }

    /// Only the builder can express setup stones, the side to move and a given outcome.
    pub fn needs_builder(&self) -> bool {
        !self.setup.is_empty() || self.turn != 0 || self.outcome != 0
    }

    pub fn create(&self, ctor: u8) -> R<Game> {
        if ctor == 1 || self.needs_builder() {
            match pan(guard(|| self.builder().build()), || "build")? {
                Ok(g) => Ok(g),
                Err(e) => viol(format!("build of a valid configuration refused: {}", e)),
            }
        } else {
            pan(
                guard(|| {
                    let mut g = Game::new(sizes(self.h, self.w), rule(self.builtin, &self.rules));
                    if self.rules.komi4 != self.base_komi() {
                        g.set_komi(self.rules.komi4 as f32 / 4.0);
                    }
                    if !self.handicap.is_empty() {
                        let pts: Vec<_> = self.handicap.iter().map(|&p| coord(self.w, p)).collect();
                        g.put_handicap(&pts);
                    }
                    g
                }),
                || "new game",
            )
        }
    }
}

pub fn given_outcome(k: u8) -> Option<End> {
    match k {
        1 => Some(End::Time(1)),
        2 => Some(End::Forfeit(2)),
        3 => Some(End::Draw),
        4 => Some(End::Score(1, 14)),
        5 => Some(End::Resign(2)),
        _ => None,
    }
}

/// Entries of the durable log.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Play(u8, usize),
    Pass(u8),
    Resume,
    Resign(u8),
    Komi(i32),
}

const REC: usize = 12;

fn encode(i: usize, e: Entry) -> [u8; REC] {
    let (k, a, b) = match e {
        Entry::Play(c, p) => (1u8, c, p as u32),
        Entry::Pass(c) => (2, c, 0),
        Entry::Resume => (3, 0, 0),
        Entry::Resign(c) => (4, c, 0),
        Entry::Komi(q) => (5, 0, q as u32),
    };
    let mut r = [0u8; REC];
    r[0..2].copy_from_slice(&(i as u16).to_le_bytes());
    r[2] = k;
    r[3] = a;
    r[4..8].copy_from_slice(&b.to_le_bytes());
    let s = fnv(&r[..8], FNV0) as u32;
    r[8..12].copy_from_slice(&s.to_le_bytes());
    r
}

fn decode(i: usize, r: &[u8]) -> Option<Entry> {
    if r.len() < REC {
        return None;
    }
    let s = fnv(&r[..8], FNV0) as u32;
    if r[8..12] != s.to_le_bytes() || u16::from_le_bytes([r[0], r[1]]) as usize != i {
        return None;
    }
    let b = u32::from_le_bytes([r[4], r[5], r[6], r[7]]);
    Some(match r[2] {
        1 => Entry::Play(r[3], b as usize),
        2 => Entry::Pass(r[3]),
        3 => Entry::Resume,
        4 => Entry::Resign(r[3]),
        5 => Entry::Komi(b as i32),
        _ => return None,
    })
}

#[derive(Default)]
struct Disk {
    durable: Vec<u8>,
    buffer: Vec<u8>,
}

impl Disk {
    fn entries(&self) -> Vec<Entry> {
        let mut v = vec![];
        for (i, r) in self.durable.chunks(REC).enumerate() {
            match decode(i, r) {
                Some(e) => v.push(e),
                None => break,
            }
        }
        v
    }
}

#[derive(Clone, Debug)]
enum Body {
    Request { client: usize, seq: u32, req: Req },
    Commit { to: usize, idx: usize },
    Answer { to: usize, seq: u32 },
}

#[derive(Clone, Debug)]
struct Msg {
    body: Body,
    client: usize,
}

struct Client {
    view: usize,
    got: std::collections::BTreeSet<usize>,
    seq: u32,
    pending: Option<(u32, Req, u64)>,
    cut: bool,
    mirror: Option<Game>,
    mirror_at: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum CrashPt {
    BeforeApply,
    AfterApply,
    AfterAppend,
    AfterSync,
}

pub struct World {
    pub cfg: Cfg,
    pub host: Party,
    disk: Disk,
    log: Vec<Entry>,
    /// boards[i], turns[i]: the state after i log entries
    boards: Vec<Board>,
    turns: Vec<u8>,
    obs_at: Vec<String>,
    recent: Vec<(usize, Game)>,
    clients: Vec<Client>,
    net: Vec<Msg>,
    seen_seq: Vec<u32>,
    armed: Option<(CrashPt, u32, u32)>,
    forks: Vec<Party>,
    gobans: Vec<(Goban, Board)>,
    pool: Vec<(Goban, Board)>,
    joiner: Option<(Game, Board, usize)>,
    last_captured: Vec<usize>,
    ghost_left: usize,
}

// event kinds
pub const REQ: u8 = 0; // a = chooser kind | client, b, c = selection; immediate delivery
pub const SEND: u8 = 1; // like REQ but over the network
pub const DELIVER: u8 = 2;
pub const DROP: u8 = 3;
pub const DUP: u8 = 4;
pub const CORRUPT: u8 = 5;
pub const TICK: u8 = 6;
pub const CUT: u8 = 7;
pub const CRASH: u8 = 8;
pub const ARM: u8 = 9;
pub const SYNC: u8 = 10;
pub const QUERY: u8 = 11;
pub const FORK: u8 = 12;
pub const ONFORK: u8 = 13;
pub const RESUME: u8 = 14;
pub const KOMI: u8 = 15;
pub const SGF: u8 = 16;
pub const DAMAGE: u8 = 17;
pub const SNAP: u8 = 18;
pub const BOARDOP: u8 = 19;
pub const REJOIN: u8 = 20;
pub const REPLICA: u8 = 21;
pub const OFF: u8 = 22;
pub const EQHASH: u8 = 23;
pub const NKINDS: usize = 24;

pub const KIND_NAMES: [&str; NKINDS] = [
    "request", "send", "deliver", "drop", "duplicate", "corrupt", "tick", "partition", "crash", "arm_crash", "sync", "query",
    "fork", "on_fork", "resume", "komi", "sgf_save_load", "sgf_damage_load", "snapshot_join", "board_op", "mirror_rejoin",
    "replica_process", "off_board", "eq_hash",
];

impl World {
    pub fn new(cx: &mut Cx, cfg: Cfg) -> R<World> {
        let g = cfg.create(cfg.ctor)?;
        let t = cfg.start_track();
        let mut host = Party::new(g, t, cfg.check_every);
        if cx.on(3) {
            host.twin = Some(cfg.create(1 - cfg.ctor)?);
        }
        let clients = (0..cfg.clients.max(1))
            .map(|_| Client { view: 0, got: Default::default(), seq: 0, pending: None, cut: false, mirror: None, mirror_at: 0 })
            .collect();
        let mut w = World {
            boards: vec![cfg.start_board()],
            turns: vec![cfg.start_turn()],
            obs_at: vec![],
            seen_seq: vec![0; cfg.clients.max(1)],
            cfg,
            host,
            disk: Disk::default(),
            log: vec![],
            recent: vec![],
            clients,
            net: vec![],
            armed: None,
            forks: vec![],
            gobans: vec![],
            pool: vec![],
            joiner: None,
            last_captured: vec![],
            ghost_left: 0,
        };
        if cx.on(5) {
            // the configuration is part of what a game is rebuilt from
            let (g, t) = (&w.host.g, &w.host.t);
            let is = pan(guard(|| (g.size(), cells(g.goban()), uncol(g.turn()), g.prisoners(), end(g.outcome()), g.komi(), g.history().count())), || "observe")?;
            let should = ((w.cfg.h as u8, w.cfg.w as u8), t.board.clone(), t.turn, (0, 0), t.outcome, t.rules.komi4 as f32 / 4.0, 0);
            if is != should {
                return viol(format!("a game built from its configuration is {:?} instead of {:?} (size, board, turn, prisoners, outcome, komi, earlier positions)", is, should));
            }
        }
        w.host.check(cx, true)?;
        w.archive(cx)?;
        Ok(w)
    }

    /// Archive what replicas and rebuilt games have to equal at this log index.
    fn archive(&mut self, cx: &mut Cx) -> R {
        if cx.on(9) {
            self.obs_at.truncate(self.log.len());
            while self.obs_at.len() < self.log.len() {
                self.obs_at.push(String::new());
            }
            let o = pan(guard(|| obs(&self.host.g, 1)), || "observe")?;
            self.obs_at.push(o);
        }
        if cx.on(5) {
            let at = self.log.len();
            self.recent.retain(|x| x.0 < at);
            self.recent.push((at, self.host.g.clone()));
        }
        Ok(())
    }

    fn durable_len(&self) -> usize {
        self.disk.durable.len() / REC
    }

    pub fn step(&mut self, cx: &mut Cx, e: Ev) -> R {
        cx.step += 1;
        cx.now_ms += 1 + (e.c as u64 % 20);
        cx.shp(&[e.k]);
        match e.k {
            REQ => {
                let cl = e.a as usize / 64 % self.clients.len();
                let req = self.choose(cl, e);
                let how = how(e.c);
                cx.n("requests");
                self.process(cx, req, how, None)?;
            }
            SEND => {
                let cl = e.a as usize / 64 % self.clients.len();
                if self.clients[cl].pending.is_none() {
                    let req = self.choose(cl, e);
                    self.clients[cl].seq += 1;
                    let seq = self.clients[cl].seq;
                    self.clients[cl].pending = Some((seq, req, cx.now_ms));
                    self.net.push(Msg { body: Body::Request { client: cl, seq, req }, client: cl });
                    cx.n("requests");
                }
            }
            DELIVER => {
                if !self.net.is_empty() {
                    let i = e.a as usize % self.net.len();
                    if i != 0 {
                        cx.n("fault_reordered_message");
                    }
                    if !self.clients[self.net[i].client].cut {
                        let m = self.net.remove(i);
                        cx.shp(&[i as u8]);
                        self.deliver(cx, m, e)?;
                    }
                }
            }
            DROP => {
                if !self.net.is_empty() {
                    let i = e.a as usize % self.net.len();
                    self.net.remove(i);
                    cx.n("fault_lost_message");
                }
            }
            DUP => {
                if !self.net.is_empty() && self.net.len() < 64 {
                    let i = e.a as usize % self.net.len();
                    let m = self.net[i].clone();
                    self.net.push(m);
                    cx.n("fault_duplicated_message");
                }
            }
            CORRUPT => {
                let reqs: Vec<usize> = (0..self.net.len()).filter(|&i| matches!(self.net[i].body, Body::Request { .. })).collect();
                if !reqs.is_empty() {
                    let i = reqs[e.a as usize % reqs.len()];
                    let (h, w) = (self.cfg.h, self.cfg.w);
                    if let Body::Request { req, .. } = &mut self.net[i].body {
                        let (r, c) = ((e.b & 0xff) as u8, (e.b >> 8 & 0xff) as u8);
                        let (r, c) = if e.c % 2 == 0 { (r % 24, c % 24) } else { (r, c) };
                        *req = if (r as usize) < h && (c as usize) < w {
                            Req::Play(r as usize * w + c as usize)
                        } else if cx.focus == 14 || cx.focus == 3 {
                            Req::Off(r, c)
                        } else {
                            Req::Pass
                        };
                        cx.n("fault_corrupted_message");
                    }
                }
            }
            TICK => self.tick(cx, e)?,
            CUT => {
                let cl = e.a as usize % self.clients.len();
                self.clients[cl].cut = !self.clients[cl].cut;
                cx.n(if self.clients[cl].cut { "fault_partition" } else { "partition_healed" });
            }
            CRASH => self.crash(cx, e.a, e.b, "idle")?,
            ARM => {
                let pt = [CrashPt::BeforeApply, CrashPt::AfterApply, CrashPt::AfterAppend, CrashPt::AfterSync][e.c as usize % 4];
                self.armed = Some((pt, e.a, e.b));
            }
            SYNC => self.sync(cx)?,
            QUERY => self.query(cx, e)?,
            FORK => {
                if self.forks.len() < 3 {
                    let mut f = self.host.clone();
                    f.ghost = None;
                    f.twin = None;
                    self.forks.push(f);
                    cx.n("forks");
                } else {
                    let i = e.a as usize % self.forks.len();
                    self.forks.remove(i);
                }
            }
            ONFORK => {
                if !self.forks.is_empty() {
                    let i = e.b as usize / 977 % self.forks.len();
                    let f = &self.forks[i];
                    let req = choose_on(&self.cfg, &f.t.board, f.t.turn, &f.t, &[], e);
                    let before = if cx.on(17) { pan(guard(|| obs(&self.host.g, 2)), || "observe")? } else { String::new() };
                    self.forks[i].request(cx, req, how(e.c))?;
                    if cx.on(17) {
                        let now = pan(guard(|| obs(&self.host.g, 2)), || "observe")?;
                        if before != now {
                            return viol(format!("a play on a fork changed the original: {}", diff(&before, &now)));
                        }
                    }
                    cx.n("fork_ops");
                }
            }
            RESUME => self.process(cx, Req::Resume, How::Try, None)?,
            KOMI => {
                let k = (e.a % 80) as i32 - 20;
                self.process(cx, Req::Komi(k), How::Try, None)?;
            }
            SGF => crate::records::save_load(cx, &self.cfg, &self.log, &self.host, e)?,
            DAMAGE => crate::records::damage_load(cx, &self.cfg, &self.log, &self.host, e)?,
            SNAP => self.snapshot(cx, e)?,
            BOARDOP => self.board_op(cx, e)?,
            REJOIN => {
                let cl = e.a as usize % self.clients.len();
                self.clients[cl].mirror = None;
                self.clients[cl].mirror_at = 0;
                cx.n("fault_client_restart");
                if cx.on(9) {
                    self.catch_up(cx, cl, e.b)?;
                }
            }
            REPLICA => {
                if cx.on(9) {
                    self.replica(cx, e)?;
                }
            }
            OFF => {
                let (r, c) = off_coord(self.cfg.h, self.cfg.w, e);
                self.process(cx, Req::Off(r, c), how(e.c), None)?;
                if cx.on(14) {
                    self.off_other_paths(cx, r, c)?;
                }
            }
            EQHASH => self.eq_hash(cx, e)?,
            _ => {}
        }
        self.other_size(cx)
    }

    /// Now and then the process also holds a game of another size whose stones have the same
    /// indexes (and so the same hash). What it is asked must not change what this one answers.
    fn other_size(&mut self, cx: &mut Cx) -> R {
        let e = mix(self.cfg.entropy ^ 0x0616_e512);
        if e % 20 != 0 || cx.step % 3 != 0 {
            return Ok(());
        }
        let mut r = Rng::new(e ^ (cx.step / 30) as u64);
        let (h, w) = (self.cfg.h, self.cfg.w);
        let n = h * w;
        let (h2, w2) = *r.pick(&[(w, h), (h + 1, w), (h, w + 1), (h + 1, w), (h, w + 1), (1, n), (n, 1), (h + 1, w.max(2) - 1), (h.max(2) - 1, w + 1), (2, n / 2 + 1), (n / 2 + 1, 2)]);
        if h2 > 19 || w2 > 19 || (h2, w2) == (h, w) {
            return Ok(());
        }
        let mut cfg = self.cfg.clone();
        cfg.h = h2;
        cfg.w = w2;
        cfg.handicap.clear();
        cfg.setup = (0..n).filter(|&p| self.host.t.board.c[p] != 0).map(|p| (p, self.host.t.board.c[p])).collect();
        cfg.turn = self.host.t.turn;
        cfg.outcome = 0;
        cfg.ctor = 1;
        if cfg.setup.last().is_some_and(|&(p, _)| p >= h2 * w2) || cfg.start_board().has_dead() {
            return Ok(());
        }
        cx.n("games_of_another_size_with_the_same_hash");
        let mut other = Party::new(cfg.create(1)?, cfg.start_track(), 1);
        if cx.on(9) || cx.on(8) {
            let near = |g: &Game| pan(guard(|| obs(g, 2)), || "observe");
            let far = |g: &Game| {
                let g = crate::conc::Assert(g.clone());
                std::thread::scope(|s| {
                    s.spawn(move || {
                        let g = g.into();
                        crate::entropy::configure(crate::entropy::EntropyCfg { seed: 98, ..Default::default() });
                        pan(guard(|| obs(&g, 2)), || "observe")
                    })
                    .join()
                    .unwrap()
                })
            };
            for g in [&other.g, &self.host.g] {
                let (a, b) = (near(g)?, far(g)?);
                if a != b {
                    return viol(format!("a copy of a game answers differently in a fresh thread, a game of another size with stones at the same indexes exists: {}", diff(&a, &b)));
                }
            }
            return Ok(());
        }
        other.check(cx, true)?;
        self.host.check(cx, true)
    }

    /// What client `cl` asks for, judging by its possibly stale view.
    fn choose(&mut self, cl: usize, e: Ev) -> Req {
        let v = self.clients[cl].view.min(self.log.len());
        // REQ comes from a client that is up to date in most cases
        let v = if e.k == REQ && e.b % 8 != 0 { self.log.len() } else { v };
        let (b, t) = (self.boards[v].clone(), self.turns[v]);
        choose_on(&self.cfg, &b, t, &self.host.t, &self.last_captured, e)
    }

    fn process(&mut self, cx: &mut Cx, req: Req, how: How, from: Option<(usize, u32)>) -> R {
        if let Some((pt, a, b)) = self.armed {
            if pt == CrashPt::BeforeApply {
                self.armed = None;
                return self.crash(cx, a, b, "before apply");
            }
        }
        let turn = self.host.t.turn;
        let pre = self.host.t.board.clone();
        let was_paused = self.host.t.paused();
        // Entries that only repeat what is already so are not logged.
        if req == Req::Resume && !was_paused && !(cx.on(10) || cx.on(5)) {
            return Ok(());
        }
        if self.cfg.wal {
            // write-ahead: the entry reaches the disk before the game
            let legal = match req {
                Req::Play(p) => {
                    !was_paused && pan(guard(|| self.host.g.check_point(coord(self.cfg.w, p)).is_none()), || "check_point")?
                }
                Req::Pass | Req::Resign(_) => !was_paused,
                _ => true,
            };
            let dup_resign = matches!(req, Req::Resign(_)) && self.host.t.outcome.is_some();
            if legal && !dup_resign && !matches!(req, Req::Off(..)) {
                let ent = entry(req, turn);
                self.disk.buffer.extend(encode(self.log.len(), ent));
                if let Some((pt, a, b)) = self.armed {
                    if pt != CrashPt::AfterSync {
                        // the entry may or may not become durable, the game never saw it
                        self.armed = None;
                        return self.crash(cx, a, b, "logged, not applied");
                    }
                }
                if self.cfg.sync_each {
                    self.sync(cx)?;
                }
            }
        }
        let ok = self.host.request(cx, req, how)?;
        if self.ghost_left > 0 {
            self.ghost_left -= 1;
            if self.ghost_left == 0 {
                self.host.ghost = None;
            }
        }
        cx.shp(&[ok as u8]);
        if let Some((cl, seq)) = from {
            self.net.push(Msg { body: Body::Answer { to: cl, seq }, client: cl });
        }
        if !ok {
            if self.cfg.wal {
                // nothing was logged for a refused request
                let keep = self.log.len() * REC;
                if self.disk.durable.len() + self.disk.buffer.len() > keep {
                    self.disk.buffer.truncate(keep.saturating_sub(self.disk.durable.len()));
                    self.disk.durable.truncate(keep);
                }
            }
            return Ok(());
        }
        if let Some((pt, a, b)) = self.armed {
            if pt == CrashPt::AfterApply && !self.cfg.wal {
                self.armed = None;
                return self.crash(cx, a, b, "applied, not logged");
            }
        }
        if let Req::Play(_) = req {
            let post = &self.host.t.board;
            let cap: Vec<usize> = (0..pre.n()).filter(|&i| pre.c[i] != 0 && post.c[i] == 0).collect();
            self.last_captured = cap;
        }
        let ent = entry(req, turn);
        if !self.cfg.wal {
            self.disk.buffer.extend(encode(self.log.len(), ent));
        }
        self.log.push(ent);
        self.boards.push(self.host.t.board.clone());
        self.turns.push(self.host.t.turn);
        self.archive(cx)?;
        if let Some((pt, a, b)) = self.armed {
            if pt == CrashPt::AfterAppend {
                self.armed = None;
                return self.crash(cx, a, b, "appended, not synced");
            }
        }
        if self.cfg.sync_each || self.log.len() - self.durable_len().min(self.log.len()) > 6 {
            self.sync(cx)?;
        } else if self.cfg.ack_early {
            self.broadcast(self.log.len() - 1);
        }
        if let Some((pt, a, b)) = self.armed {
            if pt == CrashPt::AfterSync {
                self.armed = None;
                return self.crash(cx, a, b, "synced, not acknowledged");
            }
        }
        if let Some((jg, jb, _)) = &mut self.joiner {
            // C13: the late joiner follows
            let w = self.cfg.w;
            let m = match req {
                Req::Play(p) => Some(mv(w, p)),
                Req::Pass => Some(Move::Pass),
                _ => None,
            };
            if let Some(m) = m {
                if uncol(jg.turn()) != turn {
                    return viol("the late joiner has the wrong turn");
                }
                pan(
                    guard(|| {
                        if m == Move::Pass {
                            jg.resume();
                        }
                        jg.play(m);
                    }),
                    || "late joiner",
                )?;
                *jb = pan(guard(|| cells(jg.goban())), || "late joiner")?;
                if *jb != self.host.t.board || jg.goban() != self.host.g.goban() {
                    return viol(format!("late joiner shows {} after {:?}, the game {}", jb.draw(), req, self.host.t.board.draw()));
                }
                check_board_views(jg.goban(), jb)?;
                cx.n("joiner_steps");
            }
        }
        Ok(())
    }

    fn broadcast(&mut self, idx: usize) {
        for cl in 0..self.clients.len() {
            if self.net.len() < 200 {
                self.net.push(Msg { body: Body::Commit { to: cl, idx }, client: cl });
            }
        }
    }

    fn sync(&mut self, cx: &mut Cx) -> R {
        let from = self.durable_len();
        let b = std::mem::take(&mut self.disk.buffer);
        self.disk.durable.extend(b);
        let to = self.durable_len();
        if to > from {
            cx.n("syncs");
        }
        for i in from..to {
            self.broadcast(i);
        }
        let d = to.min(self.log.len());
        self.recent.retain(|x| x.0 >= d);
        Ok(())
    }

    fn deliver(&mut self, cx: &mut Cx, m: Msg, e: Ev) -> R {
        cx.n("messages_delivered");
        match m.body {
            Body::Request { client, seq, req } => {
                if self.cfg.dedupe && self.seen_seq[client] >= seq {
                    cx.n("duplicates_filtered");
                    self.net.push(Msg { body: Body::Answer { to: client, seq }, client });
                    return Ok(());
                }
                self.seen_seq[client] = self.seen_seq[client].max(seq);
                self.process(cx, req, how(e.c), Some((client, seq)))
            }
            Body::Commit { to, idx } => {
                self.clients[to].got.insert(idx);
                let c = &mut self.clients[to];
                let old = c.view;
                while c.got.remove(&c.view) {
                    c.view += 1;
                }
                if c.view > old && cx.on(9) {
                    self.catch_up(cx, to, e.b)?;
                }
                Ok(())
            }
            Body::Answer { to, seq } => {
                if let Some((s, _, _)) = self.clients[to].pending {
                    if s == seq {
                        self.clients[to].pending = None;
                    }
                }
                Ok(())
            }
        }
    }

    fn tick(&mut self, cx: &mut Cx, e: Ev) -> R {
        let jump = if e.b % 16 == 0 { 60_000 } else { 50 + (e.a as u64 % 400) };
        if e.b % 16 == 0 {
            cx.n("fault_clock_jump");
        }
        cx.now_ms += jump;
        let now = cx.now_ms;
        for cl in 0..self.clients.len() {
            if let Some((seq, req, at)) = self.clients[cl].pending {
                if now - at > self.cfg.rto {
                    self.clients[cl].pending = Some((seq, req, now));
                    self.net.push(Msg { body: Body::Request { client: cl, seq, req }, client: cl });
                    cx.n("retries");
                }
            }
            // anti-entropy: a client that lost commits asks again
            if self.clients[cl].view < self.durable_len() && e.c % 3 == 0 && self.net.len() < 150 {
                let i = self.clients[cl].view;
                self.net.push(Msg { body: Body::Commit { to: cl, idx: i }, client: cl });
            }
        }
        if e.b % 16 == 0 && e.c % 2 == 0 {
            // the player to move overstepped the time: the host passes for them
            cx.n("timeout_passes");
            self.process(cx, Req::Pass, How::Try, None)?;
        }
        Ok(())
    }

    /// The host dies; only the synced part of the log and perhaps some of the rest survives.
    fn crash(&mut self, cx: &mut Cx, route: u32, torn: u32, at: &'static str) -> R {
        cx.n("fault_host_crash");
        cx.n(match at {
            "idle" => "crash_idle",
            "before apply" => "crash_before_apply",
            "applied, not logged" => "crash_applied_not_logged",
            "logged, not applied" => "crash_logged_not_applied",
            "appended, not synced" => "crash_appended_not_synced",
            _ => "crash_synced_not_acked",
        });
        // what the page cache happened to write back
        let buf = std::mem::take(&mut self.disk.buffer);
        if !buf.is_empty() {
            let keep = torn as usize % (buf.len() + 1);
            if keep < buf.len() {
                cx.n(if keep % REC == 0 { "fault_lost_log_tail" } else { "fault_torn_log_tail" });
            }
            self.disk.durable.extend(&buf[..keep]);
            if torn & 0x4000_0000 != 0 {
                self.disk.durable.extend([0xAB, 0x00, 0x01]);
                cx.n("fault_garbage_log_tail");
            }
        }
        let entries = self.disk.entries();
        self.disk.durable.truncate(entries.len() * REC);
        let n = entries.len();
        // the write-ahead entry may be one ahead of what the game saw
        let ahead = n > self.log.len();
        cx.log(|| format!("host crash ({}), {} of {} entries survive, rebuild route {}", at, n, self.log.len(), route % 5));
        let mut ghost = None;
        if cx.on(5) {
            if ahead {
                let mut g = self.recent.iter().find(|x| x.0 == self.log.len()).map(|x| x.1.clone());
                if let Some(g) = g.as_mut() {
                    let e = entries[n - 1];
                    let w = self.cfg.w;
                    pan(guard(|| apply_plain(g, w, unentry(e))), || "replay")?;
                }
                ghost = g;
            } else {
                ghost = self.recent.iter().find(|x| x.0 == n).map(|x| x.1.clone());
            }
        }
        let g = self.rebuild(cx, &entries, route)?;
        // model at index n
        let mut t = self.cfg.start_track();
        let mut boards = vec![self.cfg.start_board()];
        let mut turns = vec![t.turn];
        for (i, &e) in entries.iter().enumerate() {
            let after = if i + 1 < self.boards.len() { Some(self.boards[i + 1].clone()) } else { None };
            track_entry(&mut t, e, after);
            boards.push(t.board.clone());
            turns.push(t.turn);
        }
        if n < self.log.len() {
            cx.n("recoveries_with_lost_tail");
        }
        self.log = entries;
        self.boards = boards;
        self.turns = turns;
        self.obs_at.truncate(n + 1);
        self.recent.retain(|x| x.0 <= n);
        for s in self.seen_seq.iter_mut() {
            *s = 0; // the dedupe table is volatile
        }
        for c in &mut self.clients {
            if c.view > n {
                c.view = n;
            }
            c.got.retain(|&i| i < n);
            if c.mirror_at > n {
                c.mirror = None;
                c.mirror_at = 0;
            }
        }
        self.net.retain(|m| !matches!(m.body, Body::Commit { idx, .. } if idx >= n));
        self.last_captured.clear();
        let mut host = Party::new(g, t, self.cfg.check_every);
        host.ops = self.host.ops;
        host.twin = if cx.on(3) { Some(host.g.clone()) } else { None };
        if n > 0 {
            cx.n("recoveries_of_nonempty_log");
        }
        if cx.on(5) {
            if let Some(gh) = ghost {
                let (a, b) = (pan(guard(|| obs(&host.g, 2)), || "observe rebuilt")?, pan(guard(|| obs(&gh, 2)), || "observe")?);
                if a != b {
                    return viol(format!("rebuilt by route {} from {} entries, differs from the lost game: {}", route % 5, n, diff(&a, &b)));
                }
                cx.n("rebuilds_compared");
                if n > 0 {
                    cx.hot += 1;
                }
                host.ghost = Some(gh);
                self.ghost_left = 40;
            } else {
                cx.n("rebuilds_without_ghost");
            }
        }
        if let Some((jg, jb, at)) = &self.joiner {
            let _ = (jg, jb, at);
            self.joiner = None;
        }
        self.host = host;
        if cx.on(1) || cx.on(17) || cx.on(4) || cx.on(10) || cx.on(11) || cx.on(12) || cx.on(13) || cx.on(18) {
            // whatever the rebuild did is now judged against the model
            self.host.check(cx, true)?;
        }
        if cx.on(2) {
            let (a, b) = (cells(self.host.g.goban()), self.host.t.board.clone());
            if a != b || self.host.g.prisoners() != self.host.t.pris || uncol(self.host.g.turn()) != self.host.t.turn {
                return viol(format!("game rebuilt from its moves shows {} prisoners {:?} turn {}, the moves give {} {:?} {}", a.draw(), self.host.g.prisoners(), uncol(self.host.g.turn()), b.draw(), self.host.t.pris, self.host.t.turn));
            }
        }
        self.archive(cx)?;
        Ok(())
    }

    fn rebuild(&self, cx: &mut Cx, entries: &[Entry], route: u32) -> R<Game> {
        let w = self.cfg.w;
        match route % 5 {
            0 | 1 => {
                // the builder takes moves; pauses that were resumed show in the moves themselves
                let mut upto = entries.len();
                let mut passes = 0;
                for (i, e) in entries.iter().enumerate() {
                    match e {
                        Entry::Pass(_) => {
                            passes = if passes >= 2 { 1 } else { passes + 1 };
                        }
                        Entry::Play(..) => passes = 0,
                        Entry::Resume => {
                            if passes < 2 && passes != 0 {
                                upto = i;
                                break;
                            }
                        }
                        _ => {}
                    }
                }
                if route % 5 == 1 && upto > 0 {
                    upto = route as usize / 5 % (upto + 1);
                    // not between the moves of a pause and its resumption
                    cx.n("rebuild_route_builder_prefix_then_replay");
                } else {
                    cx.n("rebuild_route_builder");
                }
                let mut moves = vec![];
                let mut komi = None;
                let mut trailing_resume = false;
                for e in &entries[..upto] {
                    trailing_resume = false;
                    match *e {
                        Entry::Play(_, p) => moves.push(mv(w, p)),
                        Entry::Pass(_) => moves.push(Move::Pass),
                        Entry::Resign(c) => moves.push(Move::Resign(col(c))),
                        Entry::Komi(k) => komi = Some(k),
                        Entry::Resume => trailing_resume = true,
                    }
                }
                let mut b = self.cfg.builder();
                b.moves(&moves);
                if let Some(k) = komi {
                    b.komi(k as f32 / 4.0);
                }
                let mut g = match pan(guard(|| b.build()), || "rebuild by builder")? {
                    Ok(g) => g,
                    Err(e) => return viol(format!("builder refused the log of a real game: {}", e)),
                };
                if trailing_resume || entries[..upto].iter().rev().take_while(|e| !matches!(e, Entry::Play(..) | Entry::Pass(_))).any(|e| *e == Entry::Resume) {
                    g.resume();
                }
                for e in &entries[upto..] {
                    if !pan(guard(|| apply_plain(&mut g, w, unentry(*e))), || "replay")? {
                        return viol(format!("replay of the log refused {:?}", e));
                    }
                }
                Ok(g)
            }
            2 | 3 => {
                cx.n("rebuild_route_replay_checked");
                let mut g = self.cfg.create((route / 5 % 2) as u8)?;
                for e in entries {
                    if !pan(guard(|| apply_plain(&mut g, w, unentry(*e))), || "replay")? {
                        return viol(format!("replay of the log refused {:?}", e));
                    }
                }
                Ok(g)
            }
            _ => {
                cx.n("rebuild_route_replay_unchecked");
                let mut g = self.cfg.create((route / 5 % 2) as u8)?;
                for e in entries {
                    pan(
                        guard(|| match unentry(*e) {
                            Req::Play(p) => {
                                g.play(mv(w, p));
                            }
                            Req::Pass => {
                                g.play(Move::Pass);
                            }
                            Req::Resign(c) => {
                                g.play(Move::Resign(col(c)));
                            }
                            r => {
                                apply_plain(&mut g, w, r);
                            }
                        }),
                        || "replay",
                    )?;
                }
                Ok(g)
            }
        }
    }

    /// Read-only requests of observers; nothing may change by them.
    fn query(&mut self, cx: &mut Cx, e: Ev) -> R {
        cx.n("queries");
        let w = self.cfg.w;
        let g = &self.host.g;
        let before = if cx.on(3) { Some(pan(guard(|| obs(g, 2)), || "observe")?) } else { None };
        let p = e.b as usize % self.cfg.n();
        let c = coord(w, p);
        let empty = self.host.t.board.c[p] == 0;
        pan(
            guard(|| match e.a % 9 {
                0 => {
                    g.legals().count();
                    g.legals_by(flags((e.c % 16) as u8)).take(e.b as usize % 7).count();
                }
                1 => {
                    if empty {
                        g.play_for_verification(c);
                        g.will_capture(c);
                        g.check_super_ko(Stone { coord: c, color: g.turn() });
                    }
                }
                2 => {
                    g.calculate_score();
                    g.outcome();
                }
                3 => {
                    g.check_point(c);
                    g.check_point_by(c, flags((e.c % 16) as u8));
                }
                4 => {
                    let mut f = g.clone();
                    let _ = f.try_play(Move::Pass);
                    let _ = f.try_play(mv(w, p));
                    f.set_komi(33.0);
                }
                5 => {
                    g.to_vec();
                    g.matrix();
                    g.pretty_string();
                }
                6 => {
                    if empty {
                        for k in [1, 2] {
                            let s = Stone { coord: c, color: col(k) };
                            g.check_suicide(s);
                            g.check_ko(s);
                            g.check_eye(s);
                        }
                    }
                }
                7 => {
                    g.history().count();
                    let (b, w) = g.get_territories();
                    b.count();
                    w.count();
                }
                _ => {
                    g.get_floating_stones();
                }
            }),
            || "query",
        )?;
        if let Some(b) = before {
            let now = pan(guard(|| obs(g, 2)), || "observe")?;
            if b != now {
                return viol(format!("query {} changed the game: {}", e.a % 9, diff(&b, &now)));
            }
        }
        Ok(())
    }

    /// C09: brings the client's own copy to its view and compares it with the host at that index.
    fn catch_up(&mut self, cx: &mut Cx, cl: usize, salt: u32) -> R {
        let upto = self.clients[cl].view.min(self.log.len());
        let w = self.cfg.w;
        let mut at = self.clients[cl].mirror_at;
        let mut g = match self.clients[cl].mirror.take() {
            Some(g) => g,
            None => {
                at = 0;
                if salt % 3 == 0 {
                    // a copy of the present game, if nothing newer is missing
                    if upto == self.log.len() {
                        at = upto;
                        self.host.g.clone()
                    } else {
                        self.cfg.create(1)?
                    }
                } else if salt % 3 == 1 {
                    at = upto;
                    self.rebuild(cx, &self.log[..upto].to_vec(), salt)?
                } else {
                    self.cfg.create((salt / 3 % 2) as u8)?
                }
            }
        };
        while at < upto {
            let e = self.log[at];
            let req = unentry(e);
            let ok = pan(
                guard(|| match req {
                    Req::Play(p) if salt % 2 == 0 => {
                        if g.check_point(coord(w, p)).is_some() {
                            false
                        } else {
                            g.play(mv(w, p));
                            true
                        }
                    }
                    _ => apply_plain(&mut g, w, req),
                }),
                || "replica",
            )?;
            if !ok {
                return viol(format!("a replica refused {:?}, which the host accepted at index {}", req, at));
            }
            at += 1;
            if at == upto || at % 5 == 0 {
                if let Some(o) = self.obs_at.get(at) {
                    if !o.is_empty() {
                        let m = pan(guard(|| obs(&g, 1)), || "observe")?;
                        if m != *o {
                            return viol(format!("replica differs from the host at index {}: {}", at, diff(&m, o)));
                        }
                        cx.n("replica_states_compared");
                    }
                }
            }
        }
        if at == self.log.len() && at > 0 {
            let (a, b) = (pan(guard(|| obs(&g, 2)), || "observe")?, pan(guard(|| obs(&self.host.g, 2)), || "observe")?);
            if a != b {
                return viol(format!("replica with the same {} entries differs: {}", at, diff(&a, &b)));
            }
            cx.hot += 1;
        }
        self.clients[cl].mirror = Some(g);
        self.clients[cl].mirror_at = at;
        Ok(())
    }

    /// C09: another process (fresh thread, other entropy) computes the same game from the log.
    fn replica(&mut self, cx: &mut Cx, e: Ev) -> R {
        let log = self.log.clone();
        let route = e.a;
        let b = pan(guard(|| obs(&self.host.g, 2)), || "observe")?;
        cx.n("replica_processes");
        let focus = cx.focus;
        let this = crate::conc::Assert(&*self);
        let seed = mix(e.b as u64 ^ 0x77);
        // in which order answers are given may not depend on the process either
        let mine = {
            let mut cx2 = Cx::new(focus, false);
            let g = self.rebuild(&mut cx2, &log, route)?;
            pan(guard(|| ordered(&g)), || "observe")?
        };
        let r: R<(String, String)> = std::thread::scope(|s| {
            s.spawn(move || {
                crate::entropy::configure(crate::entropy::EntropyCfg { seed, mode: e.c % 4, eintr: if e.c % 8 > 5 { 30 } else { 0 }, short: if e.c % 8 == 4 { 30 } else { 0 } });
                let this = this.into();
                let mut cx2 = Cx::new(focus, false);
                let g = this.rebuild(&mut cx2, &log, route)?;
                pan(guard(|| (obs(&g, 2), ordered(&g))), || "observe")
            })
            .join()
            .unwrap()
        });
        let (a, theirs) = r?;
        if mine != theirs {
            return viol(format!("the order of answers depends on the process, after {} entries: {}", self.log.len(), diff(&mine, &theirs)));
        }
        if a != b {
            return viol(format!("another process computes a different game from the same {} entries: {}", self.log.len(), diff(&a, &b)));
        }
        Ok(())
    }

    /// C09: equality and hash of boards whatever their history.
    fn eq_hash(&mut self, cx: &mut Cx, e: Ev) -> R {
        let n = self.cfg.n();
        let mut rng = Rng::new(e.b as u64);
        let cur = self.host.t.board.clone();
        let mut fresh: Vec<(Goban, Board)> = vec![];
        fresh.push((self.host.g.goban().clone(), cells(self.host.g.goban())));
        // the same stones in random order, with detours
        let build = |b: &Board, rng: &mut Rng| -> R<Goban> {
            let n = b.n();
            let mut order: Vec<usize> = (0..n).filter(|&i| b.c[i] != 0).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, rng.below(i + 1));
            }
            pan(
                guard(|| {
                    let mut g = Goban::new((b.h as u8, b.w as u8));
                    for &p in &order {
                        if rng.pct(10) {
                            // a stone that is put and removed again
                            if let Some(q) = (0..n).find(|&q| cell(g.get_color(coord(b.w, q))) == 0 && b.c[q] == 0 && b.nbrs(q).all(|x| cell(g.get_color(coord(b.w, x))) == 0) && b.nbrs(q).count() > 0) {
                                g.push(coord(b.w, q), col(1 + rng.below(2) as u8));
                                let nb = b.nbrs(q).next().unwrap();
                                let id = g.get_connected_groups_idx(coord(b.w, nb)).into_iter().find(|&id| g.chain_stones(id).any(|s| s.coord == coord(b.w, q)));
                                if let Some(id) = id {
                                    g.remove_chain(id);
                                }
                            }
                        }
                        g.push(coord(b.w, p), col(b.c[p]));
                    }
                    g
                }),
                || "setting up a board",
            )
        };
        fresh.push((build(&cur, &mut rng)?, cur.clone()));
        let mut other = cur.clone();
        let q = rng.below(n);
        other.c[q] = (other.c[q] + 1 + rng.below(2) as u8) % 3;
        fresh.push((build(&other, &mut rng)?, other));
        if self.cfg.h != self.cfg.w {
            let mut t = Board::new(self.cfg.w, self.cfg.h);
            t.c = cur.c.clone();
            fresh.push((build(&t, &mut rng)?, t));
        }
        // other sizes that hold the same stones at the same storage places or coordinates
        for _ in 0..2 {
            let (hh, ww) = match rng.below(3) {
                0 => (rng.range(1, 19), cur.w),
                1 => (cur.h, rng.range(1, 19)),
                _ => (rng.range(1, 19), rng.range(1, 19)),
            };
            let mut t = Board::new(hh, ww);
            if rng.pct(50) {
                for (x, y) in t.c.iter_mut().zip(&cur.c) {
                    *x = *y;
                }
            } else {
                for r in 0..hh.min(cur.h) {
                    for c in 0..ww.min(cur.w) {
                        t.c[r * ww + c] = cur.c[r * cur.w + c];
                    }
                }
            }
            if t.h * t.w > 1 && !t.has_dead() {
                cx.n("boards_of_other_sizes");
                fresh.push((build(&t, &mut rng)?, t));
            }
        }
        if rng.pct(20) {
            let t = Board::new(rng.range(1, 19), rng.range(1, 19));
            fresh.push((build(&t, &mut rng)?, t));
        }
        if cur.count() != (0, 0) {
            let inv = Board { h: cur.h, w: cur.w, c: cur.c.iter().map(|&x| if x == 0 { 0 } else { 3 - x }).collect() };
            fresh.push((build(&inv, &mut rng)?, inv));
        }
        self.pool.extend(fresh);
        while self.pool.len() > 18 {
            let k = rng.below(self.pool.len());
            self.pool.swap_remove(k);
        }
        let h = |g: &Goban| {
            use std::hash::{Hash, Hasher};
            let mut s = std::collections::hash_map::DefaultHasher::new();
            g.hash(&mut s);
            s.finish()
        };
        for i in 0..self.pool.len() {
            for j in 0..self.pool.len() {
                let ((a, ab), (b, bb)) = (&self.pool[i], &self.pool[j]);
                let same = ab == bb;
                let eq = pan(guard(|| a == b), || "==")?;
                if eq != same {
                    return viol(format!("boards {} and {} compare {}", ab.draw(), bb.draw(), eq));
                }
                if same && (a.zobrist_hash() != b.zobrist_hash() || h(a) != h(b)) {
                    return viol(format!("equal boards {} hash differently", ab.draw()));
                }
                if same && i != j {
                    cx.n("equal_boards_of_different_history");
                    cx.hot += 1;
                }
            }
        }
        // every single stone makes another board
        if rng.below(if n > 60 { 150 } else { 12 }) == 0 {
            cx.n("single_stone_boards");
            let (hh, ww) = (self.cfg.h, self.cfg.w);
            let one: Vec<Goban> = pan(
                guard(|| {
                    let empty = Goban::new((hh as u8, ww as u8));
                    let mut v = vec![empty.clone()];
                    for p in 0..n {
                        for k in [1, 2] {
                            let mut g = empty.clone();
                            g.push(coord(ww, p), col(k));
                            v.push(g);
                        }
                    }
                    v
                }),
                || "setting up a board",
            )?;
            for i in 0..one.len() {
                for j in 0..one.len() {
                    if (one[i] == one[j]) != (i == j) {
                        let f = |k: usize| if k == 0 { "the empty board".into() } else { format!("the board with one stone of {} at {:?}", 2 - k % 2, coord(ww, (k - 1) / 2)) };
                        return viol(format!("{} and {} compare {} on {}x{}", f(i), f(j), i != j, hh, ww));
                    }
                }
            }
        }
        // boards whose hashes agree in many bits
        if n > 150 && rng.below(160) == 0 {
            let (hh, ww) = (self.cfg.h, self.cfg.w);
            let put = |ks: &[(usize, u8)]| {
                pan(
                    guard(|| {
                        let mut g = Goban::new((hh as u8, ww as u8));
                        for &(p, k) in ks {
                            g.push(coord(ww, p), col(k));
                        }
                        g
                    }),
                    || "setting up a board",
                )
            };
            let mut words = vec![];
            for p in 0..n {
                for k in [1u8, 2] {
                    words.push((put(&[(p, k)])?.zobrist_hash(), (p, k)));
                }
            }
            let mut pairs: Vec<(u64, u16, u16)> = vec![];
            for i in 0..words.len() {
                for j in 0..i {
                    if words[i].1 .0 != words[j].1 .0 {
                        pairs.push((words[i].0 ^ words[j].0, i as u16, j as u16));
                    }
                }
            }
            for rot in [0, 32, 16, 48] {
                pairs.sort_unstable_by_key(|x| x.0.rotate_left(rot) as u32);
                let mut tested = 0;
                for v in pairs.windows(2) {
                    if v[0].0.rotate_left(rot) as u32 == v[1].0.rotate_left(rot) as u32 && tested < 20 {
                        tested += 1;
                        let f = |x: &(u64, u16, u16)| [words[x.1 as usize].1, words[x.2 as usize].1];
                        let (a, b) = (put(&f(&v[0]))?, put(&f(&v[1]))?);
                        cx.n("near_collisions_compared");
                        if a == b {
                            return viol(format!("{:?} and {:?} on {}x{} compare equal", f(&v[0]), f(&v[1]), hh, ww));
                        }
                    }
                }
            }
        }
        // a hash set of boards has as many members as there are positions
        let set: std::collections::HashSet<&Goban> = self.pool.iter().map(|x| &x.0).collect();
        let want: std::collections::HashSet<&Board> = self.pool.iter().map(|x| &x.1).collect();
        if set.len() != want.len() {
            return viol(format!("a hash set of {} positions has {} members", want.len(), set.len()));
        }
        Ok(())
    }

    /// C13: a late joiner gets a snapshot and rebuilds the board from it.
    fn snapshot(&mut self, cx: &mut Cx, e: Ev) -> R {
        if !cx.on(13) {
            return Ok(());
        }
        let b = self.host.t.board.clone();
        let (h, w) = (b.h, b.w);
        let g = &self.host.g;
        cx.n("snapshots");
        let snap: Vec<MaybeColor> = pan(guard(|| g.to_vec()), || "to_vec")?;
        if snap.len() != h * w {
            return viol(format!("snapshot of a {}x{} board has {} points", h, w, snap.len()));
        }
        let rebuilt = if h == w && e.a % 2 == 0 {
            cx.n("snapshot_from_slice");
            pan(guard(|| Goban::from(&snap[..])), || "board from a snapshot")?
        } else {
            pan(
                guard(|| {
                    let mut x = Goban::new((h as u8, w as u8));
                    match e.b % 3 {
                        0 => {
                            for s in g.get_stones() {
                                x.push_stone(s);
                            }
                        }
                        1 => {
                            for c in [1, 2] {
                                let pts: Vec<_> = g.get_coords_by_color(Some(col(c))).collect();
                                x.push_many(&pts, col(c));
                            }
                        }
                        _ => {
                            for (i, c) in snap.iter().enumerate() {
                                if let Some(c) = c {
                                    x.push(coord(w, i), *c);
                                }
                            }
                        }
                    }
                    x
                }),
                || "board from a snapshot",
            )?
        };
        pan(guard(|| check_board_views(&rebuilt, &b)), || "view")??;
        if rebuilt != *g.goban() || rebuilt.zobrist_hash() != g.goban().zobrist_hash() {
            return viol(format!("board rebuilt from the snapshot of {} is not equal to it", b.draw()));
        }
        // and follows the game from here
        let mut bu = GameBuilder::default();
        bu.size((h as u8, w as u8)).rule(rule(self.cfg.builtin, &self.cfg.rules)).turn(g.turn());
        for s in rebuilt.get_stones() {
            bu.add(s);
        }
        match pan(guard(|| bu.build()), || "build")? {
            Ok(jg) => {
                if jg.goban() != g.goban() {
                    return viol("game built from snapshot stones has another board");
                }
                self.joiner = Some((jg, b, self.log.len()));
            }
            Err(e) => return viol(format!("builder refused the stones of a snapshot: {}", e)),
        }
        Ok(())
    }

    /// C12/C16: an analysis board with free placement and removal.
    fn board_op(&mut self, cx: &mut Cx, e: Ev) -> R {
        if self.gobans.is_empty() || (e.a % 40 == 0 && self.gobans.len() < 3) {
            let g = if e.b % 2 == 0 { Goban::new((self.cfg.h as u8, self.cfg.w as u8)) } else { self.host.g.goban().clone() };
            let b = pan(guard(|| cells(&g)), || "read board")?;
            self.gobans.push((g, b));
        }
        let i = e.c as usize % self.gobans.len();
        let (g, b) = &mut self.gobans[i];
        let w = b.w;
        cx.n("board_ops");
        let empties: Vec<usize> = (0..b.n()).filter(|&p| b.c[p] == 0).collect();
        let remove = e.a % 4 == 3 || empties.is_empty();
        if remove {
            let groups = b.groups();
            if groups.is_empty() {
                return Ok(());
            }
            let gr = groups[e.b as usize % groups.len()].clone();
            let r = pan(
                guard(|| {
                    let nb = gr.stones.iter().flat_map(|&s| b.nbrs(s)).next();
                    let Some(nb) = nb else { return false };
                    let near: Vec<usize> = gr.stones.iter().flat_map(|&s| b.nbrs(s).collect::<Vec<_>>()).collect();
                    let _ = nb;
                    for p in near {
                        for id in g.get_connected_groups_idx(coord(w, p)) {
                            if g.chain_stones(id).any(|s| idx(w, s.coord) == gr.stones[0]) {
                                g.remove_chain(id);
                                return true;
                            }
                        }
                    }
                    false
                }),
                || "remove_chain",
            )?;
            if r {
                for &s in &gr.stones {
                    b.c[s] = 0;
                }
                cx.n("groups_removed");
            } else if b.n() > 1 {
                return viol(format!("group with stones {:?} not found on {}", gr.stones, b.draw()));
            }
        } else {
            let p = empties[e.b as usize % empties.len()];
            let c = 1 + (e.a / 4 % 2) as u8;
            pan(guard(|| { g.push(coord(w, p), col(c)); }), || "push")?;
            b.c[p] = c;
        }
        let now = pan(guard(|| cells(g)), || "read board")?;
        if now != *b {
            return viol(format!("analysis board shows {}, expected {}", now.draw(), b.draw()));
        }
        if cx.on(12) {
            check_groups(cx, g, b, 1, None)?;
        }
        if cx.on(13) {
            pan(guard(|| check_board_views(g, b)), || "view")??;
        }
        if cx.on(9) && e.b % 5 == 0 {
            let x = (g.clone(), b.clone());
            self.pool.push(x);
        }
        Ok(())
    }

    /// C14: the other public ways to put a stone.
    fn off_other_paths(&mut self, cx: &mut Cx, r: u8, c: u8) -> R {
        let (h, w) = (self.cfg.h, self.cfg.w);
        let mut g = self.host.g.goban().clone();
        let before = cells(&g);
        let stone = goban::pieces::stones::Stone { coord: (r, c), color: col(1 + r % 2) };
        let out = guard(|| match c % 3 {
            0 => {
                g.push(stone.coord, stone.color);
            }
            1 => {
                g.push_stone(stone);
            }
            _ => g.push_many(&[stone.coord], stone.color),
        });
        if out.is_ok() {
            return viol(format!("push of {:?} accepted on a {}x{} board", (r, c), h, w));
        }
        let mut hand = self.host.g.clone();
        if guard(|| hand.put_handicap(&[(r, c)])).is_ok() || pan(guard(|| cells(hand.goban())), || "read board")? != before {
            return viol(format!("handicap stone at {:?} put on a {}x{} board", (r, c), h, w));
        }
        let now = pan(guard(|| cells(&g)), || "read board")?;
        if now != before || g != *self.host.g.goban() || g.get_stones().count() != before.c.iter().filter(|&&x| x != 0).count() {
            return viol(format!("push of {:?} on a {}x{} board changed it", (r, c), h, w));
        }
        let cp = guard(|| self.host.g.legals().any(|x| x == (r, c)));
        if cp.unwrap_or(false) {
            return viol(format!("{:?} is among the legal moves of a {}x{} board", (r, c), h, w));
        }
        let mut b = self.cfg.builder();
        b.moves(&[Move::Play(r, c)]);
        if let Ok(Ok(_)) = guard(|| b.build()) {
            return viol(format!("builder applied the move {:?} on a {}x{} board", (r, c), h, w));
        }
        for handicap in [true, false] {
            let mut b = self.cfg.builder();
            if handicap {
                b.put_handicap(&[(r, c)]);
            } else {
                b.add(stone);
            }
            if let Ok(Ok(_)) = guard(|| b.build()) {
                return viol(format!("builder put a stone at {:?} on a {}x{} board", (r, c), h, w));
            }
        }
        cx.n("offboard_other_paths");
        Ok(())
    }

    /// Faults stop: everything heals and is delivered; the game has to settle, replicas to agree.
    pub fn drain(&mut self, cx: &mut Cx) -> R {
        self.armed = None;
        for c in &mut self.clients {
            c.cut = false;
        }
        let mut guard_n = 0;
        while !self.net.is_empty() && guard_n < 400 {
            let m = self.net.remove(0);
            self.deliver(cx, m, Ev { k: DELIVER, a: 0, b: guard_n, c: 0 })?;
            guard_n += 1;
        }
        self.sync(cx)?;
        self.net.clear();
        if cx.on(10) || cx.on(11) || cx.on(9) {
            let mut accepted = 0;
            if !self.host.t.is_over() {
                while accepted < 2 && !self.host.t.is_over() {
                    let n0 = self.log.len();
                    self.process(cx, Req::Pass, How::Try, None)?;
                    accepted += (self.log.len() > n0) as u32;
                    if self.log.len() == n0 {
                        return viol("after the faults stopped a pass was not accepted");
                    }
                }
                if cx.on(10) && (!self.host.g.is_over() || self.host.g.outcome().is_none()) {
                    return viol("two accepted passes after the faults stopped did not settle the game");
                }
                cx.n("settled_after_faults");
            }
            self.host.check(cx, true)?;
            self.sync(cx)?;
            if cx.on(9) {
                let g = &self.host.g;
                let all = pan(guard(|| (obs(g, 2), ordered(g))), || "observe")?;
                cx.dig(&all.0);
                cx.dig(&all.1);
            }
            self.net.clear();
        }
        if cx.on(9) {
            for cl in 0..self.clients.len() {
                self.clients[cl].view = self.log.len();
                self.catch_up(cx, cl, cl as u32)?;
            }
        }
        if cx.on(5) || cx.on(11) || cx.on(17) {
            self.crash(cx, self.log.len() as u32 * 7 + 1, 0, "idle")?;
        }
        self.host.check(cx, true)
    }
}

fn how(x: u32) -> How {
    match x % 6 {
        0 => How::CheckThenPlay,
        1 => How::LegalsThenPlay,
        _ => How::Try,
    }
}

fn entry(req: Req, turn: u8) -> Entry {
    match req {
        Req::Play(p) => Entry::Play(turn, p),
        Req::Pass => Entry::Pass(turn),
        Req::Resign(c) => Entry::Resign(c),
        Req::Resume => Entry::Resume,
        Req::Komi(k) => Entry::Komi(k),
        Req::Off(..) => unreachable!(),
    }
}

pub fn unentry(e: Entry) -> Req {
    match e {
        Entry::Play(_, p) => Req::Play(p),
        Entry::Pass(_) => Req::Pass,
        Entry::Resume => Req::Resume,
        Entry::Resign(c) => Req::Resign(c),
        Entry::Komi(k) => Req::Komi(k),
    }
}

/// Replays one entry in the model; `after` is the board observed when it really happened.
fn track_entry(t: &mut Track, e: Entry, after: Option<Board>) {
    match e {
        Entry::Play(_, p) => {
            let ef = t.effect(p);
            let after = after.unwrap_or_else(|| ef.board.clone());
            t.played(p, &ef, after);
        }
        Entry::Pass(_) => t.passed(),
        Entry::Resume => t.passes = 0,
        Entry::Resign(c) => t.outcome = Some(End::Resign(c)),
        Entry::Komi(k) => t.rules.komi4 = k,
    }
}

pub fn off_coord(h: usize, w: usize, e: Ev) -> (u8, u8) {
    let inr = |x: u32, n: usize| (x as usize % n) as u8;
    match e.a % 8 {
        0 => (h as u8, inr(e.b, w)),
        1 => (inr(e.b, h), w as u8),
        2 => (h as u8, w as u8),
        3 => (255, inr(e.b, w)),
        4 => (inr(e.b, h), 255),
        5 => {
            // still inside the 19x19 storage
            let x = (h as u32 + e.b % 18).min(18) as u8;
            if (x as usize) < h { (h as u8, inr(e.c, w)) } else { (x, inr(e.c, w)) }
        }
        6 => {
            let x = (w as u32 + e.b % 18).min(18) as u8;
            if (x as usize) < w { (inr(e.c, h), w as u8) } else { (inr(e.c, h), x) }
        }
        _ => {
            let r = (e.b & 0xff) as u8;
            let c = (e.b >> 8 & 0xff) as u8;
            if (r as usize) < h && (c as usize) < w { (r, c.saturating_add(w as u8).max(w as u8)) } else { (r, c) }
        }
    }
}

/// Picks a request on the position a client sees.
pub fn choose_on(cfg: &Cfg, b: &Board, turn: u8, t: &Track, last_cap: &[usize], e: Ev) -> Req {
    let kind = e.a % 64;
    let n = b.n();
    let in_win = |p: usize| {
        let (r, c) = (p / cfg.w, p % cfg.w);
        r >= cfg.win[0] && r < cfg.win[0] + cfg.win[2] && c >= cfg.win[1] && c < cfg.win[1] + cfg.win[3]
    };
    let pick = |v: &[usize]| -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(v[e.b as usize % v.len()])
        }
    };
    let empty: Vec<usize> = (0..n).filter(|&p| b.c[p] == 0 && in_win(p)).collect();
    let fallback = || -> Req {
        match pick(&empty).or_else(|| pick(&(0..n).filter(|&p| b.c[p] == 0).collect::<Vec<_>>())) {
            Some(p) => Req::Play(p),
            None => Req::Pass,
        }
    };
    match kind {
        // capture something
        20..=31 => {
            let mut v = vec![];
            for g in b.groups() {
                if g.color == 3 - turn && g.libs.len() == 1 {
                    v.push(g.libs[0]);
                }
            }
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // reduce liberties of a weak group (either colour)
        32..=37 => {
            let mut v = vec![];
            for g in b.groups() {
                if g.libs.len() == 2 {
                    v.extend(g.libs);
                }
            }
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // into a place without liberties: suicide, snapback, ko
        38..=42 => {
            let v: Vec<usize> = (0..n).filter(|&p| b.c[p] == 0 && b.nbrs(p).all(|q| b.c[q] != 0)).collect();
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // retake
        43..=46 => pick(last_cap).map_or_else(fallback, Req::Play),
        // connect groups
        47..=50 => {
            let v: Vec<usize> = (0..n)
                .filter(|&p| {
                    if b.c[p] != 0 {
                        return false;
                    }
                    b.nbrs(p).filter(|&q| b.c[q] == turn).count() >= 2
                })
                .collect();
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // a play that would repeat a position
        51..=53 => {
            let v: Vec<usize> = if t.board.n() <= 36 {
                (0..n)
                    .filter(|&p| {
                        let v = t.verdict(p);
                        v.superko || v.ko
                    })
                    .collect()
            } else {
                last_cap.to_vec()
            };
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // occupied
        54 => {
            let v: Vec<usize> = (0..n).filter(|&p| b.c[p] != 0).collect();
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // save an own group in atari
        55..=56 => {
            let mut v = vec![];
            for g in b.groups() {
                if g.color == turn && g.libs.len() == 1 {
                    v.push(g.libs[0]);
                }
            }
            pick(&v).map_or_else(fallback, Req::Play)
        }
        // anywhere, whatever is there
        57..=58 => Req::Play(e.b as usize % n),
        59..=61 => Req::Pass,
        62 => {
            if e.b % 6 == 0 {
                Req::Resign(1 + (e.b / 6 % 2) as u8)
            } else {
                Req::Pass
            }
        }
        63 => Req::Pass,
        _ => fallback(),
    }
}

// ---------------------------------------------------------------------------------------------

const KOMIS: [i32; 8] = [0, 2, 26, 30, 22, -6, 21, 40];

pub fn gen_cfg(rng: &mut Rng, focus: u8) -> Cfg {
    // size
    let (h, w) = match rng.below(100) {
        0..=54 => {
            // tiny
            let s = [(2, 2), (2, 3), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4), (1, 4), (4, 1), (1, 6), (5, 1), (2, 5), (5, 2), (1, 2), (2, 1), (3, 5), (1, 3), (4, 2)];
            *rng.pick(&s)
        }
        55..=74 => (rng.range(3, 6), rng.range(3, 6)),
        75..=84 => {
            let s = [(9, 9), (7, 7), (6, 9), (9, 5), (8, 8), (7, 12), (13, 4)];
            *rng.pick(&s)
        }
        85..=93 => {
            let s = [(19, 19), (13, 13), (19, 13), (11, 19), (17, 16), (18, 19), (16, 16), (19, 2), (1, 19)];
            *rng.pick(&s)
        }
        _ => (rng.range(1, 19), rng.range(2, 19)),
    };
    let big = h * w > 100;
    let mut builtin = match rng.below(100) {
        0..=34 => 1,
        35..=69 => 2,
        _ => 0,
    };
    if focus == 6 || focus == 7 {
        builtin = 1 + rng.below(2) as u8;
    }
    let mut rules = match builtin {
        1 => japanese(),
        2 => chinese(),
        _ => Rules {
            flags: match rng.below(10) {
                0..=3 => rng.below(8) as u8,
                4 => SUPERKO,
                5 => SUPERKO | SUICIDE,
                6 => 0,
                7 => KO,
                8 => rng.below(16) as u8,
                _ => KO | SUPERKO,
            },
            sflags: rng.below(8) as u8,
            komi4: *rng.pick(&KOMIS),
        },
    };
    if focus == 4 && rng.pct(50) {
        builtin = 0;
        rules.flags = *rng.pick(&[KO, SUPERKO, KO | SUPERKO, SUPERKO | SUICIDE, KO | SUICIDE, SUPERKO]);
    }
    if rng.pct(30) {
        rules.komi4 = *rng.pick(&KOMIS);
        if rng.pct(20) {
            rules.komi4 = rng.range(0, 400) as i32 - 100;
        }
    }
    // focus window
    let win = if big && rng.pct(75) {
        let (wh, ww) = (rng.range(2, 5).min(h), rng.range(2, 5).min(w));
        let (r0, c0) = match rng.below(4) {
            0 => (h - wh, w - ww),
            1 => (0, rng.below(w - ww + 1)),
            _ => (rng.below(h - wh + 1), rng.below(w - ww + 1)),
        };
        [r0, c0, wh, ww]
    } else {
        [0, 0, h, w]
    };
    // setup
    let mut setup = vec![];
    let mut handicap = vec![];
    let mut turn_of_setup = 0u8;
    let n = h * w;
    let mut board = Board::new(h, w);
    let setup_pct = if big { 70 } else { 32 };
    if rng.pct(setup_pct) && n > 3 {
        let dens = rng.range(5, 85);
        if rng.pct(12) {
            // one colour nearly fills the board: the longest groups, and captures of all of it
            let c = 1 + rng.below(2) as u8;
            board.c.fill(c);
            let holes = rng.range(1, 4);
            for _ in 0..holes {
                let p = rng.below(n);
                board.c[p] = 0;
                if rng.pct(25) {
                    // a foreign stone beside the hole
                    let q = rng.below(n);
                    board.c[q] = 3 - c;
                }
            }
        }
        // a point around which up to four groups meet with few other liberties
        let mut keep = vec![];
        let mut to_play = 0;
        if rng.pct(25) && n >= 6 {
            for _ in 0..rng.range(1, 2) {
                let p = rng.below(n);
                let a = 1 + rng.below(2) as u8;
                to_play = 3 - a;
                board.c[p] = 0;
                keep.push(p);
                let near: Vec<usize> = board.nbrs(p).collect();
                for &q in &near {
                    board.c[q] = if rng.pct(88) { a } else { 3 - a };
                    keep.retain(|&k| k != q);
                }
                for &q in &near {
                    for r in board.nbrs(q).collect::<Vec<_>>() {
                        if r != p && !near.contains(&r) {
                            board.c[r] = match rng.below(20) {
                                0 => 0,
                                1 => a,
                                _ => 3 - a,
                            };
                        }
                    }
                }
            }
            if rng.pct(70) {
                turn_of_setup = to_play;
            }
        }
        for p in 0..n {
            if keep.contains(&p) {
                continue;
            }
            if board.c[p] != 0 || board.c.iter().filter(|&&x| x != 0).count() > n * 9 / 10 {
                continue;
            }
            if rng.pct(dens) {
                // runs of equal colour make long groups
                let c = if p > 0 && rng.pct(60) && board.c[p - 1] != 0 { board.c[p - 1] } else { 1 + rng.below(2) as u8 };
                board.c[p] = c;
            }
        }
        // the focus window stays open now and then
        if rng.pct(50) && big {
            for r in win[0]..win[0] + win[2] {
                for c in win[1]..win[1] + win[3] {
                    board.c[r * w + c] = 0;
                }
            }
        }
        // no group without liberties
        loop {
            let dead: Vec<Grp> = board.groups().into_iter().filter(|g| g.libs.is_empty()).collect();
            if dead.is_empty() {
                break;
            }
            for &s in &dead[0].stones {
                board.c[s] = 0;
            }
        }
        for p in 0..n {
            if board.c[p] != 0 {
                setup.push((p, board.c[p]));
            }
        }
        for i in (1..setup.len()).rev() {
            setup.swap(i, rng.below(i + 1));
        }
    } else if rng.pct(20) && n > 4 {
        let k = rng.range(1, (n / 4).min(9).max(1));
        for _ in 0..k {
            let p = rng.below(n);
            if !handicap.contains(&p) {
                board.c[p] = 1;
                if board.has_dead() {
                    board.c[p] = 0;
                } else {
                    handicap.push(p);
                }
            }
        }
    }
    let turn = if turn_of_setup != 0 {
        turn_of_setup
    } else if rng.pct(25) {
        1 + rng.below(2) as u8
    } else {
        0
    };
    let outcome = if (focus == 10 || focus == 5) && rng.pct(8) { 1 + rng.below(5) as u8 } else { 0 };
    let mut cfg = Cfg {
        h,
        w,
        builtin,
        rules,
        setup,
        handicap,
        turn,
        outcome,
        ctor: rng.below(2) as u8,
        clients: rng.range(2, 4),
        win,
        check_every: if big { rng.range(3, 9) } else if n > 30 { rng.range(1, 4) } else { 1 },
        dedupe: rng.pct(50),
        sync_each: rng.pct(60),
        ack_early: rng.pct(20),
        wal: rng.pct(30),
        rto: 100 + rng.below(600) as u64,
        entropy: rng.next(),
    };
    let mut r = Rng::new(cfg.entropy ^ 0x006b_6f6b_6f6b_6f00);
    if r.pct(if focus == 4 { 8 } else { 3 }) {
        kos(&mut cfg, &mut r);
    } else if n >= 30 && r.pct(if n > 250 { 12 } else { 4 }) {
        crumbs(&mut cfg, &mut r);
    } else if n >= 12 && r.pct(if focus == 4 { 12 } else { 3 }) {
        fights(&mut cfg, &mut r);
    }
    cfg
}

/// Swarm: each run draws its own mix of steps and faults.
/// As many groups as fit: single stones in alternating colours around scattered empty points.
fn crumbs(cfg: &mut Cfg, r: &mut Rng) {
    let (h, w) = (cfg.h, cfg.w);
    let k = r.below(5);
    let (a, b) = *r.pick(&[(1, 2), (2, 1), (1, 3), (3, 1)]);
    let noise = r.below(3) * 3;
    let mut board = Board::new(h, w);
    for p in 0..h * w {
        let (i, j) = (p / w, p % w);
        if (i * a + j * b) % 5 != k {
            let c = 1 + ((i + j) % 2) as u8;
            board.c[p] = if r.pct(noise) { 3 - c } else { c };
        }
    }
    loop {
        let dead: Vec<Grp> = board.groups().into_iter().filter(|g| g.libs.is_empty()).collect();
        if dead.is_empty() {
            break;
        }
        board.c[dead[0].stones[0]] = 0;
    }
    cfg.handicap.clear();
    cfg.setup = (0..h * w).filter(|&p| board.c[p] != 0).map(|p| (p, board.c[p])).collect();
}

/// Captures about to happen: a point beside which stones of the other side have their last
/// liberty, and around those, stones that are themselves about to be taken back.
fn fights(cfg: &mut Cfg, r: &mut Rng) {
    let (h, w) = (cfg.h, cfg.w);
    let n = h * w;
    let mut board = Board::new(h, w);
    let mut kept = vec![false; n];
    let mut turn = 0;
    for _ in 0..1 + r.below(1 + n / 20) {
        let p = r.below(n);
        if kept[p] {
            continue;
        }
        let own = 1 + r.below(2) as u8;
        let mut shape: Vec<(usize, u8)> = vec![(p, 0)];
        let has = |shape: &Vec<(usize, u8)>, q: usize| shape.iter().any(|x| x.0 == q);
        let mut taken = vec![];
        for q in board.nbrs(p).collect::<Vec<_>>() {
            let c = *r.pick(&[3, 3, 3, 3, 3, 1, 2, 0]);
            let c = match c {
                3 => {
                    taken.push(q);
                    3 - own
                }
                2 => 3 - own,
                1 => own,
                _ => 0,
            };
            shape.push((q, c));
        }
        let mut fence = vec![];
        for &q in &taken {
            for f in board.nbrs(q).collect::<Vec<_>>() {
                if has(&shape, f) {
                    continue;
                }
                if r.pct(15) {
                    // a group of two
                    shape.push((f, 3 - own));
                    for g in board.nbrs(f).collect::<Vec<_>>() {
                        if !has(&shape, g) {
                            shape.push((g, own));
                        }
                    }
                } else {
                    shape.push((f, own));
                    fence.push(f);
                }
            }
        }
        for f in fence {
            let c = *r.pick(&[3 - own, 3 - own, 0, own]);
            for g in board.nbrs(f).collect::<Vec<_>>() {
                if !has(&shape, g) {
                    shape.push((g, if r.pct(90) { c } else { 0 }));
                }
            }
        }
        if shape.iter().any(|&(q, _)| kept[q]) {
            continue;
        }
        let before = board.clone();
        for &(q, c) in &shape {
            board.c[q] = c;
        }
        if board.has_dead() {
            board = before;
            continue;
        }
        for &(q, _) in &shape {
            kept[q] = true;
        }
        turn = own;
    }
    if turn == 0 {
        return;
    }
    cfg.handicap.clear();
    cfg.setup = (0..n).filter(|&p| board.c[p] != 0).map(|p| (p, board.c[p])).collect();
    if r.pct(70) {
        cfg.turn = turn;
    }
    if cfg.builtin == 0 && r.pct(60) {
        cfg.rules.flags = *r.pick(&[KO, KO, KO | SUICIDE, KO | SUICIDE, SUPERKO, KO | SUPERKO]);
    }
    cfg.win = [0, 0, h, w];
}

/// A gallery of kos: long cycles.
pub fn kos(cfg: &mut Cfg, r: &mut Rng) {
    let (h, w) = (cfg.h, cfg.w);
    if h.max(w) < 4 || h.min(w) < 3 {
        return;
    }
    let turned = w < 4 || (h >= 4 && r.pct(50));
    let (a, b) = if turned { (w, h) } else { (h, w) };
    let mut board = Board::new(h, w);
    let mut put = |i: usize, j: usize, c: u8| board.c[if turned { j * w + i } else { i * w + j }] = c;
    let step = 4 + r.below(2);
    let mut kos = 0;
    let most = 1 + r.below(14);
    for i in (0..a.saturating_sub(2)).step_by(3) {
        for j in (0..b.saturating_sub(3)).step_by(step) {
            if kos == most || r.pct(10) {
                continue;
            }
            kos += 1;
            put(i, j + 1, 1);
            put(i + 1, j, 1);
            put(i + 2, j + 1, 1);
            put(i, j + 2, 2);
            put(i + 1, j + 3, 2);
            put(i + 2, j + 2, 2);
            if r.pct(50) {
                put(i + 1, j + 1, 2);
            } else {
                put(i + 1, j + 2, 1);
            }
        }
    }
    if kos > 0 && !board.has_dead() {
        cfg.handicap.clear();
        cfg.setup = (0..h * w).filter(|&p| board.c[p] != 0).map(|p| (p, board.c[p])).collect();
        if cfg.builtin == 0 && r.pct(60) {
            cfg.rules.flags = *r.pick(&[SUPERKO, SUPERKO, SUPERKO | SUICIDE, KO, KO | SUPERKO, 0]);
        }
        cfg.win = [0, 0, h, w];
    }
}

pub fn gen_events(rng: &mut Rng, cfg: &Cfg, focus: u8, long: bool, marathon: bool) -> Vec<Ev> {
    let big = cfg.n() > 100;
    let mut wt = [0usize; NKINDS];
    wt[REQ as usize] = 60;
    let faults = rng.pct(70);
    if rng.pct(60) {
        wt[REQ as usize] = rng.range(5, 60);
        wt[SEND as usize] = rng.range(15, 40);
        wt[DELIVER as usize] = rng.range(40, 110);
        wt[TICK as usize] = rng.range(2, 8);
        if faults {
            for k in [DROP, DUP, CORRUPT, CUT] {
                if rng.pct(60) {
                    wt[k as usize] = rng.range(1, 6);
                }
            }
        }
    }
    if faults && rng.pct(70) {
        wt[CRASH as usize] = rng.below(3);
        wt[ARM as usize] = rng.range(1, 3);
        wt[SYNC as usize] = rng.below(6);
    }
    if rng.pct(40) {
        wt[RESUME as usize] = rng.range(1, 6);
    }
    if rng.pct(30) {
        wt[QUERY as usize] = rng.range(1, 6);
    }
    if rng.pct(30) {
        wt[KOMI as usize] = 1;
    }
    if rng.pct(25) {
        wt[FORK as usize] = 2;
        wt[ONFORK as usize] = rng.range(3, 20);
    }
    match focus {
        3 => {
            wt[QUERY as usize] = rng.range(3, 15);
            wt[OFF as usize] = rng.below(3);
        }
        5 => {
            wt[CRASH as usize] = rng.range(1, 5);
            wt[ARM as usize] = rng.range(1, 5);
            wt[RESUME as usize] = rng.range(1, 5);
        }
        6 => {
            wt[SGF as usize] = rng.range(3, 12);
            wt[CRASH as usize] = rng.below(2);
            wt[RESUME as usize] = 3;
        }
        7 => {
            wt[DAMAGE as usize] = rng.range(8, 40);
        }
        9 => {
            wt[REJOIN as usize] = rng.range(1, 4);
            wt[REPLICA as usize] = if big { 0 } else { rng.below(2) };
            wt[EQHASH as usize] = rng.range(2, 10);
            wt[BOARDOP as usize] = rng.below(10);
            if wt[SEND as usize] == 0 {
                wt[SEND as usize] = 20;
                wt[DELIVER as usize] = 100;
            }
        }
        10 => {
            wt[RESUME as usize] = rng.range(2, 12);
        }
        11 => {
            wt[KOMI as usize] = rng.below(4);
        }
        12 => {
            wt[BOARDOP as usize] = rng.range(5, 60);
        }
        13 => {
            wt[SNAP as usize] = rng.range(2, 10);
            wt[BOARDOP as usize] = rng.below(10);
        }
        14 => {
            wt[OFF as usize] = rng.range(8, 30);
            if rng.pct(50) {
                wt[CORRUPT as usize] = rng.range(5, 20);
            }
        }
        17 => {
            wt[FORK as usize] = 2;
            wt[ONFORK as usize] = rng.range(3, 15);
        }
        _ => {}
    }
    let n = match (big, long) {
        (true, false) => rng.range(20, 160),
        (true, true) => rng.range(40, 400),
        (false, false) => rng.range(20, 260),
        (false, true) => rng.range(40, 900),
    };
    let n = match marathon {
        true if big => 400 + n * 4,
        true => 500 + n * 7,
        _ => n,
    };
    if marathon {
        wt[RESUME as usize] = wt[RESUME as usize].max(2);
    }
    // mix of move kinds: percentages for passes etc. come from the kind numbers 0..64
    let pass_bias = if focus == 10 || focus == 5 || focus == 11 { rng.range(0, 25) } else { rng.below(4) };
    let no_end = rng.pct(60) | marathon; // few passes, no resignation
    let pass_bias = if marathon { pass_bias.min(6) } else { pass_bias };
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let k = rng.weighted(&wt) as u8;
        let mut kind = rng.below(64) as u32;
        if rng.pct(pass_bias) {
            kind = 60;
        } else if no_end && kind >= 59 {
            kind = if rng.pct(15) { 59 } else { rng.below(59) as u32 };
        }
        let a = if matches!(k, REQ | SEND | ONFORK) { kind + 64 * rng.below(8) as u32 } else { rng.u32() & 0x7fff_ffff };
        v.push(Ev { k, a, b: rng.u32() & 0x7fff_ffff, c: rng.u32() & 0x7fff_ffff });
    }
    v
}
