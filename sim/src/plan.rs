//! A plan is one complete, repeatable execution: configuration and flat schedule. Generated from a
//! seed, or read back from a replay file.

use crate::cx::*;
use crate::entropy::EntropyCfg;
use crate::model::*;
use crate::rng::*;
use crate::world::*;
use crate::{conc, dead, endurance};
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: u8,
    pub cfg: Cfg,
    pub evs: Vec<Ev>,
}

pub fn run_seed(seed: u64, prop: u8, idx: u64) -> u64 {
    mix(mix(seed ^ ((prop as u64) << 56)).wrapping_add(idx))
}

pub fn kind_name(k: u8) -> &'static str {
    match k {
        conc::TOP => "task_op",
        conc::SCHED => "schedule",
        dead::DEADRUN => "dead_stones",
        endurance::CYC_BOARD => "board_cycle",
        endurance::CYC_GAME => "game_cycle",
        k => KIND_NAMES.get(k as usize).copied().unwrap_or("?"),
    }
}

/// Configurations small enough for expensive runs.
fn shrink_cfg(rng: &mut Rng, c: &mut Cfg, max: usize) {
    if c.h * c.w > max {
        loop {
            c.h = rng.range(1, 6);
            c.w = rng.range(1, 6);
            if c.h * c.w <= max && c.h * c.w > 1 {
                break;
            }
        }
        c.setup.clear();
        c.handicap.clear();
        c.win = [0, 0, c.h, c.w];
        c.check_every = 1;
    }
}

pub fn generate(prop: u8, seed: u64, long: bool) -> Plan {
    let mut rng = Rng::new(seed);
    match prop {
        8 => {
            let mut cfg = gen_cfg(&mut rng, prop);
            let max = if rng.pct(5) { 100 } else { 36 };
            shrink_cfg(&mut rng, &mut cfg, max);
            let evs = conc::gen(&mut rng, &cfg, long);
            Plan { prop, cfg, evs }
        }
        15 => {
            let mut cfg = gen_cfg(&mut rng, prop);
            let max = *rng.pick(&[9, 12, 16, 20, 25]);
            if !(cfg.n() > 30 && rng.pct(25)) {
                shrink_cfg(&mut rng, &mut cfg, max);
            }
            if rng.pct(35) && cfg.n() >= 9 && cfg.n() <= 25 {
                walls(&mut rng, &mut cfg);
            }
            if rng.pct(30) {
                // draws come with whole komi
                cfg.rules.komi4 = 4 * (rng.below(9) as i32 - 4);
            }
            let evs = dead::gen(&mut rng, &cfg, long);
            Plan { prop, cfg, evs }
        }
        // a game with more captures than any count is likely to be kept in
        2 if rng.below(3000) == 0 => {
            let mut cfg = endurance::gen_cfg_c16(&mut rng);
            let (h, w) = *rng.pick(&[(2, 2), (2, 2), (1, 3), (1, 4), (1, 2), (2, 3), (3, 2)]);
            cfg.h = h;
            cfg.w = w;
            cfg.rules.flags &= !(SUPERKO | FILLEYE);
            cfg.builtin = 0;
            let total = if rng.pct(40) { 900_000 } else { 150_000 };
            let evs = endurance::gen_game(&mut rng, total);
            Plan { prop, cfg, evs }
        }
        16 => {
            let cfg = endurance::gen_cfg_c16(&mut rng);
            let evs = endurance::gen(&mut rng, &cfg, long);
            Plan { prop, cfg, evs }
        }
        _ => {
            let mut cfg = gen_cfg(&mut rng, prop);
            let marathon = mix(cfg.entropy ^ 0x6d61_7261) % marathons(prop) == 0;
            if marathon {
                // games longer than any usual one; nothing else is drawn differently
                if mix(cfg.entropy) % 2 == 0 {
                    cfg.win = [0, 0, cfg.h, cfg.w];
                }
                if cfg.n() < 9 && mix(cfg.entropy) % 5 > 0 {
                    cfg.h = 3 + (cfg.entropy % 3) as usize;
                    cfg.w = 3 + (cfg.entropy / 3 % 4) as usize;
                    cfg.win = [0, 0, cfg.h, cfg.w];
                    cfg.setup.clear();
                    cfg.handicap.clear();
                }
                if cfg.outcome != 0 {
                    cfg.outcome = 0;
                }
                if mix(cfg.entropy ^ 1) % 3 == 0 {
                    let mut r = Rng::new(cfg.entropy ^ 2);
                    let (h, w) = *r.pick(&[(6, 9), (9, 10), (6, 5), (3, 9), (9, 5), (6, 14), (4, 6)]);
                    cfg.h = h;
                    cfg.w = w;
                    cfg.setup.clear();
                    cfg.handicap.clear();
                    cfg.win = [0, 0, h, w];
                    kos(&mut cfg, &mut r);
                }
                cfg.check_every = cfg.check_every.max(1 + cfg.n() / 10);
            }
            let evs = gen_events(&mut rng, &cfg, prop, long, marathon);
            Plan { prop, cfg, evs }
        }
    }
}

/// One run in so many is a marathon.
fn marathons(prop: u8) -> u64 {
    match prop {
        1 | 2 | 10 | 13 | 17 => 400,
        _ => 150,
    }
}

/// A setup with an eye or two: a board filled with one or two colours, some points left open.
fn walls(rng: &mut Rng, cfg: &mut Cfg) {
    let (h, w) = (cfg.h, cfg.w);
    let mut b = Board::new(h, w);
    let split = rng.below(w + 1);
    let first = 1 + rng.below(2) as u8;
    for p in 0..h * w {
        let c = if p % w < split { first } else { 3 - first };
        b.c[p] = if rng.pct(4) { 3 - c } else { c };
    }
    for _ in 0..rng.range(1, 5) {
        b.c[rng.below(h * w)] = 0;
    }
    // some eyes of several points, with a stone of the other colour in them
    let mut r = Rng::new(mix(cfg.entropy ^ 0x3a11));
    if r.pct(50) {
        for p in 0..h * w {
            if b.c[p] == 0 && r.pct(60) {
                let near: Vec<usize> = b.nbrs(p).filter(|&q| b.c[q] != 0).collect();
                if !near.is_empty() {
                    let q = *r.pick(&near);
                    b.c[q] = if r.pct(40) { 3 - b.c[q] } else { 0 };
                }
            }
        }
    }
    loop {
        let dead: Vec<Grp> = b.groups().into_iter().filter(|g| g.libs.is_empty()).collect();
        if dead.is_empty() {
            break;
        }
        for &s in &dead[0].stones {
            b.c[s] = 0;
        }
    }
    cfg.handicap.clear();
    cfg.setup = (0..h * w).filter(|&p| b.c[p] != 0).map(|p| (p, b.c[p])).collect();
}

pub fn entropy_of(c: &Cfg) -> EntropyCfg {
    let e = mix(c.entropy);
    EntropyCfg {
        seed: c.entropy,
        mode: if e % 8 == 0 { 1 + (e >> 8) as u32 % 3 } else { 0 },
        eintr: if (e >> 16) % 4 == 0 { 30 } else { 0 },
        short: if (e >> 20) % 4 == 0 { 30 } else { 0 },
    }
}

/// Executes the plan on this thread.
pub fn execute(cx: &mut Cx, plan: &Plan) -> R {
    match plan.prop {
        8 => conc::run(cx, &plan.cfg, &plan.evs),
        15 => dead::run(cx, &plan.cfg, &plan.evs),
        16 => endurance::run(cx, &plan.cfg, &plan.evs),
        2 if plan.evs.iter().any(|e| e.k == endurance::CYC_GAME) => endurance::run(cx, &plan.cfg, &plan.evs),
        _ => {
            let mut w = World::new(cx, plan.cfg.clone())?;
            for &e in &plan.evs {
                if cx.late() {
                    return Ok(());
                }
                w.step(cx, e)?;
            }
            w.drain(cx)
        }
    }
}

pub struct Outcome {
    pub cx: Cx,
    pub viol: Option<String>,
}

/// Executes the plan as a fresh thread with its own entropy. A panic that escapes the guards is a
/// fault of the simulator, not of the library.
pub fn execute_fresh(plan: &Plan, trace: bool) -> Result<Outcome, String> {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                crate::entropy::configure(entropy_of(&plan.cfg));
                let mut cx = Cx::new(plan.prop, trace);
                let r = crate::sut::guard(|| execute(&mut cx, plan));
                let (calls, eintr, short) = crate::entropy::counters();
                let (readings, jumps) = crate::entropy::clock_counters();
                cx.add("clock_readings", readings);
                cx.add("clock_jumps_seen", jumps);
                cx.add("entropy_calls", calls);
                cx.add("fault_entropy_eintr", eintr);
                cx.add("fault_entropy_short_read", short);
                cx.stats.insert("run_cpu_ms_max", cx.due.used());
                if cx.late() {
                    // where a run is curtailed depends on the machine
                    cx.digest = 0;
                }
                match r {
                    Ok(Ok(())) => Ok(Outcome { cx, viol: None }),
                    Ok(Err(v)) => Ok(Outcome { cx, viol: Some(v.detail) }),
                    Err(p) => Err(p),
                }
            })
            .unwrap()
            .join()
            .unwrap()
    });
    r.or_else(|p| {
        if p.loc.contains("/verif/") || p.loc.starts_with("src/") || p.loc.contains("/rustc/") || p.loc.contains("/library/") {
            Err(format!("simulator failed: panic '{}' at {}", p.msg, p.loc))
        } else {
            // a panic inside the library in an accessor that the oracles use
            Ok(Outcome { cx: Cx::new(plan.prop, false), viol: Some(format!("library failed: {}", p)) })
        }
    })
}

impl Plan {
    pub fn text(&self) -> String {
        let c = &self.cfg;
        let mut s = String::new();
        let _ = writeln!(s, "property C{:02}", self.prop);
        let _ = writeln!(
            s,
            "cfg h={} w={} builtin={} flags={} sflags={} komi4={} turn={} outcome={} ctor={} clients={} win={},{},{},{} check_every={} dedupe={} sync_each={} ack_early={} wal={} rto={} entropy={}",
            c.h, c.w, c.builtin, c.rules.flags, c.rules.sflags, c.rules.komi4, c.turn, c.outcome, c.ctor, c.clients,
            c.win[0], c.win[1], c.win[2], c.win[3], c.check_every, c.dedupe as u8, c.sync_each as u8, c.ack_early as u8, c.wal as u8, c.rto, c.entropy
        );
        let _ = writeln!(s, "setup {}", c.setup.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" "));
        let _ = writeln!(s, "handicap {}", c.handicap.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for e in &self.evs {
            let _ = writeln!(s, "ev {} {} {} {} {}", e.k, e.a, e.b, e.c, kind_name(e.k));
        }
        s
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut prop = 0;
        let mut cfg = None;
        let mut evs = vec![];
        let bad = |l: &str| format!("bad line in replay file: {}", l);
        for l in text.lines() {
            let mut f = l.split_whitespace();
            match f.next() {
                Some("property") => prop = f.next().and_then(|x| x.trim_start_matches('C').parse().ok()).ok_or_else(|| bad(l))?,
                Some("cfg") => {
                    let m: std::collections::HashMap<&str, &str> = f.filter_map(|x| x.split_once('=')).collect();
                    let g = |k: &str| -> Result<i64, String> { m.get(k).and_then(|x| x.parse().ok()).ok_or_else(|| bad(l)) };
                    let win: Vec<usize> = m.get("win").ok_or_else(|| bad(l))?.split(',').filter_map(|x| x.parse().ok()).collect();
                    if win.len() != 4 {
                        return Err(bad(l));
                    }
                    cfg = Some(Cfg {
                        h: g("h")? as usize,
                        w: g("w")? as usize,
                        builtin: g("builtin")? as u8,
                        rules: Rules { flags: g("flags")? as u8, sflags: g("sflags")? as u8, komi4: g("komi4")? as i32 },
                        setup: vec![],
                        handicap: vec![],
                        turn: g("turn")? as u8,
                        outcome: g("outcome")? as u8,
                        ctor: g("ctor")? as u8,
                        clients: g("clients")? as usize,
                        win: [win[0], win[1], win[2], win[3]],
                        check_every: g("check_every")? as usize,
                        dedupe: g("dedupe")? != 0,
                        sync_each: g("sync_each")? != 0,
                        ack_early: g("ack_early")? != 0,
                        wal: g("wal")? != 0,
                        rto: g("rto")? as u64,
                        entropy: m.get("entropy").and_then(|x| x.parse().ok()).ok_or_else(|| bad(l))?,
                    });
                }
                Some("setup") => {
                    let c = cfg.as_mut().ok_or_else(|| bad(l))?;
                    for x in f {
                        let (p, k) = x.split_once(':').ok_or_else(|| bad(l))?;
                        c.setup.push((p.parse().map_err(|_| bad(l))?, k.parse().map_err(|_| bad(l))?));
                    }
                }
                Some("handicap") => {
                    let c = cfg.as_mut().ok_or_else(|| bad(l))?;
                    for x in f {
                        c.handicap.push(x.parse().map_err(|_| bad(l))?);
                    }
                }
                Some("ev") => {
                    let v: Vec<u32> = f.take(4).filter_map(|x| x.parse().ok()).collect();
                    if v.len() != 4 {
                        return Err(bad(l));
                    }
                    evs.push(Ev { k: v[0] as u8, a: v[1], b: v[2], c: v[3] });
                }
                _ => {}
            }
        }
        Ok(Plan { prop, cfg: cfg.ok_or("no cfg line in replay file")?, evs })
    }
}
