//! Shared context of one simulated run.

use crate::rng::{fnv, FNV0};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub detail: String,
}

pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(detail: impl Into<String>) -> R<T> {
    Err(Viol { detail: detail.into() })
}

/// One step of the flat, replayable schedule. The arguments are raw numbers that are resolved
/// against the state when the step executes, so any subset of a schedule is again a schedule.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ev {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

/// The processor time a run may use. A run that needs more (because the library became slower: a
/// run executes up to some hundred thousand calls) ends early, as if its schedule were shorter.
#[derive(Clone, Copy)]
pub struct Due(u64, u64);

impl Due {
    pub fn new() -> Self {
        Due(crate::entropy::cpu_ms(), 12_000)
    }
    pub fn used(&self) -> u64 {
        crate::entropy::cpu_ms() - self.0
    }
    pub fn passed(&self) -> bool {
        self.used() > self.1
    }
}

pub struct Cx {
    pub focus: u8,
    pub stats: BTreeMap<&'static str, u64>,
    pub digest: u64,
    pub shape: u64,
    pub states: HashSet<u64>,
    pub step: usize,
    pub now_ms: u64,
    pub known: BTreeMap<String, u64>,
    pub trace: Option<Vec<String>>,
    /// measured non-triviality of the run, set by the oracles of the focused property
    pub hot: u64,
    pub due: Due,
    pub curtailed: bool,
}

impl Cx {
    pub fn new(focus: u8, trace: bool) -> Self {
        Cx {
            focus,
            stats: BTreeMap::new(),
            digest: FNV0,
            shape: FNV0,
            states: HashSet::new(),
            step: 0,
            now_ms: 0,
            known: BTreeMap::new(),
            trace: if trace { Some(vec![]) } else { None },
            hot: 0,
            due: Due::new(),
            curtailed: false,
        }
    }
    pub fn late(&mut self) -> bool {
        if !self.curtailed && self.due.passed() {
            self.curtailed = true;
            self.n("runs_curtailed");
        }
        self.curtailed
    }
    pub fn on(&self, p: u8) -> bool {
        self.focus == p
    }
    pub fn n(&mut self, key: &'static str) {
        *self.stats.entry(key).or_insert(0) += 1;
    }
    pub fn add(&mut self, key: &'static str, v: u64) {
        *self.stats.entry(key).or_insert(0) += v;
    }
    pub fn dig(&mut self, s: &str) {
        self.digest = fnv(s.as_bytes(), self.digest);
        self.digest = fnv(&[0xff], self.digest);
    }
    /// order of events only: the interleaving
    pub fn shp(&mut self, b: &[u8]) {
        self.shape = fnv(b, self.shape);
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = format!("#{} t={}ms {}", self.step, self.now_ms, f());
            self.trace.as_mut().unwrap().push(s);
        }
    }
}
