//! Deterministic simulation of goban under faults. See /verif/DESIGN.md.

#![allow(clippy::all)]

mod conc;
mod cx;
mod dead;
mod drive;
mod endurance;
mod entropy;
mod model;
mod party;
mod plan;
mod records;
mod rng;
mod sut;
mod world;

fn main() {
    sut::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = drive::main(&args);
    std::process::exit(code);
}
