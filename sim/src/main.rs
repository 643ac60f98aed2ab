//! Deterministic simulation of poly2tri-rs. See /verif/DESIGN.md.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
#[macro_use]
mod codec;
mod disk;
mod driver;
mod exec;
mod exotic;
mod gen;
mod geom;
mod plan;
mod prng;
mod refs;
mod sched;
mod seam;
mod shared;
mod shrink;
mod tok;
mod view;

fn main() {
    std::process::exit(driver::main());
}
