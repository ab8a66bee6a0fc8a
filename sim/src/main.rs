//! fpsim: deterministic simulation of fast_paths with fault injection.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod alloc;
mod disk;
mod driver;
mod exec;
mod exec_files;
mod exec_mem;
mod exec_more;
mod gen;
mod graphs;
mod minimize;
mod model;
mod rng;
mod rt;
mod scen;
mod sys;

#[global_allocator]
static GLOBAL: alloc::Arena = alloc::Arena;

fn main() {
    driver::main()
}
