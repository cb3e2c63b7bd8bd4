#![allow(dead_code)]
//! Model checking the whole program: `check run <id> <tier>`, `check replay <file>`.
mod alloc;
mod btc;
mod checks;
mod life;
mod model;
mod node;
mod runner;
mod wallet;
mod world;

#[global_allocator]
static ALLOC: alloc::Guard = alloc::Guard;

fn main() {
    std::process::exit(runner::main(std::env::args().skip(1).collect()));
}
