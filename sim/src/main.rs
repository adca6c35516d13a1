//! Deterministic simulation of the bnf library: see /verif/DESIGN.md.
mod driver;
mod env;
mod r#gen;
mod model;
mod props;
mod run;
mod sched;

#[global_allocator]
static ALLOC: env::SimAlloc = env::SimAlloc;

fn main() {
    driver::main()
}
