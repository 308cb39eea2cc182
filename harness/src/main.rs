//! Property-based tests of the opentype crate.

#[macro_use]
mod value;
mod checks;
mod codec;
mod engine;
mod fonts;
mod guided;
mod image;
mod kinds;
mod memory;
mod proj;
mod registry;
mod runner;
mod shared;
mod spec;
mod tags;
mod tape;

#[global_allocator]
static ALLOCATOR: memory::Limited = memory::Limited;

fn main() {
    std::process::exit(runner::main());
}
