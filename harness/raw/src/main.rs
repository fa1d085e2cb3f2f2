//! Checks of the untyped layer: reader, writer, value order, macros (C01 to C07, C18).
#[macro_use]
extern crate alloc;

mod c18;
mod enc;
mod load;
mod mem;
mod order;
mod read;

#[global_allocator]
static A: engine::alloc::Counting = engine::alloc::Counting;

/// The crate behind the differential fuzzer, compiled from its own source.
#[allow(dead_code, clippy::all)]
#[path = "/repo/difffuzz/src/lib.rs"]
mod difffuzz;

fn main() {
    let props = [
        ("C01", read::c01()),
        ("C02", read::c02()),
        ("C03", enc::c03()),
        ("C04", order::c04()),
        ("C05", read::c05()),
        ("C06", mem::c06()),
        ("C07", enc::c07()),
        ("C18", c18::c18()),
        ("C21", load::c21()),
    ];
    std::process::exit(engine::runner::main(&props));
}
