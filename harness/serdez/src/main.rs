//! Checks of the serde layer over generated types (C06, C07, C14 to C17).
mod data;
mod hand;
mod load;
mod probe;
mod round;
mod util;

#[global_allocator]
static A: engine::alloc::Counting = engine::alloc::Counting;

fn main() {
    let props = [
        ("C06", data::c06()),
        ("C07", data::c07()),
        ("C14", round::c14()),
        ("C15", round::c15()),
        ("C16", round::c16()),
        ("C17", data::c17()),
        ("C21", load::c21()),
    ];
    std::process::exit(engine::runner::main(&props));
}
