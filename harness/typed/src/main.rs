//! Checks of the typed layer over generated types (C05 to C14).
mod bytes;
mod fields;
mod load;
mod round;
mod scalar;
mod shape;
mod util;

#[global_allocator]
static A: engine::alloc::Counting = engine::alloc::Counting;

fn main() {
    let props = [
        ("C05", bytes::c05()),
        ("C06", bytes::c06()),
        ("C07", bytes::c07()),
        ("C08", scalar::c08()),
        ("C09", round::c09()),
        ("C10", round::c10()),
        ("C11", shape::c11()),
        ("C12", fields::c12()),
        ("C13", shape::c13()),
        ("C14", round::c14()),
        ("C20", round::c20()),
        ("C21", load::c21()),
    ];
    std::process::exit(engine::runner::main(&props));
}
