pub mod gen;
pub mod mutate;
pub mod sty;
pub mod ty;
pub mod value;
pub mod wire;
pub use wire::M;
