// Differential search on the real crate, used when a proof does not go through:
// finds a concrete failing input (or, for a function the verifier could not read,
// is the stated bounded stand-in).
mod big;
mod bitmap;
mod dec;
mod drive;
mod log;
mod math;
mod pool;
mod rng;
mod text;
pub use drive::{call, Case, Prop};

fn prop(id: &str) -> Option<Box<dyn Prop>> {
    dec::prop(id).or_else(|| text::prop(id)).or_else(|| log::prop(id)).or_else(|| bitmap::prop(id)).or_else(|| math::prop(id)).or_else(|| pool::prop(id))
}

fn main() {
    drive::main(prop)
}
