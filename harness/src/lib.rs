#[macro_use]
pub mod engine;
pub mod digits;
pub mod field;
pub mod heap;
pub mod prim;
pub mod alpha;
pub mod big;
pub mod refint;
