pub mod ast;
pub mod bits;
pub mod codec;
pub mod model;
pub mod parse;
pub mod scalar;
pub mod value;
pub mod gen;
pub mod rng;
pub mod json;
pub mod glue;
