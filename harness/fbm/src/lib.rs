//! Model of FlatBuffers schemas, values and wire format, independent of planus.
#![allow(unused_assignments)]
pub mod decode;
pub mod encode;
pub mod gen;
pub mod rng;
pub mod schema;
pub mod src;
pub mod text;
pub mod value;

pub use rng::Rng;
pub use schema::*;
pub use value::*;
