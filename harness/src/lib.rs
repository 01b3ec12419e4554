pub mod cert;
pub mod circ;
pub mod clear;
pub mod g16;
pub mod gad;
pub mod json;
pub mod obs;
pub mod rec;
pub mod rng;
pub mod tcs;
pub mod toy;
pub mod util;
pub use json::J;
pub mod zq;
