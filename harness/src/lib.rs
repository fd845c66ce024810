#![allow(clippy::all)]
pub mod cl;
pub mod engine;
pub mod gens;
pub mod mh;
pub mod refhash;
pub mod rng;
pub mod sh;
