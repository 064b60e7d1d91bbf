//! Shared machinery of the conformance drivers: input generators, independent measurements, guarded
//! execution and the trace writer.
pub mod gen;
pub mod geo;
pub mod json;
pub mod rewrite;
pub mod rng;
pub mod ops;
pub mod run;
pub mod sample;
pub mod measure;
pub mod mono;
