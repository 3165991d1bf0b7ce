//! Pulls in the crate under verification; the contract wrappers are generated
//! into /verif/build by vp/build.py and compiled against this dependency graph.
pub use packed_simd;
