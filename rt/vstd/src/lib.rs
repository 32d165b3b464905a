//! The standard library as the code under test sees it: the real one, except for hash maps
//! (association lists), threads and blocking synchronisation (tasks with symbolic scheduling).
pub use std::*;

pub mod collections;
pub mod sync;
pub mod thread;
