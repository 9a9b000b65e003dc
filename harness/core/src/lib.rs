//! Parts of the harness that know nothing of the code under test: random numbers, hashing, JSON
//! output, the independent VobSub and PGS encoders / reference models and the instrumented readers
//! and writers.
pub mod rng;
pub mod util;
pub mod vob;
pub mod pgs;
pub mod io;
