//! The machinery of the model checker. Nothing in here depends on rpds.
pub mod bfs;
pub mod cases;
pub mod ptr;
pub mod run;
pub mod sched;
pub mod step;
pub mod tok;
pub mod universe;

pub use bfs::{Bfs, System};
pub use cases::Cases;
pub use ptr::McK;
pub use run::{Check, Cx, Stats, Suite};
pub use tok::{Ix, Key, TableHash, Tok, other};
pub use universe::{Counters, Universe};
