//! The checks of rpds. `fam` binds each structure to its reference model; `world` explores several
//! coexisting versions of it.
pub mod across;
pub mod big;
pub mod bulk;
pub mod conc;
pub mod fam;
pub mod menu;
pub mod reach;
pub mod ser;
pub mod step;
pub mod threads;
pub mod types;
pub mod world;

pub use across::*;
pub use big::*;
pub use bulk::*;
pub use conc::*;
pub use fam::*;
pub use menu::*;
pub use reach::*;
pub use step::*;
pub use threads::*;
pub use mc_core::*;
pub use types::*;
pub use world::*;
