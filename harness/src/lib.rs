pub mod source;
#[macro_use]
pub mod runner;
pub mod checks;
#[path = "../../bare/src/dump.rs"]
pub mod dump;
pub mod expect;
pub mod gen;
pub mod model;
pub mod sut;
pub mod util;
pub mod vif;
