//! Sessions on the recognizer without its `log` feature.
use super::{forests, gram, ops, refs};
use gearley_recognizer;
#[path = "../../sim-parse/src/session.rs"]
pub mod session;
#[cfg(feature = "default-grammar")]
pub mod driven {
    use super::gearley_recognizer;
    use super::{forests, gram};
    use gearley_utils as gearley_utils;
    include!("driven.rs");
}
