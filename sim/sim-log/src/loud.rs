//! Sessions on the recognizer with its `log` feature.
use super::{forests, gram, ops, refs};
use gearley_recognizer_log as gearley_recognizer;
#[path = "../../sim-parse/src/session.rs"]
pub mod session;
#[cfg(feature = "default-grammar")]
pub mod driven {
    use super::gearley_recognizer;
    use super::{forests, gram};
    use gearley_utils_log as gearley_utils;
    include!("driven.rs");
}
