//! Stand-in for an absent crate: the names that gearley-wasm imports.
pub use cfg::{Cfg, CfgRule, Symbol, SymbolBitSet};
