//! Stand-in for an absent crate of which gearley-utils uses nothing.
