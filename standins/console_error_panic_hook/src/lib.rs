//! Stand-in: panics are reported by whatever runs the harness.
pub fn set_once() {}
