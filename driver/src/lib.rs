//! Script interpreter that drives the public API of `succinct_neo` and records what it does.
//!
//! The interpreter takes no decisions and holds no oracle: it executes one script command at a
//! time and appends one JSON line per command with the arguments and the observed result. The
//! first half of a line (the call) is written before the call is made, the second half (the
//! result) afterwards, so that a call that kills the process or never returns is still on record.

pub mod ctx;
pub mod long;
pub mod make;
pub mod mem;
