//! Programs some of which must not compile (S15); written by `sim typed-bad`.
include!(env!("BAD_CASES"));
fn main() {}
