//! Verification stand-in: distinct ids from a counter (the contract used: new_v4 never repeats).
use std::sync::atomic::{AtomicU64, Ordering};
static NEXT: AtomicU64 = AtomicU64::new(1);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uuid(u64);
impl Uuid { pub fn new_v4() -> Uuid { Uuid(NEXT.fetch_add(1, Ordering::SeqCst)) } pub fn as_u128(&self) -> u128 { self.0 as u128 } }
impl std::fmt::Display for Uuid { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:032x}", self.0) } }
