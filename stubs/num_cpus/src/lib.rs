//! Verification stand-in: the number of CPUs is an environment input, fixed to two here.
pub fn get() -> usize { 2 }
pub fn get_physical() -> usize { 2 }
