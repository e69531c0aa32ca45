//! Verification stand-in: not used by the code under test.
