//! Verification stand-in: not used by the code under test.
pub struct SimpleLogger;
impl SimpleLogger { pub fn new() -> Self { SimpleLogger } pub fn init(self) -> Result<(), ()> { Ok(()) } }
