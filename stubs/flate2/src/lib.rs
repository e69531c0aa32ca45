//! Verification stand-in for zlib: an identity codec inside a genuine zlib stream of stored blocks
//! (so that a real zlib can read it), with header, block lengths and trailer checked on reading.
//! The contract used: decode(encode(x)) == x, a truncated or foreign stream is an error.
use std::io::{self, BufRead, Read, Write};
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression { pub const fn new(l: u32) -> Self { Compression(l) } pub const fn none() -> Self { Compression(0) } pub const fn fast() -> Self { Compression(1) } pub const fn best() -> Self { Compression(9) } pub fn level(&self) -> u32 { self.0 } }
impl Default for Compression { fn default() -> Self { Compression(6) } }
fn pack(d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let n = d.len().div_ceil(65535).max(1);
    for (i, c) in (0..n).map(|i| (i, &d[i * 65535..((i + 1) * 65535).min(d.len())])) { o.push((i + 1 == n) as u8); o.extend_from_slice(&(c.len() as u16).to_le_bytes()); o.extend_from_slice(&(!(c.len() as u16)).to_le_bytes()); o.extend_from_slice(c); }
    o.extend_from_slice(b"ADLR"); o
}
fn bad() -> io::Error { io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream") }
fn unpack(d: &[u8]) -> io::Result<Vec<u8>> {
    if d.len() < 2 || d[0] != 0x78 || d[1] != 0x01 { return Err(bad()); }
    let mut i = 2; let mut o = vec![];
    loop {
        if d.len() < i + 5 { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
        let n = u16::from_le_bytes([d[i + 1], d[i + 2]]); if d[i] > 1 || u16::from_le_bytes([d[i + 3], d[i + 4]]) != !n { return Err(bad()); }
        let last = d[i] == 1; i += 5; let n = n as usize;
        if d.len() < i + n { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
        o.extend_from_slice(&d[i..i + n]); i += n;
        if last { break; }
    }
    if d.len() < i + 4 { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
    if &d[i..i + 4] != b"ADLR" { return Err(bad()); }
    Ok(o)
}
pub mod write {
    use super::*;
    pub struct ZlibEncoder<W: Write> { w: Option<W>, b: Vec<u8> }
    impl<W: Write> ZlibEncoder<W> { pub fn new(w: W, _: Compression) -> Self { ZlibEncoder { w: Some(w), b: vec![] } } pub fn finish(mut self) -> io::Result<W> { let mut w = self.w.take().unwrap(); w.write_all(&pack(&self.b))?; Ok(w) } }
    impl<W: Write> Write for ZlibEncoder<W> { fn write(&mut self, d: &[u8]) -> io::Result<usize> { self.b.extend_from_slice(d); Ok(d.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    pub struct ZlibDecoder<W: Write> { w: Option<W>, b: Vec<u8> }
    impl<W: Write> ZlibDecoder<W> { pub fn new(w: W) -> Self { ZlibDecoder { w: Some(w), b: vec![] } } pub fn finish(mut self) -> io::Result<W> { let mut w = self.w.take().unwrap(); w.write_all(&unpack(&self.b)?)?; Ok(w) } }
    impl<W: Write> Write for ZlibDecoder<W> { fn write(&mut self, d: &[u8]) -> io::Result<usize> { self.b.extend_from_slice(d); Ok(d.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
}
macro_rules! rd { ($n:ident, $b:path, $f:expr, ($($extra:ty)?)) => {
    pub struct $n<R> { r: R, o: Option<(Vec<u8>, usize)> }
    impl<R: $b> $n<R> { pub fn new(r: R $(, _: $extra)?) -> Self { $n { r, o: None } } pub fn into_inner(self) -> R { self.r } }
    impl<R: $b> Read for $n<R> { fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
        if self.o.is_none() { let mut v = vec![]; self.r.read_to_end(&mut v)?; let f: fn(&[u8]) -> io::Result<Vec<u8>> = $f; self.o = Some((f(&v)?, 0)); }
        let (o, p) = self.o.as_mut().unwrap(); let n = d.len().min(o.len() - *p); d[..n].copy_from_slice(&o[*p..*p + n]); *p += n; Ok(n)
    } }
} }
pub mod bufread { use super::*; rd!(ZlibDecoder, BufRead, unpack, ()); rd!(ZlibEncoder, BufRead, |d| Ok(pack(d)), (Compression)); }
pub mod read { use super::*; rd!(ZlibDecoder, Read, unpack, ()); rd!(ZlibEncoder, Read, |d| Ok(pack(d)), (Compression)); }
