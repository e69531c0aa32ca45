//! A PBF encoder of its own, written from the format's specification: what other producers may write.
#![allow(dead_code)]
use crate::sym::*;
use std::path::PathBuf;

#[derive(Clone, Default)]
pub struct Msg(pub Vec<u8>);
fn put(o: &mut Vec<u8>, v: u64) { prost::encoding::encode_varint(v, o) }
fn zz(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
impl Msg {
    pub fn new() -> Msg { Msg(vec![]) }
    fn key(&mut self, f: u32, w: u32) { put(&mut self.0, ((f << 3) | w) as u64) }
    /// varint field (uint, int, bool, enum; negative int32/int64 sign-extended)
    pub fn v(mut self, f: u32, v: i64) -> Msg { self.key(f, 0); put(&mut self.0, v as u64); self }
    /// zigzag field
    pub fn z(mut self, f: u32, v: i64) -> Msg { self.key(f, 0); put(&mut self.0, zz(v)); self }
    pub fn bytes(mut self, f: u32, b: &[u8]) -> Msg { self.key(f, 2); put(&mut self.0, b.len() as u64); self.0.extend_from_slice(b); self }
    pub fn msg(self, f: u32, m: &Msg) -> Msg { self.bytes(f, &m.0) }
    pub fn packed(self, f: u32, l: &[i64]) -> Msg { if l.is_empty() { return self; } let mut o = vec![]; for v in l { put(&mut o, *v as u64); } self.bytes(f, &o) }
    pub fn packed_z(self, f: u32, l: &[i64]) -> Msg { if l.is_empty() { return self; } let mut o = vec![]; for v in l { put(&mut o, zz(*v)); } self.bytes(f, &o) }
    pub fn opt(self, f: u32, v: Option<i64>) -> Msg { match v { Some(v) => self.v(f, v), None => self } }
}
pub fn delta(l: &[i64]) -> Vec<i64> { let mut p = 0i64; l.iter().map(|v| { let d = v.wrapping_sub(p); p = *v; d }).collect() }
pub fn strings(l: &[&str]) -> Msg { let mut m = Msg::new(); for s in l { m = m.bytes(1, s.as_bytes()); } m }
/// PrimitiveBlock
pub fn block(table: &[&str], groups: &[Msg]) -> Msg { let mut m = Msg::new().msg(1, &strings(table)); for g in groups { m = m.msg(2, g); } m }
#[derive(Clone, Copy, PartialEq)]
pub enum Store { Raw, RawSized, Zlib, ZlibUnsized, None, Lzma, Bzip2, Lz4, Zstd }
pub fn zlib(data: &[u8]) -> Vec<u8> { use std::io::Write; let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::default()); e.write_all(data).unwrap(); e.finish().unwrap() }
pub fn blob(s: Store, data: &[u8]) -> Msg {
    let m = Msg::new(); let n = data.len() as i64;
    match s {
        Store::Raw => m.bytes(1, data), Store::RawSized => m.bytes(1, data).v(2, n), Store::Zlib => m.v(2, n).bytes(3, &zlib(data)), Store::ZlibUnsized => m.bytes(3, &zlib(data)),
        Store::None => m.v(2, n), Store::Lzma => m.v(2, n).bytes(4, data), Store::Bzip2 => m.v(2, n).bytes(5, data), Store::Lz4 => m.v(2, n).bytes(6, data), Store::Zstd => m.v(2, n).bytes(7, data),
    }
}
pub fn frame(t: &str, index: Option<&[u8]>, blob: &Msg) -> Vec<u8> {
    let mut h = Msg::new().bytes(1, t.as_bytes()); if let Some(i) = index { h = h.bytes(2, i); } let h = h.v(3, blob.0.len() as i64);
    let mut o = (h.0.len() as i32).to_be_bytes().to_vec(); o.extend_from_slice(&h.0); o.extend_from_slice(&blob.0); o
}
pub fn header_msg(required: &[&str], optional: &[&str]) -> Msg { let mut m = Msg::new(); for r in required { m = m.bytes(4, r.as_bytes()); } for r in optional { m = m.bytes(5, r.as_bytes()); } m }
pub fn header() -> Vec<u8> { frame("OSMHeader", None, &blob(Store::Raw, &header_msg(&["OsmSchema-V0.6", "DenseNodes"], &[]).0)) }
pub fn data(b: &Msg) -> Vec<u8> { frame("OSMData", None, &blob(Store::Raw, &b.0)) }
pub fn save(name: &str, parts: &[Vec<u8>]) -> PathBuf { let p = dir().join(name); let mut all = vec![]; for x in parts { all.extend_from_slice(x); } std::fs::write(&p, &all).expect("scratch file"); p }
/// a group of one plain node, way or relation with nothing but an id (and position)
pub fn plain_group(kind: usize, id: i64) -> Msg {
    match kind { 0 => Msg::new().msg(1, &Msg::new().z(1, id).z(8, 10).z(9, 20)), 1 => Msg::new().msg(3, &Msg::new().v(1, id).packed_z(8, &[1, 1])), _ => Msg::new().msg(4, &Msg::new().v(1, id).packed(8, &[0]).packed_z(9, &[5]).packed(10, &[1])) }
}
