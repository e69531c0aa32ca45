//! Verification copy: a value that is symbolic during a symbolic run is written as a padded ten-byte varint (a legal
//! encoding of the same number), so that its length does not depend on it; everything else is encoded as usual.
//! Decoding is the crate's byte-at-a-time loop.
use core::num::NonZeroU64;
use ::bytes::{Buf, BufMut};
use crate::DecodeError;

extern "C" {
    fn __sym_is_symbolic(v: u64) -> u64;
}
#[inline]
fn symbolic(v: u64) -> bool {
    unsafe { __sym_is_symbolic(v) != 0 }
}

/// Encodes an integer value into LEB128 variable length format, and writes it to the buffer.
#[inline(never)]
fn varint_bytes(mut value: u64, out: &mut [u8; 10]) -> usize {
    if symbolic(value) {
        for b in out.iter_mut().take(9) {
            *b = ((value & 0x7F) | 0x80) as u8;
            value >>= 7;
        }
        out[9] = value as u8;
        return 10;
    }
    let mut n = 0;
    loop {
        if value < 0x80 {
            out[n] = value as u8;
            return n + 1;
        }
        out[n] = ((value & 0x7F) | 0x80) as u8;
        value >>= 7;
        n += 1;
    }
}

pub fn encode_varint(value: u64, buf: &mut impl BufMut) {
    let mut t = [0u8; 10];
    let n = varint_bytes(value, &mut t);
    buf.put_slice(&t[..n]);
}

/// Returns the encoded length of the value in LEB128 variable length format.
pub fn encoded_len_varint(value: u64) -> usize {
    if symbolic(value) {
        return 10;
    }
    let log2value = unsafe { NonZeroU64::new_unchecked(value | 1) }.ilog2();
    ((log2value * 9 + (64 + 9)) / 64) as usize
}

/// Decodes a LEB128-encoded variable length integer from the buffer.
pub fn decode_varint(buf: &mut impl Buf) -> Result<u64, DecodeError> {
    let mut value = 0u64;
    let mut count = 0u32;
    while count < 10 && buf.remaining() > 0 {
        let byte = buf.chunk()[0];
        buf.advance(1);
        value |= u64::from(byte & 0x7F) << (count * 7);
        if byte <= 0x7F {
            if count == 9 && byte >= 0x02 {
                return Err(DecodeError::new("invalid varint"));
            }
            return Ok(value);
        }
        count += 1;
    }
    Err(DecodeError::new("invalid varint"))
}
