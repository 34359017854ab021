//! Assumed contract of the hex crate (0.4): lower-case encoding, decoding of
//! both cases.
use std::fmt;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromHexError {
    InvalidHexCharacter { c: char, index: usize },
    OddLength,
    InvalidStringLength,
}
impl std::error::Error for FromHexError {}
impl fmt::Display for FromHexError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid hex")
    }
}
fn digit(n: u8, ten: u8) -> u8 {
    if n < 10 { b'0' + n } else { ten + (n - 10) }
}
fn enc(data: &[u8], ten: u8) -> String {
    let mut v = vec![0u8; data.len() * 2];
    let mut i = 0;
    while i < data.len() {
        v[2 * i] = digit(data[i] >> 4, ten);
        v[2 * i + 1] = digit(data[i] & 15, ten);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
    enc(data.as_ref(), b'a')
}
pub fn encode_upper<T: AsRef<[u8]>>(data: T) -> String {
    enc(data.as_ref(), b'A')
}
/// value, or 255
fn value(c: u8) -> u8 {
    if c >= b'0' && c <= b'9' {
        c - b'0'
    } else if c >= b'a' && c <= b'f' {
        c - b'a' + 10
    } else if c >= b'A' && c <= b'F' {
        c - b'A' + 10
    } else {
        255
    }
}
fn dec(d: &[u8], out: &mut [u8]) -> Result<(), FromHexError> {
    let mut bad = false;
    let mut i = 0;
    while i < out.len() {
        let (h, l) = (value(d[2 * i]), value(d[2 * i + 1]));
        bad |= (h == 255) | (l == 255);
        out[i] = (h << 4) | (l & 15);
        i += 1;
    }
    if bad {
        // which character is not part of the contract
        Err(FromHexError::InvalidHexCharacter { c: '?', index: 0 })
    } else {
        Ok(())
    }
}
pub fn decode<T: AsRef<[u8]>>(data: T) -> Result<Vec<u8>, FromHexError> {
    let d = data.as_ref();
    if d.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    let mut v = vec![0u8; d.len() / 2];
    match dec(d, &mut v) {
        Ok(()) => Ok(v),
        Err(e) => Err(e),
    }
}
pub fn decode_to_slice<T: AsRef<[u8]>>(data: T, out: &mut [u8]) -> Result<(), FromHexError> {
    let d = data.as_ref();
    if d.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    if d.len() / 2 != out.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    dec(d, out)
}
pub fn encode_to_slice<T: AsRef<[u8]>>(data: T, out: &mut [u8]) -> Result<(), FromHexError> {
    let d = data.as_ref();
    if d.len() * 2 != out.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    out.copy_from_slice(encode(d).as_bytes());
    Ok(())
}
