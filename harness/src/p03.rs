//! c32: encode writes the number the bytes denote, most significant digit
//! first, one '0' per leading zero byte; decode is its inverse and accepts the
//! aliases o/O = 0, i/I/l/L = 1 and lower case.
use core::mem::forget;

use stacks_core::c32::{decode, encode};

use crate::util::*;

pub const ALPHABET: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/// value of a c32 character, 255 if it is none
pub fn digit(c: u8) -> u8 {
    let c = if c >= b'a' && c <= b'z' { c - 32 } else { c };
    if c >= b'0' && c <= b'9' {
        c - b'0'
    } else if c == b'O' {
        0
    } else if c == b'I' || c == b'L' {
        1
    } else if c == b'U' || c < b'A' || c > b'Z' {
        255
    } else {
        // letters from 10 on, skipping I, L, O, U
        10 + (c - b'A') - (c > b'I') as u8 - (c > b'L') as u8 - (c > b'O') as u8 - (c > b'U') as u8
    }
}
/// The characters that encode `d` (at most 64 bytes), and how many.
pub fn spec_encode(d: &[u8]) -> ([u8; 112], usize) {
    let mut zeros = 0;
    let mut lead = true;
    let mut i = 0;
    while i < d.len() {
        lead &= d[i] == 0;
        zeros += lead as usize;
        i += 1;
    }
    // digit k (from the least significant) covers bits 5k..5k+5
    let nd = (d.len() * 8 + 4) / 5;
    let mut top = 0; // significant digits
    let mut k = 0;
    while k < nd {
        if digit_at(d, k) != 0 { top = k + 1 }
        k += 1;
    }
    let mut out = [b'0'; 112];
    let mut j = 0;
    while j < nd {
        if j < top { out[zeros + top - 1 - j] = ALPHABET[digit_at(d, j) as usize] }
        j += 1;
    }
    (out, zeros + top)
}
fn bit(d: &[u8], i: usize) -> u8 {
    let n = d.len() * 8;
    if i < n { (d[d.len() - 1 - i / 8] >> (i % 8)) & 1 } else { 0 }
}
fn digit_at(d: &[u8], k: usize) -> u8 {
    bit(d, 5 * k) | bit(d, 5 * k + 1) << 1 | bit(d, 5 * k + 2) << 2 | bit(d, 5 * k + 3) << 3 | bit(d, 5 * k + 4) << 4
}
pub fn spec_decode(s: &[u8]) -> Option<([u8; 64], usize)> {
    let mut ok = true;
    let mut zeros = 0;
    let mut lead = true;
    let mut i = 0;
    while i < s.len() {
        let g = digit(s[i]);
        ok &= g < 32;
        lead &= g == 0;
        zeros += lead as usize;
        i += 1;
    }
    if !ok { return None }
    let nb = (s.len() * 5 + 7) / 8;
    let mut top = 0;
    let mut k = 0;
    while k < nb {
        if byte_at(s, k) != 0 { top = k + 1 }
        k += 1;
    }
    let mut out = [0u8; 64];
    let mut j = 0;
    while j < nb {
        if j < top { out[zeros + top - 1 - j] = byte_at(s, j) }
        j += 1;
    }
    Some((out, zeros + top))
}
fn sbit(s: &[u8], i: usize) -> u8 {
    let n = s.len() * 5;
    if i < n { (digit(s[s.len() - 1 - i / 5]) >> (i % 5)) & 1 } else { 0 }
}
fn byte_at(s: &[u8], k: usize) -> u8 {
    let mut b = 0;
    let mut i = 0;
    while i < 8 { b |= sbit(s, 8 * k + i) << i; i += 1; }
    b
}

fn enc<const N: usize>() {
    let d = nd::bytes::<N>();
    let out = encode(d);
    let (want, n) = spec_encode(&d);
    let o = out.as_bytes();
    assert!(o.len() == n);
    let mut same = true;
    let mut i = 0;
    while i < (N * 8 + 4) / 5 {
        if i < n { same &= o[i] == want[i]; }
        i += 1;
    }
    assert!(same);
    forget(out);
}
pub fn ascii<const N: usize>() -> [u8; N] {
    let mut b = nd::bytes::<N>();
    let st = nd::steer();
    let mut i = 0;
    while i < N {
        if st { b[i] = b"00oO01iIlL289azAZuhQ"[b[i] as usize % 20]; }
        if cfg!(kani) { nd::assume(b[i] < 128) } else { b[i] &= 127 }
        i += 1;
    }
    b
}
fn dec<const N: usize>() {
    let b = ascii::<N>();
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let r = decode(s);
    let want = spec_decode(&b);
    match (&r, &want) {
        (Ok(v), Some((w, n))) => {
            assert!(v.len() == *n);
            let mut same = true;
            let mut i = 0;
            while i < N {
                if i < *n { same &= v[i] == w[i]; }
                i += 1;
            }
            assert!(same);
        }
        (Err(_), None) => {}
        _ => assert!(false, "accepted/rejected against the alphabet"),
    }
    forget(r);
}
fn back<const N: usize>() {
    let d = nd::bytes::<N>();
    let e = encode(d);
    let r = decode(&e).unwrap();
    assert!(r.len() == N && bytes_eq(&r, &d));
    forget((e, r));
}
proof!(b_enc_1, 12, enc::<1>());
proof!(b_enc_2, 12, enc::<2>());
proof!(b_enc_3, 12, enc::<3>());
proof!(b_enc_5, 12, enc::<5>());
proof!(n_enc, 12, { enc::<0>(); enc::<1>(); enc::<4>(); enc::<8>(); enc::<20>(); enc::<24>(); enc::<25>(); enc::<63>(); enc::<64>(); });
proof!(n_dec, 12, { dec::<0>(); dec::<2>(); dec::<3>(); dec::<1>(); dec::<8>(); dec::<9>(); dec::<39>(); dec::<40>(); dec::<41>(); dec::<64>(); });
proof!(n_back, 12, { back::<1>(); back::<5>(); back::<20>(); back::<24>(); back::<33>(); back::<200>(); });
