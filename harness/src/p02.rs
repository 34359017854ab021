//! Uint<N> conversions are inverse to each other and keep the value.
use core::mem::forget;

use stacks_core::codec::Codec;
use stacks_core::uint::Uint;

use crate::util::*;

fn any<const N: usize>() -> ([u64; N], Uint<N>) {
    let w = nd::words::<N>();
    (w, Uint::from_u64_array(w))
}
fn words<const N: usize>(x: Uint<N>) -> [u64; N] {
    let v: Vec<u64> = x.into();
    assert!(v.len() == N);
    let mut r = [0; N];
    let mut i = 0;
    while i < N {
        r[i] = v[i];
        i += 1;
    }
    forget(v);
    r
}
fn same<const N: usize>(x: Uint<N>, w: &[u64; N]) -> bool {
    let v = words(x);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        ok &= v[i] == w[i];
        i += 1;
    }
    ok
}
fn byte(w: &[u64], i: usize) -> u8 {
    (w[i / 8] >> (8 * (i % 8))) as u8
}
fn to_bytes<const N: usize>() {
    let (w, x) = any::<N>();
    let (le, be) = (x.to_le_bytes(), x.to_be_bytes());
    let wire = x.serialize_to_vec();
    assert!(le.len() == 8 * N && be.len() == 8 * N && wire.len() == 8 * N);
    let mut ok = true;
    let mut i = 0;
    while i < 8 * N {
        ok &= le[i] == byte(&w, i);
        ok &= be[8 * N - 1 - i] == byte(&w, i);
        ok &= wire[8 * N - 1 - i] == byte(&w, i);
        i += 1;
    }
    assert!(ok);
    forget((le, be, wire));
}
fn from_bytes<const N: usize, const B: usize>() {
    let b = nd::bytes::<B>();
    let (le, be) = (Uint::<N>::from_le_bytes(b), Uint::<N>::from_be_bytes(b));
    if B != 8 * N {
        assert!(le.is_err() && be.is_err());
    } else {
        let (le, be) = (words(le.unwrap()), words(be.unwrap()));
        let mut ok = true;
        let mut i = 0;
        while i < 8 * N {
            ok &= byte(&le, i) == b[i];
            ok &= byte(&be, 8 * N - 1 - i) == b[i];
            i += 1;
        }
        assert!(ok);
    }
}
fn decode<const N: usize>(have: usize) {
    let b = nd::bytes::<66>();
    let mut rd = &b[..have];
    let r = Uint::<N>::codec_deserialize(&mut rd);
    if have < 8 * N {
        assert!(r.is_err());
        forget(r);
    } else {
        let w = words(r.ok().unwrap());
        assert!(rd.len() == have - 8 * N);
        let mut ok = true;
        let mut i = 0;
        while i < 8 * N {
            ok &= byte(&w, 8 * N - 1 - i) == b[i];
            i += 1;
        }
        assert!(ok);
    }
}
proof!(to_bytes_256, 70, to_bytes::<4>());
proof!(to_bytes_512, 70, to_bytes::<8>());
proof!(from_bytes_256, 70, { from_bytes::<4, 32>(); from_bytes::<4, 31>(); from_bytes::<4, 24>(); from_bytes::<4, 40>(); from_bytes::<4, 0>(); from_bytes::<4, 33>(); });
proof!(from_bytes_512, 70, { from_bytes::<8, 64>(); from_bytes::<8, 32>(); from_bytes::<8, 63>(); from_bytes::<8, 65>(); });
proof!(decode_256, 70, { decode::<4>(32); decode::<4>(33); decode::<4>(31); decode::<4>(0); });
proof!(decode_512, 70, { decode::<8>(64); decode::<8>(66); decode::<8>(63); });

fn nib(b: u8) -> u8 { if b < 10 { b'0' + b } else { b'a' + (b - 10) } }
fn to_hex<const N: usize>() {
    let (w, x) = any::<N>();
    let (le, be) = (x.to_le_hex(), x.to_be_hex());
    let (l, e) = (le.as_bytes(), be.as_bytes());
    assert!(l.len() == 16 * N && e.len() == 16 * N);
    let mut ok = true;
    let mut i = 0;
    while i < 8 * N {
        let b = byte(&w, i);
        ok &= (l[2 * i] == nib(b >> 4)) & (l[2 * i + 1] == nib(b & 15));
        let k = 8 * N - 1 - i;
        ok &= (e[2 * k] == nib(b >> 4)) & (e[2 * k + 1] == nib(b & 15));
        i += 1;
    }
    assert!(ok);
    forget((le, be));
}
fn val(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
fn from_hex<const N: usize, const C: usize>() {
    let mut b = nd::bytes::<C>();
    let mut ok = true;
    let mut i = 0;
    while i < C {
        if nd::steer() { b[i] = b"0123456789abcdefABCDEF"[b[i] as usize % 22]; }
        if cfg!(kani) { nd::assume(b[i] < 128) } else { b[i] &= 127 }
        ok &= val(b[i]).is_some();
        i += 1;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&b) };
    let (le, be) = (Uint::<N>::from_le_hex(s), Uint::<N>::from_be_hex(s));
    if C != 16 * N || !ok {
        assert!(le.is_err() && be.is_err());
        forget((le, be));
    } else {
        let (le, be) = (words(le.ok().unwrap()), words(be.ok().unwrap()));
        let mut i = 0;
        let mut ok = true;
        while i < 8 * N {
            let v = val(b[2 * i]).unwrap() * 16 + val(b[2 * i + 1]).unwrap();
            ok &= byte(&le, i) == v;
            ok &= byte(&be, 8 * N - 1 - i) == v;
            i += 1;
        }
        assert!(ok);
    }
}
proof!(to_hex_256, 140, to_hex::<4>());
proof!(t_to_hex_512, 140, to_hex::<8>());
proof!(from_hex_64, 20, from_hex::<1, 16>());
proof!(from_hex_64_len, 20, { from_hex::<1, 15>(); from_hex::<1, 14>(); from_hex::<1, 18>(); from_hex::<1, 0>(); });
proof!(t_from_hex_128, 34, from_hex::<2, 32>());
proof!(t_from_hex_256, 66, from_hex::<4, 64>());
proof!(n_from_hex_256, 66, { from_hex::<4, 64>(); from_hex::<4, 62>(); from_hex::<4, 66>(); });
proof!(n_from_hex_512, 66, from_hex::<8, 128>());

fn widen<const N: usize, const M: usize>() {
    // N < M
    let (w, x) = any::<N>();
    let mut big = [0u64; M];
    let mut i = 0;
    while i < N { big[i] = w[i]; i += 1; }
    assert!(same(Uint::<M>::from_uint(x), &big));
    assert!(same(x.to_uint::<M>(), &big));
    assert!(same(Uint::<M>::from_uint_lossy(x), &big));
    assert!(same(x.to_uint_lossy::<M>(), &big));
}
fn narrow<const N: usize, const M: usize>() {
    // N >= M: the low words are kept
    let (w, x) = any::<N>();
    let mut low = [0u64; M];
    let mut i = 0;
    while i < M { low[i] = w[i]; i += 1; }
    assert!(same(Uint::<M>::from_uint_lossy(x), &low));
    assert!(same(x.to_uint_lossy::<M>(), &low));
}
proof!(widen_4_8, 20, widen::<4, 8>());
proof!(widen_4_5, 20, widen::<4, 5>());
proof!(widen_1_2, 20, widen::<1, 2>());
proof!(widen_same, 20, { let (w, x) = any::<4>(); assert!(same(x.to_uint::<4>(), &w)); });
proof!(narrow_8_4, 20, narrow::<8, 4>());
proof!(narrow_4_4, 20, narrow::<4, 4>());
proof!(narrow_5_4, 20, narrow::<5, 4>());
fn primitives<const N: usize>() {
    let v = nd::bytes::<16>();
    let x = u128::from_le_bytes(v);
    let mut w = [0u64; N];
    w[0] = x as u8 as u64;
    assert!(same(Uint::<N>::from(x as u8), &w));
    w[0] = x as u16 as u64;
    assert!(same(Uint::<N>::from(x as u16), &w));
    w[0] = x as u32 as u64;
    assert!(same(Uint::<N>::from(x as u32), &w));
    w[0] = x as u64;
    assert!(same(Uint::<N>::from(x as u64), &w));
    w[1] = (x >> 64) as u64;
    assert!(same(Uint::<N>::from(x), &w));
}
proof!(primitives_256, 20, primitives::<4>());
proof!(primitives_512, 20, primitives::<8>());
fn from_vec<const N: usize, const K: usize>() {
    let w = nd::words::<K>();
    let r = Uint::<N>::try_from(w.to_vec());
    if N != K {
        assert!(r.is_err());
        forget(r);
    } else {
        let v = words(r.ok().unwrap());
        let mut i = 0;
        while i < N { assert!(v[i] == w[i]); i += 1; }
    }
}
proof!(from_vec_256, 20, { from_vec::<4, 4>(); from_vec::<4, 3>(); from_vec::<4, 5>(); from_vec::<4, 0>(); });

/// a double SHA-256 hash is read little-endian
fn from_hash() {
    let b = nd::bytes::<32>();
    let h = stacks_core::crypto::sha256::DoubleSha256Hasher::from(b);
    let x = Uint::<4>::from(h);
    let mut w = [0u64; 4];
    let mut i = 0;
    while i < 4 {
        let mut k = 8;
        while k > 0 { k -= 1; w[i] = w[i] << 8 | b[8 * i + k] as u64; }
        i += 1;
    }
    assert!(same(x, &w));
}
proof!(from_hash_256, 40, from_hash());
fn text<const N: usize>() {
    let (w, x) = any::<N>();
    let mut s = String::from("0x");
    for k in w.iter().rev() { s += &format!("{k:016x}"); }
    assert!(format!("{x}") == s && format!("{x:?}") == s);
}
proof!(n_text_256, 40, text::<4>());
proof!(n_text_512, 40, text::<8>());
proof!(n_checked_panics, 40, {
    let (w, x) = any::<8>();
    assert!(panics(move || { let _ = x.to_uint::<4>(); }));
    assert!(panics(move || { let _ = Uint::<4>::from_uint(x); }));
    let y = Uint::<8>::from_u64_array(w);
    assert!(same(y.to_uint::<8>(), &w));
});
