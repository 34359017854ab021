//! c32check texts of addresses and principals.
use core::mem::forget;

use stacks_core::address::{AddressVersion, StacksAddress};
use stacks_core::c32::{decode_address, encode_address, version_check_decode, version_check_encode, C32Error};
use stacks_core::crypto::hash160::Hash160Hasher;
use stacks_core::utils::{PrincipalData, StandardPrincipalData};

use crate::p03::{spec_decode, spec_encode, ALPHABET};
use crate::util::*;

/// version bytes are exactly 22, 20, 26 and 21
proof!(versions, 12, {
    let b = nd::u8();
    match AddressVersion::try_from(b) {
        Ok(v) => assert!(valid_version(b) && v as u8 == b),
        Err(e) => { assert!(!valid_version(b)); forget(e) }
    }
});

fn chk(v: u8, d: &[u8]) -> [u8; 4] {
    let mut b = vec![v];
    b.extend_from_slice(d);
    let h = sha256(&sha256(&b));
    [h[0], h[1], h[2], h[3]]
}
/// the text of version and data, without the leading S
pub fn ref_text(v: u8, d: &[u8]) -> String {
    let mut b = d.to_vec();
    b.extend_from_slice(&chk(v, d));
    let (o, n) = spec_encode(&b);
    let mut s = String::new();
    s.push(ALPHABET[v as usize] as char);
    for i in 0..n { s.push(o[i] as char); }
    s
}
pub fn ref_decode(s: &[u8]) -> Option<(u8, Vec<u8>)> {
    if s.is_empty() { return None }
    let (v, n) = spec_decode(&s[..1])?;
    assert!(n == 1);
    let (r, n) = spec_decode(&s[1..])?;
    if n < 4 || !valid_version(v[0]) { return None }
    let d = r[..n - 4].to_vec();
    if r[n - 4..n] != chk(v[0], &d) { return None }
    Some((v[0], d))
}
fn data(n: usize) -> Vec<u8> {
    let mut d = nd::bytes::<48>()[..n].to_vec();
    // leading zeros are the delicate case
    let z = nd::below(4);
    if z < 3 { for i in 0..z.min(n) { d[i] = 0; } }
    d
}
fn check() {
    let v = version();
    let d = data(nd::below(49));
    let t = ref_text(v as u8, &d);
    let c = version_check_encode(v, &d);
    assert!(c == t);
    let a = encode_address(v, &d);
    assert!(a == "S".to_string() + &t);
    assert!(version_check_decode(&c).unwrap() == (v, d.clone()));
    assert!(decode_address(&a).unwrap() == (v, d));
}
/// a valid text with something done to it
fn mangled() -> Vec<u8> {
    let v = version();
    let n = if nd::boolean() { 20 } else { nd::below(40) };
    let d = data(n);
    let mut s = encode_address(v, &d).into_bytes();
    let i = nd::below(s.len());
    match nd::below(10) {
        8 | 9 => {
            // another checksum: bytes moved, changed, kept
            let mut c = chk(v as u8, &d);
            c.rotate_left(nd::below(4));
            let x = nd::bytes::<4>();
            let keep = nd::u8();
            for k in 0..4 { if keep >> k & 1 == 0 { c[k] ^= x[k] } }
            let mut b = d.clone();
            b.extend_from_slice(&c);
            let (o, n) = spec_encode(&b);
            s.truncate(2);
            s.extend_from_slice(&o[..n]);
        }
        0 => s[i] = ALPHABET[nd::below(32)],
        1 => s[i] = nd::u8() & 127,
        2 => { s.remove(i); }
        3 => s.insert(i, ALPHABET[nd::below(32)]),
        4 => for c in s.iter_mut().skip(1) { *c = c.to_ascii_lowercase() },
        5 => for c in s.iter_mut().skip(1) { if *c == b'0' { *c = if nd::boolean() { b'O' } else { b'o' } } else if *c == b'1' { *c = b"lLiI"[nd::below(4)] } },
        6 => s.truncate(i),
        _ => s[1] = ALPHABET[nd::below(32)],
    }
    s
}
fn bad() {
    let s = mangled();
    let t = String::from_utf8(s.clone()).unwrap();
    if s.len() > 100 { return }
    let want = if s.len() > 5 && s[0] == b'S' { ref_decode(&s[1..]) } else { None };
    let got = decode_address(&t).ok().map(|(v, d)| (v as u8, d));
    assert!(got == want, "decode_address {t}: {got:?}, expected {want:?}");
    let got = version_check_decode(&t).ok().map(|(v, d)| (v as u8, d));
    assert!(got == ref_decode(&s), "version_check_decode {t}");
}
fn text() {
    let (v, h, a) = address();
    let t = format!("S{}", ref_text(v, &h));
    assert!(a.to_string() == t && String::from(a.clone()) == t);
    assert!(StacksAddress::try_from(t.as_str()).unwrap() == a);
    let s = String::from_utf8(mangled()).unwrap();
    let want = if s.len() > 5 && s.starts_with('S') { ref_decode(s[1..].as_bytes()) } else { None };
    match (StacksAddress::try_from(s.as_str()), want) {
        (Ok(a), Some((v, d))) => assert!(a.version() as u8 == v && a.hash().as_ref() == &d[..], "{s}"),
        (Err(_), w) => assert!(w.map_or(true, |(_, d)| d.len() != 20), "{s} refused"),
        (Ok(_), None) => panic!("{s} accepted"),
    }
}
fn principal_text() {
    let a = if nd::boolean() {
        let (v, h, _) = address();
        format!("S{}", ref_text(v, &h)).into_bytes()
    } else { mangled() };
    let mut s = a.clone();
    let parts = nd::below(4);
    let mut names: Vec<Vec<u8>> = vec![];
    for _ in 0..parts.min(2) {
        let n = [0, 1, 2, 5, 11, 39, 40, 41][nd::below(8)];
        let mut b = nd::bytes::<41>()[..n].to_vec();
        let ok = nd::below(4);
        for (i, c) in b.iter_mut().enumerate() {
            *c = if ok == 0 { *c & 127 } else if i == 0 { b"azAZ"[*c as usize % 4] } else { b"azAZ09-_"[*c as usize % 8] };
            if *c == b'.' { *c = b'a' }
        }
        s.push(b'.');
        s.extend_from_slice(&b);
        names.push(b);
    }
    let addr_ok = |a: &[u8]| if a.len() > 5 && a[0] == b'S' { ref_decode(&a[1..]).filter(|(_, d)| d.len() == 20) } else { None };
    // a mangled address may itself contain a dot
    let pieces: Vec<&[u8]> = s.split(|c| *c == b'.').collect();
    let want = match pieces.len() {
        1 => addr_ok(pieces[0]).map(|a| (a, None)),
        2 if spec_name(pieces[1]) => addr_ok(pieces[0]).map(|a| (a, Some(pieces[1].to_vec()))),
        _ => None,
    };
    let t = String::from_utf8(s.clone()).unwrap();
    match (PrincipalData::try_from(t.clone()), want) {
        (Ok(p), Some(((v, d), name))) => {
            let mut b = vec![if name.is_some() { 6 } else { 5 }, v];
            b.extend_from_slice(&d);
            if let Some(n) = name { b.push(n.len() as u8); b.extend_from_slice(&n); }
            is_principal(&p, &b);
        }
        (Err(_), None) => {}
        (Ok(_), None) => panic!("{t} accepted"),
        (Err(_), Some(_)) => panic!("{t} refused"),
    }
}
proof!(n_check, 12, check());
proof!(n_bad, 12, bad());
proof!(n_text, 12, text());
proof!(n_principal, 12, principal_text());
/// the whole byte map, through decode: the contract assumed of it by the
/// deductive proof of c32.rs
proof!(n_map, 12, {
    let mut c = 0;
    while c < 128 {
        let s = [c];
        let r = stacks_core::c32::decode(core::str::from_utf8(&s).unwrap()).ok();
        let g = crate::p03::digit(c);
        assert!(r == if g < 32 { Some(vec![g]) } else { None }, "value of character {c}");
        c += 1;
    }
});

// StacksAddress from text and to text, over the contracts of the c32check
// functions
#[cfg(kani)]
static mut CALLED: (u8, [u8; 20], usize) = (0, [0; 20], 0);
#[cfg(kani)]
fn decode_address_contract(_a: impl AsRef<str>) -> Result<(AddressVersion, Vec<u8>), C32Error> {
    if nd::boolean() { return Err(C32Error::InvalidC32) }
    let v = version();
    let n = unsafe { CALLED.2 };
    let b = nd::bytes::<20>();
    unsafe { CALLED = (v as u8, b, n) };
    let mut d = b.to_vec();
    if n < 20 { d.truncate(n) }
    if n > 20 { d.push(0) }
    Ok((v, d))
}
#[cfg(kani)]
fn try_from(n: usize) {
    unsafe { CALLED.2 = n };
    match StacksAddress::try_from("S") {
        Ok(a) => {
            assert!(n == 20);
            assert!(a.version() as u8 == unsafe { CALLED.0 });
            assert!(bytes_eq(a.hash().as_ref(), unsafe { &CALLED.1 }));
        }
        Err(e) => { assert!(n != 20 || unsafe { CALLED.0 } == 0); forget(e) }
    }
    nd::reached();
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(24)]
#[kani::stub(stacks_core::c32::decode_address, decode_address_contract)]
#[kani::stub(std::fmt::format, nd::stubs::format)]
fn m_try_from_20() { try_from(20) }
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(24)]
#[kani::stub(stacks_core::c32::decode_address, decode_address_contract)]
#[kani::stub(std::fmt::format, nd::stubs::format)]
fn m_try_from_19() { try_from(19) }
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(24)]
#[kani::stub(stacks_core::c32::decode_address, decode_address_contract)]
#[kani::stub(std::fmt::format, nd::stubs::format)]
fn m_try_from_21() { try_from(21) }
#[cfg(kani)]
fn encode_address_contract(v: AddressVersion, d: impl AsRef<[u8]>) -> String {
    let d = d.as_ref();
    assert!(d.len() == 20);
    let mut b = [0u8; 20];
    b.copy_from_slice(d);
    unsafe { CALLED = (v as u8, b, 1) };
    String::new()
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(24)]
#[kani::stub(stacks_core::c32::encode_address, encode_address_contract)]
fn m_string() {
    let (v, h, a) = address();
    let s = String::from(a);
    assert!(unsafe { CALLED.0 == v && CALLED.2 == 1 && bytes_eq(&CALLED.1, &h) });
    forget(s);
    nd::reached();
}
