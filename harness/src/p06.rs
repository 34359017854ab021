use core::mem::forget;

use stacks_core::address::StacksAddress;
use stacks_core::codec::Codec;
use stacks_core::contract_name::ContractName;
use stacks_core::utils::{PrincipalData, StandardPrincipalData};

use crate::util::*;

/// ensures for PrincipalData::codec_deserialize over the bytes `b`:
/// Ok exactly on a well-formed prefix, with the value and the number of bytes
/// consumed that the layout prescribes. (Round trips in both directions are
/// this contract composed with the encoder's.)
fn decode(b: &[u8]) {
    let mut rd = b;
    let r = PrincipalData::codec_deserialize(&mut rd);
    let used = b.len() - rd.len();
    let want = spec_principal(b);
    match &r {
        Ok(p) => {
            assert!(want > 0 && used == want);
            is_principal(p, b);
        }
        Err(_) => assert!(want == 0),
    }
    forget(r);
}

/// Contract principal wire bytes whose length byte is `l`, `extra` bytes after.
fn decode_contract(l: usize, have: usize) {
    let mut b = nd::bytes::<70>();
    b[0] = 6;
    b[22] = l as u8;
    if nd::steer() {
        b[1] = VERSIONS[b[1] as usize % 4];
        b[23] = b"aZ"[b[23] as usize % 2];
        for i in 24..70 {
            b[i] = b"aZ09-_b"[b[i] as usize % 7];
        }
    }
    decode(&b[..have]);
}
proof!(decode_contract_00, 75, decode_contract(0, 24));
proof!(decode_contract_01, 75, decode_contract(1, 25));
proof!(decode_contract_02, 75, decode_contract(2, 26));
proof!(t_decode_contract_03, 75, decode_contract(3, 27));
proof!(t_decode_contract_04, 75, decode_contract(4, 28));
proof!(t_decode_contract_05, 75, decode_contract(5, 29));
proof!(t_decode_contract_06, 75, decode_contract(6, 30));
proof!(t_decode_contract_07, 75, decode_contract(7, 31));
proof!(t_decode_contract_08, 75, decode_contract(8, 32));
proof!(t_decode_contract_09, 75, decode_contract(9, 33));
proof!(t_decode_contract_10, 75, decode_contract(10, 34));
proof!(decode_contract_11, 75, decode_contract(11, 35));
proof!(decode_contract_12, 75, decode_contract(12, 36));
proof!(t_decode_contract_13, 75, decode_contract(13, 37));
proof!(t_decode_contract_14, 75, decode_contract(14, 38));
proof!(t_decode_contract_15, 75, decode_contract(15, 39));
proof!(t_decode_contract_16, 75, decode_contract(16, 40));
proof!(t_decode_contract_17, 75, decode_contract(17, 41));
proof!(t_decode_contract_18, 75, decode_contract(18, 42));
proof!(t_decode_contract_19, 75, decode_contract(19, 43));
proof!(t_decode_contract_20, 75, decode_contract(20, 44));
proof!(t_decode_contract_21, 75, decode_contract(21, 45));
proof!(t_decode_contract_22, 75, decode_contract(22, 46));
proof!(t_decode_contract_23, 75, decode_contract(23, 47));
proof!(decode_contract_24, 75, decode_contract(24, 48));
proof!(t_decode_contract_25, 75, decode_contract(25, 49));
proof!(t_decode_contract_26, 75, decode_contract(26, 50));
proof!(t_decode_contract_27, 75, decode_contract(27, 51));
proof!(t_decode_contract_28, 75, decode_contract(28, 52));
proof!(t_decode_contract_29, 75, decode_contract(29, 53));
proof!(t_decode_contract_30, 75, decode_contract(30, 54));
proof!(t_decode_contract_31, 75, decode_contract(31, 55));
proof!(t_decode_contract_32, 75, decode_contract(32, 56));
proof!(decode_contract_33, 75, decode_contract(33, 57));
proof!(t_decode_contract_34, 75, decode_contract(34, 58));
proof!(t_decode_contract_35, 75, decode_contract(35, 59));
proof!(t_decode_contract_36, 75, decode_contract(36, 60));
proof!(t_decode_contract_37, 75, decode_contract(37, 61));
proof!(t_decode_contract_38, 75, decode_contract(38, 62));
proof!(decode_contract_39, 75, decode_contract(39, 63));
proof!(decode_contract_40, 75, decode_contract(40, 64));
// longer than the grammar allows, bytes present
proof!(decode_contract_over, 75, decode_contract(41, 65));
proof!(t_decode_contract_over, 75, decode_contract(46, 70));
// fewer bytes than announced
proof!(decode_contract_short, 75, {
    decode_contract(1, 23);
    decode_contract(40, 62);
});
proof!(t_decode_contract_short_255, 75, decode_contract(255, 70));
proof!(t_decode_contract_short, 75, {
    decode_contract(2, 24);
    decode_contract(40, 23);
    decode_contract(128, 70);
});
// every other first byte, and every truncation of the fixed part
proof!(decode_head, 75, {
    let b = nd::bytes::<24>();
    nd::assume(b[0] != 6);
    decode(&b);
});
fn truncated(lens: &[usize]) {
    let b = nd::bytes::<23>();
    let mut i = 0;
    while i < lens.len() {
        decode(&b[..lens[i]]);
        i += 1;
    }
}
proof!(decode_truncated, 75, truncated(&[0, 1, 2, 21, 22]));
proof!(t_decode_truncated, 75, truncated(&[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]));

// StacksAddress on its own
fn address_decode_at(lens: &[usize]) {
    let b = nd::bytes::<23>();
    let mut i = 0;
    while i < lens.len() {
        let n = lens[i];
        let mut rd = &b[..n];
        let r = StacksAddress::codec_deserialize(&mut rd);
        match &r {
            Ok(a) => {
                assert!(n >= 21 && valid_version(b[0]));
                assert!(n - rd.len() == 21);
                assert!(a.version() as u8 == b[0]);
                assert!(bytes_eq(a.hash().as_ref(), &b[1..21]));
            }
            Err(_) => assert!(n < 21 || !valid_version(b[0])),
        }
        forget(r);
        i += 1;
    }
}
proof!(address_decode, 75, address_decode_at(&[0, 1, 20, 21, 23]));
proof!(t_address_decode, 75, address_decode_at(&[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 22]));
proof!(address_encode, 75, {
    let (v, h, a) = address();
    let out = a.serialize_to_vec();
    assert!(out.len() == 21 && out[0] == v && bytes_eq(&out[1..], &h));
    forget(out);
    let s = StandardPrincipalData::from(a.clone());
    assert!(s.0 as u8 == v && s.1 == a);
    let out = s.serialize_to_vec();
    assert!(out.len() == 21 && out[0] == v && bytes_eq(&out[1..], &h));
    forget(out);
});
proof!(standard_decode, 75, {
    let b = nd::bytes::<22>();
    let mut rd = &b[..];
    let r = StandardPrincipalData::codec_deserialize(&mut rd);
    match &r {
        Ok(StandardPrincipalData(v, a)) => {
            assert!(valid_version(b[0]) && rd.len() == 1);
            assert!(*v as u8 == b[0] && a.version() as u8 == b[0]);
            assert!(bytes_eq(a.hash().as_ref(), &b[1..21]));
        }
        Err(_) => assert!(!valid_version(b[0])),
    }
    forget(r);
});

// encoders against the documented layout, then back
proof!(encode_standard, 75, {
    let (v, h, a) = address();
    let p = PrincipalData::from(a);
    let out = p.serialize_to_vec();
    assert!(out.len() == 22 && out[0] == 5 && out[1] == v);
    assert!(bytes_eq(&out[2..], &h));
    forget((out, p));
});
fn encode_contract<const N: usize>() {
    let (v, h, a) = address();
    let (nb, n) = name::<N>();
    let p = PrincipalData::Contract(StandardPrincipalData::from(a), n);
    let out = p.serialize_to_vec();
    assert!(out.len() == 23 + N && out[0] == 6 && out[1] == v);
    assert!(bytes_eq(&out[2..22], &h));
    assert!(out[22] as usize == N && bytes_eq(&out[23..], &nb));
    forget((out, p));
}
proof!(encode_contract_1, 75, encode_contract::<1>());
proof!(encode_contract_2, 75, encode_contract::<2>());
proof!(encode_contract_11, 75, encode_contract::<11>());
proof!(encode_contract_39, 75, encode_contract::<39>());
proof!(encode_contract_40, 75, encode_contract::<40>());
// a contract name on its own
fn name_codec(l: usize) {
    let mut b = nd::bytes::<48>();
    b[0] = l as u8;
    let n = if l + 1 < 48 { l + 2 } else { 48 };
    let mut rd = &b[..n];
    let r = ContractName::codec_deserialize(&mut rd);
    match &r {
        Ok(c) => {
            assert!(l + 1 <= n && n - rd.len() == l + 1);
            let s: &str = c.as_ref();
            assert!(spec_name(s.as_bytes()) && bytes_eq(s.as_bytes(), &b[1..1 + l]));
        }
        Err(_) => assert!(l + 1 > n || !spec_name(&b[1..1 + l])),
    }
    forget(r);
}
proof!(name_codec_small, 75, { name_codec(0); name_codec(1); name_codec(11); });
proof!(name_codec_large, 75, { name_codec(40); name_codec(41); name_codec(200); });
