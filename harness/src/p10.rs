use core::mem::forget;

use bdk::bitcoin::{Network, Transaction, TxOut};
use sbtc_core::operations::op_return::deposit::{Deposit, DepositOutputData};
use stacks_core::codec::Codec;

use crate::net::*;
use crate::util::*;

/// The deposit data at the start of `b`: the length, 0 if malformed.
fn spec_data(b: &[u8]) -> usize {
    if b.len() < 3 || !is_magic(b[0], b[1]) || b[2] != b'<' {
        return 0;
    }
    let p = spec_principal(&b[3..]);
    if p == 0 { 0 } else { 3 + p }
}
fn steer(b: &mut [u8]) {
    if nd::steer() {
        let m = magic(network());
        b[0] = m[0];
        b[1] = m[1];
        b[2] = b'<';
        steer_principal(&mut b[3..]);
    }
}
/// Data bytes: a principal of `kind` (5, 6, other: any), name length `l`,
/// `have` bytes in all.
fn data(kind: u8, l: usize, have: usize) -> [u8; 80] {
    let mut b = nd::bytes::<80>();
    steer(&mut b);
    if kind == 5 || kind == 6 {
        b[3] = kind;
    }
    if kind == 6 {
        b[25] = l as u8;
    }
    nd::assume(kind != 0 || b[3] != 6);
    let _ = have;
    b
}

/// ensures of the data output codec: Ok exactly on well-formed data, consuming
/// exactly it; writing the value back gives the bytes read
fn codec(kind: u8, l: usize, have: usize) {
    let b = data(kind, l, have);
    let b = &b[..have];
    let mut rd = b;
    let r = DepositOutputData::codec_deserialize(&mut rd);
    let want = spec_data(b);
    match &r {
        Ok(d) => {
            let len = if kind == 6 { 26 + l } else { 25 };
            assert!(want == len && have - rd.len() == len);
            let out = d.serialize_to_vec();
            assert!(bytes_eq(&out, &b[..len]));
            forget(out);
        }
        Err(_) => assert!(want == 0),
    }
    forget(r);
}
proof!(codec_standard, 30, codec(5, 0, 25));
proof!(codec_standard_extra, 30, codec(5, 0, 27));
proof!(codec_other_principal, 31, codec(0, 0, 28));
proof!(codec_contract_1, 30, codec(6, 1, 27));
proof!(codec_contract_40, 69, codec(6, 40, 66));
proof!(t_codec_contract_2, 32, codec(6, 2, 29));
proof!(t_codec_contract_11, 41, codec(6, 11, 38));
proof!(t_codec_contract_12, 42, codec(6, 12, 39));
proof!(t_codec_contract_39, 70, codec(6, 39, 67));
proof!(codec_contract_0, 31, codec(6, 0, 28));
proof!(codec_contract_41, 70, codec(6, 41, 67));
proof!(codec_short, 38, {
    codec(5, 0, 24);
    codec(6, 0, 25);
    codec(6, 2, 27);
    codec(0, 0, 0);
    codec(0, 0, 1);
    codec(0, 0, 2);
    codec(0, 0, 3);
});

/// ensures of parsing: a deposit exactly when the first output carries
/// well-formed data with this network's magic bytes and the second output pays
/// an address; amount, recipient and wallet are then those of the outputs
fn check(network: Network, push: Option<&[u8]>, second: Option<(&[u8], Option<Kind>, u64)>, tx: Transaction) {
    let r = Deposit::parse(network, tx);
    let m = magic(network);
    let want = match push {
        Some(b) => {
            let w = spec_data(b);
            if w > 0 && b[0] == m[0] && b[1] == m[1] { w } else { 0 }
        }
        None => 0,
    };
    match &r {
        Ok(d) => {
            assert!(want > 0);
            let (s, kind, value) = second.unwrap();
            is_principal(&d.recipient, &push.unwrap()[3..want]);
            assert!(d.amount == value);
            assert!(d.network == network);
            is_address(&d.sbtc_wallet_address, kind.unwrap(), s, network);
        }
        Err(_) => assert!(want == 0 || !matches!(second, Some((_, Some(_), _)))),
    }
    forget(r);
}
fn parse(kind: u8, l: usize, have: usize, wallet: Kind) {
    let n = network();
    let b = data(kind, l, have);
    let mut b = b;
    if nd::steer() {
        let m = magic(n);
        b[0] = m[0];
        b[1] = m[1];
    }
    let b = &b[..have];
    let w = script(wallet);
    let value = nd::u64();
    let tx = transaction(vec![output(op_return(b), 0), output(w.clone(), value), output(script(Kind::P2pkh), nd::u64())]);
    check(n, Some(b), Some((&w, Some(wallet), value)), tx);
    forget(w);
}
proof!(parse_standard, 37, parse(5, 0, 25, Kind::P2tr));
proof!(parse_standard_p2wpkh, 37, parse(5, 0, 25, Kind::P2wpkh));
proof!(t_parse_standard_p2pkh, 37, parse(5, 0, 25, Kind::P2pkh));
proof!(t_parse_standard_p2sh, 37, parse(5, 0, 25, Kind::P2sh));
proof!(t_parse_standard_p2wsh, 37, parse(5, 0, 28, Kind::P2wsh));
proof!(parse_contract_1, 37, parse(6, 1, 27, Kind::P2tr));
proof!(parse_contract_40, 69, parse(6, 40, 66, Kind::P2tr));
proof!(t_parse_contract_12, 41, parse(6, 12, 38, Kind::P2wpkh));
proof!(t_parse_contract_39, 68, parse(6, 39, 65, Kind::P2wpkh));
proof!(t_parse_contract_over, 70, parse(6, 41, 67, Kind::P2tr));
proof!(t_parse_pushdata1, 81, parse(6, 40, 78, Kind::P2tr));

/// outputs that are missing or are not what a deposit needs
fn shape(outs: Vec<TxOut>, n: Network, push: Option<&[u8]>, second: Option<(&[u8], Option<Kind>, u64)>) {
    check(n, push, second, transaction(outs));
}
proof!(parse_no_outputs, 38, shape(Vec::with_capacity(1), network(), None, None));
proof!(parse_one_output, 38, {
    let n = network();
    let b = data(5, 0, 25);
    shape(vec![output(op_return(&b[..25]), 0)], n, Some(&b[..25]), None);
});
proof!(parse_second_not_address, 38, {
    let n = network();
    let b = data(5, 0, 25);
    let mut w = nd::bytes::<4>();
    w[0] = 0x6a;
    shape(vec![output(op_return(&b[..25]), 0), output(w.to_vec(), nd::u64())], n, Some(&b[..25]), Some((&w, None, 0)));
});
// first output: any opcode but OP_RETURN, then the data
proof!(parse_no_op_return, 38, {
    let n = network();
    let b = data(5, 0, 25);
    let mut s = op_return(&b[..25]);
    s[0] = nd::u8();
    nd::assume(s[0] >= 0x4f && s[0] != 0x6a);
    let w = script(Kind::P2tr);
    shape(vec![output(s, 0), output(w.clone(), nd::u64())], n, None, Some((&w, Some(Kind::P2tr), 0)));
    forget(w);
});
// the data output must come first
proof!(parse_swapped, 38, {
    let n = network();
    let b = data(5, 0, 25);
    let w = script(Kind::P2pkh);
    shape(vec![output(w.clone(), nd::u64()), output(op_return(&b[..25]), 0)], n, None, Some((&w, None, 0)));
    forget(w);
});
// native only: any mixture of outputs
proof!(n_parse_any, 2, {
    let n = network();
    let kinds = [5u8, 6, 0];
    let kind = kinds[nd::below(3)];
    let l = nd::below(44);
    let have = if nd::boolean() { if kind == 6 { 26 + l } else { 25 } } else { nd::below(75) };
    let b0 = nd::bytes::<80>();
    let mut b = b0;
    steer(&mut b);
    if kind != 0 { b[3] = kind; }
    if kind == 6 { b[25] = l as u8; }
    let b = &b[..have];
    let wallet = KINDS[nd::below(5)];
    let w = script(wallet);
    let value = nd::u64();
    let tx = transaction(vec![output(op_return(b), nd::u64()), output(w.clone(), value)]);
    check(n, Some(b), Some((&w, Some(wallet), value)), tx);
});
