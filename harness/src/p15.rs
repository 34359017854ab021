use core::mem::forget;

use bdk::bitcoin::Amount;
use sbtc_core::operations::commit_reveal::deposit::DepositData;
use sbtc_core::operations::commit_reveal::withdrawal_request::WithdrawalData;
use sbtc_core::operations::Opcode;
use stacks_core::codec::Codec;

use crate::net::*;
use crate::util::secp::RecoverableSignature;
use crate::util::*;

fn be(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < 8 {
        v = v << 8 | b[i] as u64;
        i += 1;
    }
    v
}
// primitive codecs
proof!(amount, 12, {
    let b = nd::bytes::<9>();
    let mut rd = &b[..];
    let a = Amount::codec_deserialize(&mut rd).ok().unwrap();
    assert!(rd.len() == 1 && a.to_sat() == be(&b));
    let out = a.serialize_to_vec();
    assert!(bytes_eq(&out, &b[..8]));
    let mut short = &b[..7];
    let r = Amount::codec_deserialize(&mut short);
    assert!(r.is_err());
    forget((out, r));
});
proof!(integer, 12, {
    let b = nd::bytes::<9>();
    let mut rd = &b[..];
    let a = u64::codec_deserialize(&mut rd).ok().unwrap();
    assert!(rd.len() == 1 && a == be(&b));
    let out = a.serialize_to_vec();
    assert!(bytes_eq(&out, &b[..8]));
    let mut short = &b[..7];
    let r = u64::codec_deserialize(&mut short);
    assert!(r.is_err());
    forget((out, r));
});
proof!(opcode, 12, {
    let b = nd::bytes::<2>();
    let mut rd = &b[..];
    let r = Opcode::codec_deserialize(&mut rd);
    let known = (b[0] == b'<') | (b[0] == b'>') | (b[0] == b'!') | (b[0] == b'H');
    match &r {
        Ok(o) => {
            assert!(known && rd.len() == 1 && *o as u8 == b[0]);
            assert!(match o {
                Opcode::Deposit => b[0] == b'<',
                Opcode::WithdrawalRequest => b[0] == b'>',
                Opcode::WithdrawalFulfillment => b[0] == b'!',
                Opcode::WalletHandoff => b[0] == b'H',
            });
            let out = o.serialize_to_vec();
            assert!(out.len() == 1 && out[0] == b[0]);
            forget(out);
        }
        Err(_) => assert!(!known),
    }
    let mut none = &b[..0];
    let e = Opcode::codec_deserialize(&mut none);
    assert!(e.is_err());
    forget((r, e));
});
proof!(script_codec, 14, {
    use bdk::bitcoin::Script;
    let b = nd::bytes::<9>();
    let mut rd = &b[..];
    let s = Script::codec_deserialize(&mut rd).ok().unwrap();
    assert!(rd.len() == 0 && bytes_eq(s.as_bytes(), &b));
    let out = s.serialize_to_vec();
    assert!(bytes_eq(&out, &b));
    forget((out, s));
});
/// 65 bytes: recovery id, then both scalars
fn sig_ok(b: &[u8]) -> bool {
    b[0] < 4 && secp::sig_ok(&b[1..65])
}
fn steer_sig(b: &mut [u8]) {
    b[0] &= 3;
    b[1] &= 0x7f;
    b[33] &= 0x7f;
}
proof_secp!(signature, 70, {
    let mut b = nd::bytes::<66>();
    if nd::steer() {
        steer_sig(&mut b);
    }
    let mut rd = &b[..];
    let r = RecoverableSignature::codec_deserialize(&mut rd);
    match &r {
        Ok(s) => {
            assert!(sig_ok(&b) && rd.len() == 1);
            let out = s.serialize_to_vec();
            assert!(bytes_eq(&out, &b[..65]));
            forget(out);
        }
        Err(_) => assert!(!sig_ok(&b)),
    }
    let mut short = &b[..64];
    let e = RecoverableSignature::codec_deserialize(&mut short);
    assert!(e.is_err());
    forget((r, e));
});
proof_secp!(signature_encode, 70, {
    let (b, s) = secp::signature();
    let out = s.serialize_to_vec();
    assert!(bytes_eq(&out, &b));
    forget(out);
});

// deposit: '<', principal, fee
fn deposit_encode<const N: usize>() {
    let (p, principal) = principal::<N>();
    let fee = nd::u64();
    let d = DepositData { principal, reveal_fee: Amount::from_sat(fee) };
    let out = d.serialize_to_vec();
    assert!(out.len() == 9 + p.len() && out[0] == b'<');
    assert!(bytes_eq(&out[1..1 + p.len()], &p));
    assert!(be(&out[1 + p.len()..]) == fee);
    forget((out, d, p));
}
proof!(deposit_encode_standard, 26, deposit_encode::<0>());
proof!(deposit_encode_contract_1, 30, deposit_encode::<1>());
proof!(deposit_encode_contract_40, 66, deposit_encode::<40>());
proof!(t_deposit_encode_contract_11, 40, deposit_encode::<11>());
fn deposit_decode(kind: u8, l: usize, have: usize) {
    let mut b = nd::bytes::<76>();
    if nd::steer() {
        b[0] = b'<';
        steer_principal(&mut b[1..]);
    }
    if kind != 0 {
        b[1] = kind;
    }
    if kind == 6 {
        b[23] = l as u8;
    }
    nd::assume(kind != 0 || b[1] != 6);
    let b = &b[..have];
    let mut rd = b;
    let r = DepositData::codec_deserialize(&mut rd);
    let p = if have > 0 && b[0] == b'<' { spec_principal(&b[1..]) } else { 0 };
    let ok = p > 0 && have >= 9 + p;
    match &r {
        Ok(d) => {
            assert!(ok && have - rd.len() == 9 + p);
            is_principal(&d.principal, &b[1..1 + p]);
            assert!(d.reveal_fee.to_sat() == be(&b[1 + p..]));
        }
        Err(_) => assert!(!ok),
    }
    forget(r);
}
proof!(deposit_decode_standard, 34, deposit_decode(5, 0, 31));
proof!(deposit_decode_other, 34, deposit_decode(0, 0, 32));
proof!(deposit_decode_contract_1, 36, deposit_decode(6, 1, 33));
proof!(deposit_decode_contract_40, 75, deposit_decode(6, 40, 72));
proof!(t_deposit_decode_contract_11, 45, deposit_decode(6, 11, 44));
proof!(deposit_decode_short, 36, {
    deposit_decode(5, 0, 30);
    deposit_decode(6, 2, 33);
    deposit_decode(0, 0, 0);
    deposit_decode(0, 0, 1);
});

// withdrawal: '>', amount, signature, fee
proof_secp!(withdrawal_encode, 85, {
    let (s, signature) = secp::signature();
    let (amount, fee) = (nd::u64(), nd::u64());
    let d = WithdrawalData { amount: Amount::from_sat(amount), signature, reveal_fee: Amount::from_sat(fee) };
    let out = d.serialize_to_vec();
    assert!(out.len() == 82 && out[0] == b'>');
    assert!(be(&out[1..9]) == amount && bytes_eq(&out[9..74], &s) && be(&out[74..]) == fee);
    forget(out);
});
fn withdrawal_decode(have: usize) {
    let mut b = nd::bytes::<84>();
    if nd::steer() {
        b[0] = b'>';
        steer_sig(&mut b[9..]);
    }
    let b = &b[..have];
    let mut rd = b;
    let r = WithdrawalData::codec_deserialize(&mut rd);
    let ok = have >= 82 && b[0] == b'>' && sig_ok(&b[9..]);
    match &r {
        Ok(d) => {
            assert!(ok && have - rd.len() == 82);
            assert!(d.amount.to_sat() == be(&b[1..]) && d.reveal_fee.to_sat() == be(&b[74..]));
            let out = d.signature.serialize_to_vec();
            assert!(bytes_eq(&out, &b[9..74]));
            forget(out);
        }
        Err(_) => assert!(!ok),
    }
    forget(r);
}
proof_secp!(withdrawal_decode_full, 85, withdrawal_decode(83));
proof_secp!(withdrawal_decode_short, 85, {
    withdrawal_decode(81);
    withdrawal_decode(73);
    withdrawal_decode(0);
});
