use core::mem::forget;

use sbtc_core::operations::op_return::withdrawal_request::*;
use sbtc_core::SBTCError;
use stacks_core::codec::Codec;

use crate::net::*;
use crate::util::*;

fn be(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < 8 {
        v = v << 8 | b[i] as u64;
        i += 1;
    }
    v
}
/// Well-formed request data: magic, '>', amount, recovery id, both scalars.
fn spec_data(b: &[u8]) -> bool {
    b.len() >= 76 && is_magic(b[0], b[1]) && b[2] == b'>' && b[11] < 4 && secp::sig_ok(&b[12..76])
}
fn steer(b: &mut [u8]) {
    if nd::steer() {
        let m = magic(network());
        b[0] = m[0];
        b[1] = m[1];
        b[2] = b'>';
        b[11] &= 3;
        b[12] &= 0x7f;
        b[44] &= 0x7f;
    }
}
// Ok exactly on well-formed data, consuming exactly it; the value is what the
// bytes say and is written back as the same bytes
fn decode(have: usize) {
    let mut b = nd::bytes::<78>();
    steer(&mut b);
    let b = &b[..have];
    let mut rd = b;
    let r = WithdrawalRequestDataOutputData::codec_deserialize(&mut rd);
    match &r {
        Ok(d) => {
            assert!(spec_data(b) && have - rd.len() == 76);
            assert!(d.amount() == be(&b[3..]));
            let m = magic(d.network());
            assert!(m[0] == b[0] && m[1] == b[1]);
            let s = d.signature().serialize_to_vec();
            assert!(bytes_eq(&s, &b[11..76]));
            let out = d.serialize_to_vec();
            assert!(bytes_eq(&out, &b[..76]));
            forget((s, out));
        }
        Err(_) => assert!(!spec_data(b)),
    }
    forget(r);
}
proof_secp!(decode_76, 78, decode(76));
proof_secp!(decode_78, 78, decode(78));
proof_secp!(decode_short, 78, {
    decode(0);
    decode(1);
    decode(2);
    decode(3);
    decode(10);
    decode(11);
    decode(75);
});

/// what is signed: both parts preceded by their length
fn message(data: &[u8]) {
    let m = create_signing_message(data);
    let p = b"Stacks Signed Message:\n";
    let mut t = vec![0u8; 25 + data.len()];
    t[0] = 23;
    copy(&mut t[1..], p);
    t[24] = data.len() as u8;
    copy(&mut t[25..], data);
    let want = sha256(&t);
    assert!(bytes_eq(m.as_ref(), &want));
    forget(t);
}
proof!(message_0, 38, message(&[]));
proof!(message_1, 38, message(&nd::bytes::<1>()));
proof!(message_7, 38, message(&nd::bytes::<7>()));
proof!(n_message_any, 2, {
    let b = nd::bytes::<252>();
    let l = nd::below(253);
    message(&b[..l]);
});
// the signed text names the amount and the payee, in words and in hex
proof!(n_text, 2, {
    let n = network();
    let k = KINDS[nd::below(5)];
    let s = script(k);
    let a = address_of(k, &s, n);
    let amount = nd::u64();
    let m = create_withdrawal_request_signing_message(amount, &a);
    let mut hexed = String::new();
    for x in amount.to_be_bytes().iter().chain(s.iter()) {
        hexed.push_str(&format!("{x:02x}"));
    }
    let text = format!("Withdraw request for {amount} satoshis to the bitcoin address {a} ({hexed})");
    let mut t = vec![23u8];
    t.extend_from_slice(b"Stacks Signed Message:\n");
    t.push(text.len() as u8);
    assert!(text.len() < 253);
    t.extend_from_slice(text.as_bytes());
    let want = sha256(&t);
    assert!(bytes_eq(m.as_ref(), &want));
});
// signing and recovery agree, and only on the signed amount and payee
proof!(n_recover, 2, {
    use stacks_core::crypto::secp256k1::{PublicKey, Secp256k1};
    let n = network();
    let k = KINDS[nd::below(5)];
    let s = script(k);
    let a = address_of(k, &s, n);
    let amount = nd::u64();
    let key = secp::secret_key();
    let who = PublicKey::from_secret_key(&Secp256k1::signing_only(), &key);
    let sig = create_signature(&key, &a, amount);
    assert!(recover_signature(amount, &a, &sig).ok() == Some(who));
    let other = amount ^ (1 << nd::below(64));
    assert!(recover_signature(other, &a, &sig).ok() != Some(who));
    let mut s2 = s.clone();
    let at = match k { Kind::P2pkh => 3, _ => 2 } + nd::below(20);
    s2[at] ^= 1 << nd::below(8);
    assert!(recover_signature(amount, &address_of(k, &s2, n), &sig).ok() != Some(who));
});

/// data output, dust to the payee, the fulfilment fee to the wallet; refused
/// exactly when the fee is dust
fn outputs(payee: Kind, wallet: Kind) {
    let n = network();
    let (s, w) = (script(payee), script(wallet));
    let (a, b) = (address_of(payee, &s, n), address_of(wallet, &w, n));
    let key = secp::secret_key();
    let amount = nd::u64();
    let fee = if nd::steer() { dust(wallet) - 3 + nd::below(6) as u64 } else { nd::u64() };
    let r = create_outputs(&key, &a, &b, amount, fee, n);
    match &r {
        Ok([(data, zero), (pay, least), (wal, value)]) => {
            assert!(fee >= dust(wallet));
            assert!(*zero == 0 && *least == dust(payee) && *value == fee);
            let sb = signing::signed(&key, &a, amount);
            let d = data.as_bytes();
            assert!(d.len() == 79 && d[0] == 0x6a && d[1] == 0x4c && d[2] == 76);
            let m = magic(n);
            assert!(d[3] == m[0] && d[4] == m[1] && d[5] == b'>');
            assert!(be(&d[6..]) == amount);
            assert!(bytes_eq(&d[14..], &sb));
            assert!(bytes_eq(pay.as_bytes(), &s) && bytes_eq(wal.as_bytes(), &w));
        }
        Err(e) => {
            assert!(fee < dust(wallet));
            assert!(matches!(e, SBTCError::AmountInsufficient(x, y) if *x == fee && *y == dust(wallet)));
        }
    }
    forget((r, a, b, s, w));
}
proof_sign!(outputs_p2wpkh_p2tr, 78, outputs(Kind::P2wpkh, Kind::P2tr));
proof_sign!(outputs_p2pkh_p2wsh, 78, outputs(Kind::P2pkh, Kind::P2wsh));
proof_sign!(outputs_p2sh_p2wpkh, 78, outputs(Kind::P2sh, Kind::P2wpkh));
proof_sign!(t_outputs_p2tr_p2pkh, 78, outputs(Kind::P2tr, Kind::P2pkh));
proof_sign!(t_outputs_p2wsh_p2sh, 78, outputs(Kind::P2wsh, Kind::P2sh));
proof!(n_outputs_any, 2, outputs(KINDS[nd::below(5)], KINDS[nd::below(5)]));
