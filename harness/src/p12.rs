use core::mem::forget;

use bdk::bitcoin::{Network, Transaction};
use sbtc_core::operations::op_return::withdrawal_request::*;
use stacks_core::codec::Codec;

use crate::net::*;
use crate::util::*;

fn be(b: &[u8]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < 8 {
        v = v << 8 | b[i] as u64;
        i += 1;
    }
    v
}
/// Well-formed request data of network `n`.
fn spec_data(b: &[u8], n: Network) -> bool {
    let m = magic(n);
    b.len() >= 76 && b[0] == m[0] && b[1] == m[1] && b[2] == b'>' && b[11] < 4 && secp::sig_ok(&b[12..76])
}
fn data(n: Network) -> [u8; 78] {
    let mut b = nd::bytes::<78>();
    if nd::steer() {
        let m = magic(n);
        b[0] = m[0];
        b[1] = m[1];
        b[2] = b'>';
        b[11] &= 3;
        b[12] &= 0x7f;
        b[44] &= 0x7f;
    }
    b
}
/// ensures: the drawee is the holder of the key recovered from the signature
/// over this amount and this payee, and every field is what the outputs say
fn is_request(r: &WithdrawalRequestData, n: Network, b: &[u8], payee: (Kind, &[u8]), wallet: (Kind, &[u8]), fee: u64) {
    assert!(r.amount == be(&b[3..]) && r.fulfillment_amount == fee);
    is_address(&r.payee_bitcoin_address, payee.0, payee.1, n);
    is_address(&r.sbtc_wallet, wallet.0, wallet.1, n);
    let (id, sig) = r.signature.serialize_compact();
    assert!(id.to_i32() == b[11] as i32 && bytes_eq(&sig, &b[12..76]));
    let a = address_of(payee.0, payee.1, n);
    match signing::recovered(be(&b[3..]), &a, &b[11..76]) {
        Some(k) => {
            let d = &r.drawee_stacks_address;
            assert!(d.version() as u8 == if n == Network::Bitcoin { 22 } else { 26 });
            let h = hash160(&k.serialize());
            assert!(bytes_eq(d.hash().as_ref(), &h));
        }
        None => panic!("a request whose signature recovers no key"),
    }
    forget(a);
}
/// a request exactly when the data is this network's, its signature recovers
/// a key, and payee and wallet are addresses
fn parse(n: Network, b: &[u8], payee: Kind, wallet: Kind, valid: Option<bool>) {
    let good = spec_data(b, n);
    if let Some(v) = valid {
        nd::assume(good == v);
    }
    let (s, w) = (script(payee), script(wallet));
    let fee = nd::u64();
    let tx = transaction(vec![output(op_return(b), 0), output(s.clone(), nd::u64()), output(w.clone(), fee)]);
    let r = try_parse_withdrawal_request(n, tx);
    match &r {
        Ok(r) => {
            assert!(good);
            is_request(r, n, b, (payee, &s), (wallet, &w), fee)
        }
        Err(_) => {
            if good {
                let a = address_of(payee, &s, n);
                assert!(signing::recovered(be(&b[3..]), &a, &b[11..76]).is_none());
                forget(a);
            }
        }
    }
    forget((r, s, w));
}
fn full(payee: Kind, wallet: Kind) {
    let n = network();
    let b = data(n);
    parse(n, &b[..76], payee, wallet, Some(true));
}
proof_sign!(parse_p2wpkh_p2tr, 14, full(Kind::P2wpkh, Kind::P2tr));
proof_sign!(t_parse_p2pkh_p2wsh, 14, full(Kind::P2pkh, Kind::P2wsh));
proof_sign!(parse_p2sh_p2wpkh, 14, full(Kind::P2sh, Kind::P2wpkh));
proof_sign!(t_parse_p2tr_p2pkh, 14, full(Kind::P2tr, Kind::P2pkh));
proof_sign!(t_parse_p2wsh_p2sh, 14, full(Kind::P2wsh, Kind::P2sh));
proof_sign!(parse_extra, 14, {
    let n = network();
    let b = data(n);
    parse(n, &b, Kind::P2wpkh, Kind::P2tr, Some(true));
});
proof_sign!(parse_malformed, 14, {
    let n = network();
    let b = data(n);
    nd::assume(!spec_data(&b[..76], n));
    refused(n, transaction(vec![output(op_return(&b[..76]), 0), output(script(Kind::P2wpkh), nd::u64()), output(script(Kind::P2tr), nd::u64())]));
});
proof_sign!(parse_short, 14, {
    let n = network();
    let b = data(n);
    parse(n, &b[..75], Kind::P2wpkh, Kind::P2tr, None);
});

fn refused(n: Network, tx: Transaction) {
    let r = try_parse_withdrawal_request(n, tx);
    assert!(r.is_err());
    forget(r);
}
proof_sign!(no_outputs, 14, refused(network(), transaction(Vec::with_capacity(1))));
proof_sign!(one_output, 14, {
    let n = network();
    let b = data(n);
    refused(n, transaction(vec![output(op_return(&b[..76]), 0)]));
});
proof_sign!(two_outputs, 14, {
    let n = network();
    let b = data(n);
    refused(n, transaction(vec![output(op_return(&b[..76]), 0), output(script(Kind::P2wpkh), nd::u64())]));
});
proof_sign!(payee_not_address, 14, {
    let n = network();
    let b = data(n);
    let mut w = nd::bytes::<4>();
    w[0] = 0x6a;
    refused(n, transaction(vec![output(op_return(&b[..76]), 0), output(w.to_vec(), nd::u64()), output(script(Kind::P2tr), nd::u64())]));
});
proof_sign!(wallet_not_address, 14, {
    let n = network();
    let b = data(n);
    let mut w = nd::bytes::<4>();
    w[0] = 0x6a;
    refused(n, transaction(vec![output(op_return(&b[..76]), 0), output(script(Kind::P2wpkh), nd::u64()), output(w.to_vec(), nd::u64())]));
});
proof_sign!(no_op_return, 14, {
    let n = network();
    let b = data(n);
    let mut s = op_return(&b[..76]);
    s[0] = nd::u8();
    nd::assume(s[0] >= 0x4f && s[0] != 0x6a);
    refused(n, transaction(vec![output(s, 0), output(script(Kind::P2wpkh), nd::u64()), output(script(Kind::P2tr), nd::u64())]));
});
// native only: requests signed by a known key, perhaps then tampered with
proof!(n_signed, 2, {
    use stacks_core::crypto::secp256k1::{PublicKey, Secp256k1};
    let n = network();
    let (pk, wk) = (KINDS[nd::below(5)], KINDS[nd::below(5)]);
    let (s, w) = (script(pk), script(wk));
    let key = secp::secret_key();
    let amount = nd::u64();
    let fee = dust(wk) + nd::u64() % 1_000_000;
    let outs = create_outputs(&key, &address_of(pk, &s, n), &address_of(wk, &w, n), amount, fee, n).ok().unwrap();
    let mut out: Vec<_> = outs.into_iter().map(|(s, v)| output(s.into_bytes(), v)).collect();
    for _ in 0..nd::below(3) {
        out.push(output(script(Kind::P2wpkh), nd::u64()));
    }
    let mine = hash160(&PublicKey::from_secret_key(&Secp256k1::signing_only(), &key).serialize());
    let tamper = nd::below(4);
    let mut b = out[0].script_pubkey.as_bytes()[3..].to_vec();
    let mut s = s;
    match tamper {
        1 => b[3 + nd::below(8)] ^= 1 << nd::below(8),
        2 => {
            let at = match pk { Kind::P2pkh => 3, _ => 2 } + nd::below(20);
            s[at] ^= 1 << nd::below(8);
        }
        3 => b[12 + nd::below(64)] ^= 1 << nd::below(8),
        _ => {}
    }
    out[0] = output(op_return(&b), 0);
    out[1] = output(s.clone(), out[1].value);
    let r = try_parse_withdrawal_request(n, transaction(out));
    match &r {
        Ok(r) => {
            assert!(spec_data(&b, n));
            is_request(r, n, &b, (pk, &s), (wk, &w), fee);
            assert!(bytes_eq(r.drawee_stacks_address.hash().as_ref(), &mine) == (tamper == 0));
        }
        Err(_) => assert!(tamper != 0),
    }
});
proof!(n_parse_any, 2, {
    let n = network();
    let b = data(n);
    let l = if nd::boolean() { 76 } else { nd::below(79) };
    parse(n, &b[..l], KINDS[nd::below(5)], KINDS[nd::below(5)], None);
});
