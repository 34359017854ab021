use core::mem::forget;

use sbtc_core::operations::op_return::withdrawal_fulfillment::{create_outputs, ParsedWithdrawalFulfillmentData};
use stacks_core::codec::Codec;
use stacks_core::uint::Uint256;
use stacks_core::BlockId;

use crate::net::*;
use crate::util::*;

/// A block id and its 32 bytes, most significant first.
fn block() -> ([u8; 32], BlockId) {
    let b = nd::bytes::<32>();
    let n = Uint256::from_be_bytes(&b).ok().unwrap();
    (b, BlockId::new(n))
}
fn layout(out: &[u8], m: [u8; 2], b: &[u8; 32]) {
    assert!(out.len() == 35 && out[0] == m[0] && out[1] == m[1] && out[2] == b'!');
    assert!(bytes_eq(&out[3..], b));
}
// magic bytes, '!', chain tip
proof!(encode, 40, {
    let n = network();
    let (b, tip) = block();
    let d = ParsedWithdrawalFulfillmentData { network: n, chain_tip: tip };
    let out = d.serialize_to_vec();
    layout(&out, magic(n), &b);
    forget(out);
});
proof!(block_id, 40, {
    let (b, tip) = block();
    let out = tip.serialize_to_vec();
    assert!(bytes_eq(&out, &b));
    let mut rd = &b[..];
    let back = BlockId::codec_deserialize(&mut rd).ok().unwrap();
    assert!(rd.len() == 0);
    let again = back.serialize_to_vec();
    assert!(bytes_eq(&again, &b));
    let mut short = &b[..31];
    let r = BlockId::codec_deserialize(&mut short);
    assert!(r.is_err());
    forget((out, again, r));
});
/// Ok exactly on well-formed data, consuming exactly it
fn decode(have: usize) {
    let mut b = nd::bytes::<37>();
    if nd::steer() {
        let m = magic(network());
        b[0] = m[0];
        b[1] = m[1];
        b[2] = b'!';
    }
    let mut rd = &b[..have];
    let r = ParsedWithdrawalFulfillmentData::codec_deserialize(&mut rd);
    let ok = have >= 35 && is_magic(b[0], b[1]) && b[2] == b'!';
    match &r {
        Ok(d) => {
            assert!(ok && have - rd.len() == 35);
            let m = magic(d.network);
            assert!(m[0] == b[0] && m[1] == b[1]);
            let tip = d.chain_tip.serialize_to_vec();
            assert!(bytes_eq(&tip, &b[3..35]));
            forget(tip);
        }
        Err(_) => assert!(!ok),
    }
    forget(r);
}
proof!(decode_35, 40, decode(35));
proof!(decode_37, 40, decode(37));
proof!(decode_short, 40, {
    decode(0);
    decode(1);
    decode(2);
    decode(3);
    decode(34);
});

/// data output first, then the payment of exactly the amount
fn outputs(k: Kind) {
    let n = network();
    let (b, tip) = block();
    let s = script(k);
    let a = address_of(k, &s, n);
    let amount = nd::u64();
    let r = create_outputs(tip, n, &a, amount);
    match &r {
        Ok([(data, zero), (pay, value)]) => {
            assert!(*zero == 0 && *value == amount);
            let d = data.as_bytes();
            assert!(d.len() == 37 && d[0] == 0x6a && d[1] == 35);
            layout(&d[2..], magic(n), &b);
            assert!(bytes_eq(pay.as_bytes(), &s));
        }
        Err(_) => panic!("outputs exist for every request"),
    }
    forget((r, a, s));
}
proof_net!(outputs_p2wpkh, 40, outputs(Kind::P2wpkh));
proof_net!(outputs_p2tr, 40, outputs(Kind::P2tr));
proof!(outputs_p2pkh, 40, outputs(Kind::P2pkh));
proof!(outputs_p2sh, 40, outputs(Kind::P2sh));
proof_net!(t_outputs_p2wsh, 40, outputs(Kind::P2wsh));
