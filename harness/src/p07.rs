use core::mem::forget;

use stacks_core::address::StacksAddress;

use crate::util::secp::{self, PublicKey};
use crate::util::*;

fn same(a: &StacksAddress, v: u8, h: &[u8; 20]) {
    assert!(a.version() as u8 == v);
    assert!(bytes_eq(a.hash().as_ref(), h));
}

// ensures of the single-key constructions, over every key and version
proof_secp!(p2pkh, 70, {
    let v = version();
    let k = secp::public_key();
    let h = hash160(&k.serialize());
    same(&StacksAddress::p2pkh(v, &k), v as u8, &h);
    same(&StacksAddress::from_public_key(v, &k), v as u8, &h);
});
proof_secp!(p2wpkh, 70, {
    let v = version();
    let k = secp::public_key();
    let mut w = [0u8; 22];
    w[1] = 20;
    w[2..].copy_from_slice(&hash160(&k.serialize()));
    same(&StacksAddress::p2wpkh(v, &k), v as u8, &hash160(&w));
});

/// The m-of-N OP_CHECKMULTISIG script.
fn multisig<const N: usize>(m: usize, keys: &[PublicKey; N]) -> Vec<u8> {
    let mut s = vec![0u8; 3 + 34 * N];
    s[0] = 0x50 + m as u8;
    let mut i = 0;
    while i < N {
        s[1 + 34 * i] = 33;
        s[2 + 34 * i..35 + 34 * i].copy_from_slice(&keys[i].serialize());
        i += 1;
    }
    s[1 + 34 * N] = 0x50 + N as u8;
    s[2 + 34 * N] = 0xae;
    s
}
fn p2sh<const N: usize>(m: usize) {
    let v = version();
    let keys: [PublicKey; N] = core::array::from_fn(|_| secp::public_key());
    let s = multisig(m, &keys);
    same(&StacksAddress::p2sh(v, &keys, m), v as u8, &hash160(&s));
    forget(s);
}
fn p2wsh<const N: usize>(m: usize) {
    let v = version();
    let keys: [PublicKey; N] = core::array::from_fn(|_| secp::public_key());
    let s = multisig(m, &keys);
    let mut w = [0u8; 34];
    w[1] = 32;
    w[2..].copy_from_slice(&sha256(&s));
    same(&StacksAddress::p2wsh(v, &keys, m), v as u8, &hash160(&w));
    forget(s);
}
/// a threshold 1..=n
fn m(n: usize) -> usize {
    1 + nd::below(n)
}
proof_secp!(p2sh_1, 40, p2sh::<1>(1));
proof_secp!(p2sh_1_2, 75, p2sh::<2>(1));
proof_secp!(p2sh_2_2, 75, p2sh::<2>(2));
proof_secp!(p2sh_2_3, 110, p2sh::<3>(2));
proof_secp!(t_p2sh_1_3, 110, p2sh::<3>(1));
proof_secp!(t_p2sh_3_3, 110, p2sh::<3>(3));
proof_secp!(t_p2sh_7_7, 245, p2sh::<7>(7));
proof_secp!(p2wsh_1, 40, p2wsh::<1>(m(1)));
proof_secp!(p2wsh_2, 75, p2wsh::<2>(m(2)));
proof_secp!(p2wsh_3, 110, p2wsh::<3>(m(3)));
proof_secp!(t_p2wsh_7, 245, p2wsh::<7>(m(7)));
proof_secp!(n_p2sh, 600, { p2sh::<4>(m(4)); p2sh::<9>(m(9)); p2sh::<15>(m(15)); });
proof_secp!(n_p2wsh, 600, { p2wsh::<4>(m(4)); p2wsh::<9>(m(9)); p2wsh::<15>(m(15)); p2wsh::<16>(m(16)) });
