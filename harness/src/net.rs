//! Bitcoin-level vocabulary shared by the sbtc-core contracts.
use bdk::bitcoin::{
    Address as BitcoinAddress, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness,
};

use crate::util::*;

pub fn network() -> Network {
    match nd::below(4) {
        0 => Network::Bitcoin,
        1 => Network::Testnet,
        2 => Network::Signet,
        _ => Network::Regtest,
    }
}
pub fn magic(n: Network) -> [u8; 2] {
    match n {
        Network::Bitcoin => *b"X2",
        Network::Testnet => *b"T2",
        _ => *b"id",
    }
}
pub fn is_magic(a: u8, b: u8) -> bool {
    ((a == b'X') & (b == b'2')) | ((a == b'T') & (b == b'2')) | ((a == b'i') & (b == b'd'))
}
/// The standard output script kinds an address exists for.
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    P2pkh,
    P2sh,
    P2wpkh,
    P2wsh,
    P2tr,
}
pub const KINDS: [Kind; 5] = [Kind::P2pkh, Kind::P2sh, Kind::P2wpkh, Kind::P2wsh, Kind::P2tr];
pub fn script(k: Kind) -> Vec<u8> {
    match k {
        Kind::P2pkh => {
            let mut v = vec![0u8; 25];
            v[0] = 0x76;
            v[1] = 0xa9;
            v[2] = 20;
            v[3..23].copy_from_slice(&nd::bytes::<20>());
            v[23] = 0x88;
            v[24] = 0xac;
            v
        }
        Kind::P2sh => {
            let mut v = vec![0u8; 23];
            v[0] = 0xa9;
            v[1] = 20;
            v[2..22].copy_from_slice(&nd::bytes::<20>());
            v[22] = 0x87;
            v
        }
        Kind::P2wpkh => {
            let mut v = vec![0u8; 22];
            v[1] = 20;
            v[2..].copy_from_slice(&nd::bytes::<20>());
            v
        }
        Kind::P2wsh => {
            let mut v = vec![0u8; 34];
            v[1] = 32;
            v[2..].copy_from_slice(&nd::bytes::<32>());
            v
        }
        Kind::P2tr => {
            let mut v = vec![0u8; 34];
            v[0] = 0x51;
            v[1] = 32;
            v[2..].copy_from_slice(&nd::bytes::<32>());
            v
        }
    }
}
/// 3 times the bytes needed to spend the output (Bitcoin Core's default).
pub fn dust(k: Kind) -> u64 {
    match k {
        Kind::P2pkh => 546,
        Kind::P2sh => 540,
        Kind::P2wpkh => 294,
        Kind::P2wsh => 330,
        Kind::P2tr => 330,
    }
}
fn prog<const N: usize>(s: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; N];
    copy(&mut v, &s[2..]);
    v
}
/// The address paying the script `s` of kind `k`.
pub fn address_of(k: Kind, s: &[u8], n: Network) -> BitcoinAddress {
    use bdk::bitcoin::hashes::Hash;
    use bdk::bitcoin::util::address::{Payload, WitnessVersion};
    let take = |from: usize| {
        let mut h = [0u8; 20];
        copy(&mut h, &s[from..from + 20]);
        h
    };
    let payload = match k {
        Kind::P2pkh => Payload::PubkeyHash(bdk::bitcoin::PubkeyHash::from_inner(take(3))),
        Kind::P2sh => Payload::ScriptHash(bdk::bitcoin::ScriptHash::from_inner(take(2))),
        Kind::P2tr => Payload::WitnessProgram { version: WitnessVersion::V1, program: prog::<32>(s) },
        Kind::P2wsh => Payload::WitnessProgram { version: WitnessVersion::V0, program: prog::<32>(s) },
        Kind::P2wpkh => Payload::WitnessProgram { version: WitnessVersion::V0, program: prog::<20>(s) },
    };
    BitcoinAddress { payload, network: n }
}
pub fn output(script: Vec<u8>, value: u64) -> TxOut {
    TxOut { value, script_pubkey: Script::from(script) }
}
pub fn transaction(output: Vec<TxOut>) -> Transaction {
    Transaction { version: 2, lock_time: PackedLockTime::ZERO, input: vec![], output }
}
/// OP_RETURN followed by one direct push of `data`.
pub fn op_return(data: &[u8]) -> Vec<u8> {
    if data.len() < 76 {
        let mut v = vec![0u8; 2 + data.len()];
        v[0] = 0x6a;
        v[1] = data.len() as u8;
        copy(&mut v[2..], data);
        v
    } else {
        let mut v = vec![0u8; 3 + data.len()];
        v[0] = 0x6a;
        v[1] = 0x4c;
        v[2] = data.len() as u8;
        copy(&mut v[3..], data);
        v
    }
}
/// Element by element: keeps the bytes a harness fixed constant for Kani.
pub fn copy(to: &mut [u8], from: &[u8]) {
    let mut k = 0;
    while k < from.len() {
        let e = if k + 12 < from.len() { k + 12 } else { from.len() };
        let mut i = k;
        while i < e {
            to[i] = from[i];
            i += 1;
        }
        k += 12;
    }
}
/// The address pays the script `s` of kind `k`, on network `n`.
pub fn is_address(a: &BitcoinAddress, k: Kind, s: &[u8], n: Network) {
    use bdk::bitcoin::util::address::Payload;
    assert!(a.network == n);
    match (&a.payload, k) {
        (Payload::PubkeyHash(h), Kind::P2pkh) => assert!(bytes_eq(h, &s[3..23])),
        (Payload::ScriptHash(h), Kind::P2sh) => assert!(bytes_eq(h, &s[2..22])),
        (Payload::WitnessProgram { version, program }, Kind::P2wpkh | Kind::P2wsh | Kind::P2tr) => {
            assert!(*version as u8 == (k == Kind::P2tr) as u8);
            assert!(bytes_eq(program, &s[2..]));
        }
        _ => panic!("address of another kind"),
    }
}
/// Assumed contract of bitcoin's constructor: the version opcode, then one
/// push of the program.
#[cfg(kani)]
pub fn new_witness_program(version: bdk::bitcoin::util::address::WitnessVersion, program: &[u8]) -> Script {
    let v = version as u8;
    let op = if v == 0 { 0 } else { 0x50 + v };
    let mut o;
    match program.len() {
        20 => {
            o = vec![0u8; 22];
            copy(&mut o[2..], &program[..20]);
            o[1] = 20;
        }
        32 => {
            o = vec![0u8; 34];
            copy(&mut o[2..], &program[..32]);
            o[1] = 32;
        }
        _ => panic!("program of another length"),
    }
    o[0] = op;
    Script::from(o)
}
/// Network, payload kind and witness version, length, payload bytes: equal
/// exactly for equal addresses (of at most 32 bytes).
pub fn address_key(a: &BitcoinAddress) -> [u8; 35] {
    use bdk::bitcoin::util::address::Payload;
    let mut o = [0u8; 35];
    o[0] = match a.network {
        Network::Bitcoin => 0,
        Network::Testnet => 1,
        Network::Signet => 2,
        Network::Regtest => 3,
    };
    match &a.payload {
        Payload::PubkeyHash(x) => {
            o[1] = 64;
            copy(&mut o[3..23], &x[..]);
        }
        Payload::ScriptHash(x) => {
            o[1] = 65;
            copy(&mut o[3..23], &x[..]);
        }
        Payload::WitnessProgram { version, program } => {
            o[1] = *version as u8;
            o[2] = program.len() as u8;
            match program.len() {
                20 => copy(&mut o[3..23], &program[..20]),
                32 => copy(&mut o[3..35], &program[..32]),
                _ => panic!("program of another length"),
            }
        }
    }
    o
}
#[cfg(not(kani))]
pub mod signing {
    use super::*;
    use crate::util::secp::*;
    use stacks_core::codec::Codec;
    pub fn signed(key: &SecretKey, payee: &BitcoinAddress, amount: u64) -> [u8; 65] {
        let (id, c) = sbtc_core::operations::op_return::withdrawal_request::create_signature(key, payee, amount).serialize_compact();
        let mut o = [0u8; 65];
        o[0] = id.to_i32() as u8;
        o[1..].copy_from_slice(&c);
        o
    }
    pub fn recovered(amount: u64, payee: &BitcoinAddress, sig: &[u8]) -> Option<PublicKey> {
        let s = RecoverableSignature::codec_deserialize(&mut &sig[..]).unwrap();
        sbtc_core::operations::op_return::withdrawal_request::recover_signature(amount, payee, &s).ok()
    }
}
/// Contracts of the signature scheme as withdrawal requests use it: signing
/// and recovery are some functions of the signed amount and payee and of the
/// key (the signature); nothing else is assumed.
#[cfg(kani)]
pub mod signing {
    use super::*;
    use crate::util::secp::*;
    use sbtc_core::SBTCResult;

    // the one call seen so far (plain statics: cheap for the verifier)
    static mut S_SEEN: bool = false;
    static mut S_ARGS: (u64, [u8; 32], [u8; 35], [u8; 65]) = (0, [0; 32], [0; 35], [0; 65]);
    pub fn create_signature(key: &SecretKey, payee: &BitcoinAddress, amount: u64) -> RecoverableSignature {
        let a = address_key(payee);
        unsafe {
            if S_SEEN && S_ARGS.0 == amount && bytes_eq(&S_ARGS.1, &raw::<32, _>(key)) && bytes_eq(&S_ARGS.2, &a) {
                return core::mem::transmute(S_ARGS.3);
            }
            let (_, s) = signature();
            S_ARGS = (amount, raw(key), a, raw(&s));
            S_SEEN = true;
            s
        }
    }
    static mut R_SEEN: bool = false;
    static mut R_ARGS: (u64, [u8; 65], bool, [u8; 64], [u8; 35]) = (0, [0; 65], false, [0; 64], [0; 35]);
    pub fn recover_signature(amount: u64, payee: &BitcoinAddress, s: &RecoverableSignature) -> SBTCResult<PublicKey> {
        let a = address_key(payee);
        unsafe {
            if !(R_SEEN && R_ARGS.0 == amount && bytes_eq(&R_ARGS.1, &raw::<65, _>(s)) && bytes_eq(&R_ARGS.4, &a)) {
                R_ARGS = (amount, raw(s), nd::boolean(), nd::bytes::<64>(), a);
                R_SEEN = true;
            }
            if R_ARGS.2 {
                Ok(core::mem::transmute(R_ARGS.3))
            } else {
                Err(sbtc_core::SBTCError::SECPError("", Error::InvalidSignature))
            }
        }
    }
    /// The key recovered by the one call made, which was with these arguments.
    pub fn recovered(amount: u64, payee: &BitcoinAddress, sig: &[u8]) -> Option<PublicKey> {
        unsafe {
            assert!(R_SEEN, "no key was recovered");
            // compact form: both scalars, then the recovery id
            assert!(R_ARGS.0 == amount && bytes_eq(&R_ARGS.1[..64], &sig[1..]) && R_ARGS.1[64] == sig[0]);
            assert!(bytes_eq(&R_ARGS.4, &address_key(payee)));
            if R_ARGS.2 { Some(core::mem::transmute(R_ARGS.3)) } else { None }
        }
    }
    /// The signature made by the one call made, which was with these arguments.
    pub fn signed(key: &SecretKey, payee: &BitcoinAddress, amount: u64) -> [u8; 65] {
        unsafe {
            assert!(S_SEEN, "nothing was signed");
            assert!(S_ARGS.0 == amount && bytes_eq(&S_ARGS.1, &raw::<32, _>(key)));
            assert!(bytes_eq(&S_ARGS.2, &address_key(payee)));
            let mut o = [0u8; 65];
            copy(&mut o[1..], &S_ARGS.3[..64]);
            o[0] = S_ARGS.3[64];
            o
        }
    }
    fn raw<const N: usize, T>(t: &T) -> [u8; N] {
        unsafe { core::mem::transmute_copy(t) }
    }
}
