use stacks_core::address::{AddressVersion, StacksAddress};
use stacks_core::contract_name::ContractName;
use stacks_core::crypto::hash160::Hash160Hasher;
use stacks_core::utils::{PrincipalData, StandardPrincipalData};

/// A harness over the code as it is, with assumed contracts of core functions.
#[macro_export]
macro_rules! proof {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, nd::stubs::format))]
        #[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, nd::stubs::run_utf8_validation))]
        pub fn $name() {
            $body;
            nd::reached();
        }
    };
}

/// SIP-004 contract name: a letter, then up to 39 letters, digits, '-', '_';
/// or the reserved name of a transient contract.
pub fn spec_name(b: &[u8]) -> bool {
    if b.len() == 11 && bytes_eq(b, b"__transient") {
        return true;
    }
    if b.len() < 1 || b.len() > 40 {
        return false;
    }
    let mut ok = is_alpha(b[0]);
    let mut i = 1;
    while i < b.len() {
        let c = b[i];
        ok &= is_alpha(c) | (c >= b'0' && c <= b'9') | (c == b'-') | (c == b'_');
        i += 1;
    }
    ok
}
fn is_alpha(c: u8) -> bool {
    (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z')
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // two nested loops: few iterations each; `b` is the side whose length the
    // harness fixes
    let mut same = true;
    let mut k = 0;
    while k < b.len() {
        let e = if k + 12 < b.len() { k + 12 } else { b.len() };
        let mut i = k;
        while i < e {
            same &= a[i] == b[i];
            i += 1;
        }
        k += 12;
    }
    same
}
pub const VERSIONS: [u8; 4] = [22, 20, 26, 21];
pub fn version() -> AddressVersion {
    match nd::below(4) {
        0 => AddressVersion::MainnetSingleSig,
        1 => AddressVersion::MainnetMultiSig,
        2 => AddressVersion::TestnetSingleSig,
        _ => AddressVersion::TestnetMultiSig,
    }
}
pub fn hash20() -> [u8; 20] {
    nd::bytes::<20>()
}
pub fn address() -> (u8, [u8; 20], StacksAddress) {
    let v = version();
    let h = hash20();
    (v as u8, h, StacksAddress::new(v, Hash160Hasher::from(h)))
}
/// A valid contract name of `N` characters.
pub fn name<const N: usize>() -> ([u8; N], ContractName) {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let mut b = nd::bytes::<N>();
    if cfg!(kani) {
        nd::assume(spec_name(&b));
    } else {
        const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
        if !spec_name(&b) {
            for (i, c) in b.iter_mut().enumerate() {
                *c = if i == 0 { FIRST[*c as usize % FIRST.len()] } else { REST[*c as usize % REST.len()] };
            }
        }
    }
    let n = ContractName::new(core::str::from_utf8(&b).unwrap());
    (b, n.unwrap())
}

pub fn valid_version(v: u8) -> bool {
    (v == 20) | (v == 21) | (v == 22) | (v == 26)
}
/// Length of the principal at the start of `b`, 0 if there is none.
pub fn spec_principal(b: &[u8]) -> usize {
    if b.len() < 22 || !valid_version(b[1]) {
        return 0;
    }
    if b[0] == 5 {
        return 22;
    }
    if b[0] != 6 || b.len() < 23 || b.len() < 23 + b[22] as usize {
        return 0;
    }
    let l = b[22] as usize;
    if spec_name(&b[23..23 + l]) { 23 + l } else { 0 }
}
/// `p` is the principal at the start of `b` (which is well-formed).
pub fn is_principal(p: &PrincipalData, b: &[u8]) {
    let StandardPrincipalData(v, a) = match p {
        PrincipalData::Standard(s) => {
            assert!(b[0] == 5);
            s
        }
        PrincipalData::Contract(s, n) => {
            assert!(b[0] == 6);
            let s2: &str = n.as_ref();
            assert!(bytes_eq(s2.as_bytes(), &b[23..23 + b[22] as usize]));
            s
        }
    };
    assert!(*v as u8 == b[1] && a.version() as u8 == b[1]);
    assert!(bytes_eq(a.hash().as_ref(), &b[2..22]));
}
/// A principal and its wire bytes: standard for `N` = 0, else a contract with
/// a name of `N` characters.
pub fn principal<const N: usize>() -> (Vec<u8>, PrincipalData) {
    let (v, h, a) = address();
    let s = StandardPrincipalData::from(a);
    if N == 0 {
        let mut b = vec![0u8; 22];
        b[0] = 5;
        b[1] = v;
        b[2..22].copy_from_slice(&h);
        (b, PrincipalData::Standard(s))
    } else {
        let (nb, n) = name::<N>();
        let mut b = vec![0u8; 23 + N];
        b[0] = 6;
        b[1] = v;
        b[2..22].copy_from_slice(&h);
        b[22] = N as u8;
        b[23..].copy_from_slice(&nb);
        (b, PrincipalData::Contract(s, n))
    }
}
/// Narrows bytes meant as a principal to likely well-formed ones.
pub fn steer_principal(b: &mut [u8]) {
    if b.len() < 2 {
        return;
    }
    b[1] = VERSIONS[b[1] as usize % 4];
    for i in 23..b.len() {
        b[i] = if i == 23 { b"aZ"[b[i] as usize % 2] } else { b"aZ09-_b"[b[i] as usize % 7] };
    }
}
/// The hash functions as the spec names them: the assumed function under
/// Kani, the real one natively.
pub fn sha256(b: &[u8]) -> [u8; 32] {
    use sha2::Digest;
    sha2::Sha256::digest(b).into()
}
pub fn hash160(b: &[u8]) -> [u8; 20] {
    use ripemd::Digest;
    ripemd::Ripemd160::digest(sha256(b)).into()
}
/// libsecp256k1: opaque values with their assumed contracts under Kani.
pub mod secp {
    pub use stacks_core::crypto::secp256k1::*;
    pub use stacks_core::crypto::secp256k1::ecdsa::{RecoverableSignature, RecoveryId};

    pub const ORDER: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae,
        0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
    ];
    /// big endian, below the group order
    pub fn scalar_ok(b: &[u8]) -> bool {
        let mut lt = false;
        let mut eq = true;
        let mut k = 0;
        while k < 4 {
            let mut i = 8 * k;
            while i < 8 * k + 8 {
                lt |= eq & (b[i] < ORDER[i]);
                eq &= b[i] == ORDER[i];
                i += 1;
            }
            k += 1;
        }
        lt
    }
    pub fn sig_ok(b: &[u8]) -> bool {
        scalar_ok(&b[..32]) & scalar_ok(&b[32..64])
    }
    #[cfg(kani)]
    pub fn public_key() -> PublicKey {
        unsafe { core::mem::transmute(nd::bytes::<64>()) }
    }
    #[cfg(not(kani))]
    pub fn public_key() -> PublicKey {
        PublicKey::from_secret_key(&Secp256k1::signing_only(), &secret_key())
    }
    #[cfg(kani)]
    pub fn secret_key() -> SecretKey {
        let b = nd::bytes::<32>();
        nd::assume(key_ok(&b));
        unsafe { core::mem::transmute(b) }
    }
    #[cfg(not(kani))]
    pub fn secret_key() -> SecretKey {
        let b = nd::bytes::<32>();
        match SecretKey::from_slice(&b) {
            Ok(k) => k,
            Err(_) => {
                nd::assume(false);
                unreachable!()
            }
        }
    }
    #[cfg(kani)]
    pub fn x_only() -> XOnlyPublicKey {
        unsafe { core::mem::transmute(nd::bytes::<64>()) }
    }
    #[cfg(not(kani))]
    pub fn x_only() -> XOnlyPublicKey {
        public_key().x_only_public_key().0
    }
    /// a signature and its 65 byte form
    pub fn signature() -> ([u8; 65], RecoverableSignature) {
        let id = nd::below(4);
        let c = nd::bytes::<64>();
        nd::assume(sig_ok(&c));
        let s = RecoverableSignature::from_compact(&c, RecoveryId::from_i32(id as i32).unwrap()).unwrap();
        let mut b = [0u8; 65];
        b[0] = id as u8;
        b[1..].copy_from_slice(&c);
        (b, s)
    }

    // Assumed contracts.
    /// compressed form: some function of the key
    #[cfg(kani)]
    pub fn pk_serialize(k: &PublicKey) -> [u8; 33] {
        let b: [u8; 64] = unsafe { core::mem::transmute_copy(k) };
        let mut o = [0u8; 33];
        o.copy_from_slice(&b[..33]);
        o
    }
    #[cfg(kani)]
    pub fn xonly_serialize(k: &XOnlyPublicKey) -> [u8; 32] {
        let b: [u8; 64] = unsafe { core::mem::transmute_copy(k) };
        let mut o = [0u8; 32];
        o.copy_from_slice(&b[..32]);
        o
    }
    /// Ok iff 64 bytes with both scalars below the group order
    #[cfg(kani)]
    pub fn from_compact(data: &[u8], id: RecoveryId) -> Result<RecoverableSignature, Error> {
        if data.len() != 64 || !sig_ok(data) {
            return Err(Error::InvalidSignature);
        }
        let mut b = [0u8; 65];
        b[..64].copy_from_slice(data);
        b[64] = id.to_i32() as u8;
        Ok(unsafe { core::mem::transmute(b) })
    }
    /// Ok iff 32 bytes, not zero and below the group order
    pub fn key_ok(b: &[u8]) -> bool {
        let mut nz = false;
        let mut k = 0;
        while k < 4 {
            let mut i = 8 * k;
            while i < 8 * k + 8 {
                nz |= b[i] != 0;
                i += 1;
            }
            k += 1;
        }
        nz & scalar_ok(b)
    }
    #[cfg(kani)]
    pub fn sk_from_slice(data: &[u8]) -> Result<SecretKey, Error> {
        if data.len() != 32 || !key_ok(data) {
            return Err(Error::InvalidSecretKey);
        }
        let mut b = [0u8; 32];
        b.copy_from_slice(data);
        Ok(unsafe { core::mem::transmute(b) })
    }
    /// inverse of from_compact
    #[cfg(kani)]
    pub fn serialize_compact(s: &RecoverableSignature) -> (RecoveryId, [u8; 64]) {
        let b: [u8; 65] = unsafe { core::mem::transmute_copy(s) };
        let mut o = [0u8; 64];
        o.copy_from_slice(&b[..64]);
        kani::assume(b[64] < 4);
        (unsafe { core::mem::transmute(b[64] as i32) }, o)
    }
}
#[macro_export]
macro_rules! proof_secp {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, nd::stubs::format))]
        #[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, nd::stubs::run_utf8_validation))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::SecretKey::from_slice, crate::util::secp::sk_from_slice))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::PublicKey::serialize, crate::util::secp::pk_serialize))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::XOnlyPublicKey::serialize, crate::util::secp::xonly_serialize))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::ecdsa::RecoverableSignature::from_compact, crate::util::secp::from_compact))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::ecdsa::RecoverableSignature::serialize_compact, crate::util::secp::serialize_compact))]
        pub fn $name() {
            $body;
            nd::reached();
        }
    };
}
/// `proof!` with Script::new_witness_program as its contract.
#[macro_export]
macro_rules! proof_net {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, nd::stubs::format))]
        #[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, nd::stubs::run_utf8_validation))]
        #[cfg_attr(kani, kani::stub(bdk::bitcoin::Script::new_witness_program, crate::net::new_witness_program))]
        pub fn $name() {
            $body;
            nd::reached();
        }
    };
}
/// `proof_secp!` and `proof_net!` with signing and recovery as their contracts.
#[macro_export]
macro_rules! proof_sign {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($unwind))]
        #[cfg_attr(kani, kani::stub(std::fmt::format, nd::stubs::format))]
        #[cfg_attr(kani, kani::stub(core::str::validations::run_utf8_validation, nd::stubs::run_utf8_validation))]
        #[cfg_attr(kani, kani::stub(bdk::bitcoin::Script::new_witness_program, crate::net::new_witness_program))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::PublicKey::serialize, crate::util::secp::pk_serialize))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::ecdsa::RecoverableSignature::from_compact, crate::util::secp::from_compact))]
        #[cfg_attr(kani, kani::stub(stacks_core::crypto::secp256k1::ecdsa::RecoverableSignature::serialize_compact, crate::util::secp::serialize_compact))]
        #[cfg_attr(kani, kani::stub(sbtc_core::operations::op_return::withdrawal_request::create_signature, crate::net::signing::create_signature))]
        #[cfg_attr(kani, kani::stub(sbtc_core::operations::op_return::withdrawal_request::recover_signature, crate::net::signing::recover_signature))]
        pub fn $name() {
            $body;
            nd::reached();
        }
    };
}

/// sampled clauses only: does the call panic?
pub fn panics(f: impl FnOnce()) -> bool {
    if cfg!(kani) { return true }
    let f = std::panic::AssertUnwindSafe(f);
    std::panic::catch_unwind(f).is_err()
}
