use core::mem::forget;

use bdk::bitcoin::util::bip32::{ChildNumber, DerivationPath, ExtendedPrivKey};
use bdk::bitcoin::{AddressType, Network as BitcoinNetwork};
use stacks_core::address::StacksAddress;
use stacks_core::crypto::wif::{WIFPrefix, WIF, WIF_LENGTH};
use stacks_core::wallet::*;
use stacks_core::Network;

use crate::util::secp;
use crate::util::*;

fn network() -> Network {
    if nd::boolean() { Network::Mainnet } else { Network::Testnet }
}
pub fn bitcoin_network() -> BitcoinNetwork {
    match nd::below(4) {
        0 => BitcoinNetwork::Bitcoin,
        1 => BitcoinNetwork::Testnet,
        2 => BitcoinNetwork::Signet,
        _ => BitcoinNetwork::Regtest,
    }
}
fn is_main(n: Network) -> bool {
    matches!(n, Network::Mainnet)
}

// networks: only Bitcoin mainnet is the Stacks mainnet
proof!(networks, 10, {
    let b = bitcoin_network();
    let s: Network = b.into();
    assert!(is_main(s) == matches!(b, BitcoinNetwork::Bitcoin));
    let n = network();
    let b: BitcoinNetwork = n.into();
    assert!(b == if is_main(n) { BitcoinNetwork::Bitcoin } else { BitcoinNetwork::Testnet });
    assert!(WIFPrefix::from(n) as u8 == if is_main(n) { 128 } else { 239 });
});

fn checksum(b: &[u8]) -> [u8; 4] {
    let h = sha256(&sha256(b));
    [h[0], h[1], h[2], h[3]]
}
fn valid(b: &[u8; 38]) -> bool {
    let c = checksum(&b[..34]);
    let mut ok = ((b[0] == 128) | (b[0] == 239)) & (b[33] == 1) & secp::key_ok(&b[1..33]);
    let mut i = 0;
    while i < 4 {
        ok &= b[34 + i] == c[i];
        i += 1;
    }
    ok
}
fn is_key(w: &WIF, b: &[u8]) {
    match w.private_key() {
        Ok(k) => assert!(bytes_eq(&k.secret_bytes(), b)),
        Err(_) => panic!("a valid WIF has a key"),
    }
}
// what a WIF of (network, key) answers
proof_secp!(wif_new, 40, {
    let n = network();
    let k = secp::secret_key();
    let w = WIF::new(n, k);
    assert!(matches!(w.network(), Ok(x) if x == n));
    is_key(&w, &k.secret_bytes());
});
// parsing accepts exactly the well-formed 38 bytes
proof_secp!(wif_from_bytes, 40, {
    let mut b = nd::bytes::<38>();
    if nd::steer() {
        b[0] = if b[0] & 1 == 0 { 128 } else { 239 };
        b[33] = 1;
        let c = checksum(&b[..34]);
        b[34..].copy_from_slice(&c);
    }
    let ok = valid(&b);
    let r = WIF::from_bytes(&b);
    match &r {
        Ok(w) => {
            assert!(ok);
            assert!(matches!(w.network(), Ok(x) if is_main(x) == (b[0] == 128)));
            is_key(w, &b[1..33]);
        }
        Err(_) => assert!(!ok),
    }
    forget(r);
});
proof_secp!(wif_length, 45, {
    assert!(WIF_LENGTH == 38);
    let b = nd::bytes::<40>();
    let a = WIF::from_bytes(&b[..37]);
    assert!(a.is_err());
    let c = WIF::from_bytes(&b[..39]);
    assert!(c.is_err());
    let e = WIF::from_bytes(&b[..0]);
    assert!(e.is_err());
    forget((a, c, e));
});
fn base58(payload: &[u8]) -> String {
    bdk::bitcoin::util::base58::encode_slice(payload)
}
// text form: base58 of the 38 bytes, and back
proof!(n_wif_text, 2, {
    let n = network();
    let k = secp::secret_key();
    let w = WIF::new(n, k);
    let mut b = vec![if is_main(n) { 128 } else { 239 }];
    b.extend_from_slice(&k.secret_bytes());
    b.push(1);
    let c = checksum(&b);
    b.extend_from_slice(&c);
    assert!(w.to_string() == base58(&b));
    let back = WIF::try_from(w.to_string()).unwrap();
    assert!(back.network().unwrap() == n && back.private_key().unwrap() == k);
    assert!(back.to_string() == w.to_string());
    // one damaged byte, checksum not adjusted or adjusted
    let i = nd::below(38);
    let d = nd::u8();
    let mut bad = b.clone();
    bad[i] = d;
    if nd::boolean() && i < 34 {
        let c = checksum(&bad[..34]);
        bad[34..].copy_from_slice(&c);
    }
    let mut arr = [0u8; 38];
    arr.copy_from_slice(&bad);
    assert!(WIF::try_from(base58(&bad)).is_ok() == valid(&arr));
    bad.truncate(i);
    assert!(WIF::try_from(base58(&bad)).is_err());
});

fn child(h: bool, i: u32) -> ChildNumber {
    if h { ChildNumber::from_hardened_idx(i).unwrap() } else { ChildNumber::from_normal_idx(i).unwrap() }
}
fn index() -> u32 {
    let i = nd::u32();
    if nd::boolean() { i & 0xff } else { i }
}
fn stacks_path(i: u32) -> DerivationPath {
    vec![child(true, 44), child(true, 5757), child(true, 0), child(false, 0), child(false, i)].into()
}
fn bitcoin_path(purpose: u32, main: bool, i: u32) -> DerivationPath {
    vec![child(true, purpose), child(true, !main as u32), child(true, i), child(false, 0), child(false, 0)].into()
}
// derivation paths, every index (text formatting: sampled on the real code)
proof!(n_paths, 2, {
    let i = index();
    match stacks_derivation_path(i) {
        Ok(p) => assert!(i < 1 << 31 && p == stacks_path(i)),
        Err(_) => assert!(i >= 1 << 31),
    }
    let net = bitcoin_network();
    let main = matches!(net, BitcoinNetwork::Bitcoin);
    for (kind, purpose) in [
        (AddressType::P2pkh, 44),
        (AddressType::P2wpkh, 84),
        (AddressType::P2tr, 86),
        (AddressType::P2sh, 0),
        (AddressType::P2wsh, 0),
    ] {
        match bitcoin_derivation_path(net, kind, i) {
            Ok(p) => assert!(purpose != 0 && i < 1 << 31 && p == bitcoin_path(purpose, main, i)),
            Err(_) => assert!(purpose == 0 || i >= 1 << 31),
        }
    }
});
// credentials are the keys at those paths, with the network's address version
proof!(n_credentials, 2, {
    let seed = nd::bytes::<32>();
    let master = ExtendedPrivKey::new_master(BitcoinNetwork::Bitcoin, &seed).unwrap();
    let s = secp::Secp256k1::new();
    let i = index() & 0x7fff_ffff;
    let n = network();
    let c = Credentials::new(n, master, i).unwrap();
    let k = master.derive_priv(&s, &stacks_path(i)).unwrap().private_key;
    assert!(c.private_key() == k && c.network() == n);
    let pk = secp::PublicKey::from_secret_key(&s, &k);
    assert!(c.public_key() == pk);
    let a: StacksAddress = c.address();
    assert!(a.version() as u8 == if is_main(n) { 22 } else { 26 });
    assert!(a.hash().as_ref() == hash160(&pk.serialize()));
    assert!(c.wif().private_key().unwrap() == k && c.wif().network().unwrap() == n);

    let net = bitcoin_network();
    let main = matches!(net, BitcoinNetwork::Bitcoin);
    let b = BitcoinCredentials::new(net, master, i).unwrap();
    assert!(b.network() == net);
    let key = |p| master.derive_priv(&s, &bitcoin_path(p, main, i)).unwrap().private_key;
    let (k44, k84, k86) = (key(44), key(84), key(86));
    assert!(b.private_key_p2pkh() == k44 && b.private_key_p2wpkh() == k84 && b.private_key_p2tr() == k86);
    let pb = |k: &secp::SecretKey| secp::PublicKey::from_secret_key(&s, k);
    assert!(b.public_key_p2pkh() == pb(&k44) && b.public_key_p2wpkh() == pb(&k84) && b.public_key_p2tr() == pb(&k86));
    use bdk::bitcoin::{util::address::Address, PublicKey};
    assert!(b.address_p2pkh() == Address::p2pkh(&PublicKey::new(pb(&k44)), net));
    assert!(b.address_p2wpkh() == Address::p2wpkh(&PublicKey::new(pb(&k84)), net).unwrap());
    assert!(b.address_p2tr() == Address::p2tr(&s, pb(&k86).x_only_public_key().0, None, net));
    for (w, k) in [(b.wif_p2pkh(), k44), (b.wif_p2wpkh(), k84), (b.wif_p2tr(), k86)] {
        assert!(w.private_key().unwrap() == k && is_main(w.network().unwrap()) == main);
    }
});
// a wallet is its mnemonic
proof!(n_wallet, 2, {
    let w = Wallet::random().unwrap();
    let m = w.mnemonic();
    assert!(m.word_count() == 24);
    let v = Wallet::new(m.to_string()).unwrap();
    let master = ExtendedPrivKey::new_master(BitcoinNetwork::Bitcoin, &m.to_seed("")).unwrap();
    assert!(v.master_key() == w.master_key() && w.master_key() == master.private_key);
    let n = network();
    let i = index() & 0x7fff_ffff;
    assert!(w.wif(n).private_key().unwrap() == master.private_key && w.wif(n).network().unwrap() == n);
    assert!(w.credentials(n, i).unwrap().private_key() == Credentials::new(n, master, i).unwrap().private_key());
    let net = bitcoin_network();
    let a = w.bitcoin_credentials(net, i).unwrap();
    let b = BitcoinCredentials::new(net, master, i).unwrap();
    assert!(a.private_key_p2pkh() == b.private_key_p2pkh() && a.private_key_p2wpkh() == b.private_key_p2wpkh());
    assert!(a.private_key_p2tr() == b.private_key_p2tr() && a.network() == net);
});
// network names, any case
proof!(n_network_names, 2, {
    let n = network();
    let t = if is_main(n) { "mainnet" } else { "testnet" };
    assert!(n.to_string() == t);
    let bits = nd::u8();
    let mixed: String = t.chars().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
    assert!(mixed.parse::<Network>().unwrap() == n);
    assert!(Network::try_from(mixed.clone()).unwrap() == n);
    let mut bad = mixed;
    bad.push('x');
    assert!(bad.parse::<Network>().is_err());
});
