"""Extraction of the c32check functions of stacks-core/src/c32.rs and of the
address version enum, for verus/c32check.vrs."""
import re
import kani_backend as kb
from verusc32 import Text, Lost, function, match, ident, strip_comments

VARIANTS = ["MainnetSingleSig", "MainnetMultiSig", "TestnetSingleSig", "TestnetMultiSig"]

def versions():
    src = strip_comments(open(f"{kb.REPO}/stacks-core/src/address.rs").read())
    m = re.search(r"pub enum AddressVersion\s*\{([^}]*)\}", src)
    if not m: raise Lost("enum AddressVersion")
    vs = re.findall(r"(\w+)\s*=\s*(0x[0-9a-fA-F]+|\d+)\s*,?", m.group(1))
    if sorted(v for v, _ in vs) != sorted(VARIANTS): raise Lost("variants of AddressVersion")
    return ("#[derive(Clone, Copy)]\npub enum AddressVersion { " + ", ".join(v for v, _ in vs) + " }\n"
            "pub fn code_of(v: AddressVersion) -> (r: u8) ensures r == vcode(v) { match v { "
            + ", ".join(f"AddressVersion::{v} => {n}u8" for v, n in vs) + " } }\n")

def common(t):
    t.call(r"C32_ALPHABET\[", "alphabet({0})", None)
    t.sub(r"\bversion as (u8|usize)\b", r"(code_of(version) as \1)", None)
    t.sub(r"\b(\w+)\.extend_from_slice\(&?(\w+)\);", r"extend(&mut \1, &\2);", None)
    t.sub(r"DoubleSha256Hasher::new\(&?(\w+)\)\s*\.checksum\(\)", r"checksum4(&\1)", None)
    t.call(r"vec!\[", "vec1({0})", None)
    t.sub(r"&(\w+)\[1\.\.\]", r"tail(&\1, 1)", None)

def ve(src):
    sig, ret, body = function(src, "version_check_encode")
    if sig != "version: AddressVersion, data: impl AsRef<[u8]>" or ret != "-> String": raise Lost("version_check_encode: signature")
    t = Text("version_check_encode", body)
    t.sub(r"let\s+data\s*=\s*data\.as_ref\(\)\s*;", "proof { broadcast use axiom_chk_len; lemma_vcode(version, version); let p = seq![vcode(version)] + data@; let w = p + chk(p); assert(w.subrange(1, w.len() as int) =~= body(version, data@)); }")
    common(t)
    e = ident(t, r"let mut (\w+)\s*=\s*encode\(")
    t.call(r"\b" + e + r"\.insert\(", "insert_front(&mut " + e + ", @{0});")
    t.sub(r"insert_front\(&mut \w+, @0,\s*(.*?)\s+as char\);\s*;", "insert_front(&mut " + e + r", \1); proof { assert(suf(" + e + "@, 1) =~= enc_@); }")
    t.sub(r"(let mut " + e + r"\s*=\s*encode\([^;]*;)", r"\1 let ghost enc_@ = " + e + "@;")
    t.s = t.s.replace("enc_@", "enc_g")
    return f"""pub fn version_check_encode(version: AddressVersion, data: &[u8]) -> (res: Vec<u8>)
	requires data@.len() < 0x0800_0000_0000_0000
	ensures check_enc(version, data@, res@)
{{{t.s}}}
"""

def vd(src):
    sig, ret, body = function(src, "version_check_decode")
    m = re.fullmatch(r"(\w+): impl AsRef<str>", sig)
    if not m or ret != "-> Result<(AddressVersion, Vec<u8>), C32Error>": raise Lost("version_check_decode: signature")
    s = m.group(1)
    t = Text("version_check_decode", body)
    t.sub(r"let\s+" + s + r"\s*=\s*" + s + r"\.as_ref\(\)\s*;", "")
    common(t)
    t.sub(r"\b" + s + r"\.is_empty\(\)", f"({s}.len() == 0)")
    t.sub(r"\b" + s + r"\.is_ascii\(\)", f"is_ascii({s})")
    t.sub(r"\b" + s + r"\.split_at\(1\);", f"split_at({s}, 1); proof {{ lemma_split_digits({s}@); }}")
    t.sub(r"\*(\w+)\.first\(\)\.unwrap\(\)", r"@FIRST \1")
    dv = ident(t, r"@FIRST (\w+)")
    t.sub(r"let (\w+)\s*=\s*@FIRST (\w+);", f"proof {{ lemma_one({s}@.subrange(0, 1), {dv}@); }} let \\1 = first(&\\2);")
    t.sub(r"let (\w+)\s*=\s*decode\((?!encoded_version)(\w+)\)\?;", f"let \\1 = decode(\\2)?; proof {{ lemma_check_dec({s}@, {dv}@, \\1@); }}")
    t.sub(r"\b(\w+)\.split_at\(", r"split_at(&\1, ")
    t.sub(r"\bcomputed_checksum\s*!=\s*expected_checksum\b", "!same(&computed_checksum, expected_checksum)")
    t.call(r"C32Error::InvalidChecksum\(", "C32Error::InvalidC32")
    t.sub(r"(\w+)\s*\.try_into\(\)\s*\.map_err\(\|_\|\s*C32Error::InvalidVersion\(\1\)\)\s*\?", r"version_of(\1)?")
    t.sub(r"\b(\w+)\.to_vec\(\)", r"to_vec(\1)")
    return f"""pub fn version_check_decode({s}: &[u8]) -> (res: Result<(AddressVersion, Vec<u8>), C32Error>)
	requires {s}@.len() < 0x0800_0000_0000_0000
	ensures match res {{ Ok(r) => check_dec({s}@, r.0, r.1@), Err(_) => forall|v: AddressVersion, d: Seq<u8>| !check_dec({s}@, v, d) }},
{{{t.s}}}
"""

def ea(src):
    sig, ret, body = function(src, "encode_address")
    if sig != "version: AddressVersion, data: impl AsRef<[u8]>" or ret != "-> String": raise Lost("encode_address: signature")
    t = Text("encode_address", body)
    t.sub(r'format!\("S\{\}",\s*(\w+)\)', r"prepend_s(\1)")
    e = ident(t, r"prepend_s\((\w+)\)")
    t.sub(r"(= prepend_s\(\w+\);)", r"= { let ghost g = " + e + r"@; proof { assert(suf(seq![83u8] + g, 1) =~= g); } prepend_s(" + e + ") };")
    return f"""pub fn encode_address(version: AddressVersion, data: &[u8]) -> (res: Vec<u8>)
	requires data@.len() < 0x0800_0000_0000_0000
	ensures addr_enc(version, data@, res@)
{{{t.s}}}
"""

def da(src):
    sig, ret, body = function(src, "decode_address")
    m = re.fullmatch(r"(\w+): impl AsRef<str>", sig)
    if not m or ret != "-> Result<(AddressVersion, Vec<u8>), C32Error>": raise Lost("decode_address: signature")
    s = m.group(1)
    t = Text("decode_address", body)
    t.sub(r"let\s+" + s + r"\s*=\s*" + s + r"\.as_ref\(\)\s*;", "")
    t.sub(r"\b" + s + r"\.starts_with\('S'\)", f"starts_with({s}, 83)")
    t.call(r"C32Error::InvalidAddress\(", "C32Error::InvalidC32")
    t.sub(r"&" + s + r"\[1\.\.\]", f"tail({s}, 1)")
    return f"""pub fn decode_address({s}: &[u8]) -> (res: Result<(AddressVersion, Vec<u8>), C32Error>)
	requires {s}@.len() < 0x0800_0000_0000_0000
	ensures match res {{ Ok(r) => addr_dec({s}@, r.0, r.1@), Err(_) => forall|v: AddressVersion, d: Seq<u8>| !addr_dec({s}@, v, d) }},
{{{t.s}}}
"""

def functions(src):
    return versions() + ve(src) + vd(src) + ea(src) + da(src)
