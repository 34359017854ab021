use vstd::prelude::*;
verus! {
// ---------- spec: numbers as digit sequences, least significant first
pub open spec fn pw(b: nat, n: nat) -> nat decreases n { if n == 0 { 1 } else { b * pw(b, (n - 1) as nat) } }
pub open spec fn val(s: Seq<nat>, b: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] + b * val(s.drop_first(), b) }
}
pub open spec fn canon(s: Seq<nat>, b: nat) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> s[i] < b
    &&& s.len() > 0 ==> s.last() > 0
}
proof fn lemma_push(s: Seq<nat>, x: nat, b: nat)
    ensures val(s.push(x), b) == val(s, b) + x * pw(b, s.len())
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(x).drop_first() =~= Seq::<nat>::empty());
        assert(val(Seq::<nat>::empty(), b) == 0);
        assert(val(s.push(x), b) == x + b * 0);
        assert(pw(b, 0) == 1);
    } else {
        let t = s.drop_first();
        assert(s.push(x).drop_first() =~= t.push(x));
        lemma_push(t, x, b);
        let p = pw(b, t.len()); let v = val(t, b);
        assert(pw(b, s.len()) == b * p);
        assert(b * (v + x * p) == b * v + x * (b * p)) by (nonlinear_arith);
    }
}
proof fn lemma_unique(s: Seq<nat>, t: Seq<nat>, b: nat)
    requires b > 1, canon(s, b), canon(t, b), val(s, b) == val(t, b)
    ensures s == t
    decreases s.len() + t.len()
{
    if s.len() == 0 && t.len() == 0 { assert(s =~= t); }
    else if s.len() == 0 { lemma_pos(t, b); }
    else if t.len() == 0 { lemma_pos(s, b); }
    else {
        let s1 = s.drop_first(); let t1 = t.drop_first();
        let x = val(s1, b); let y = val(t1, b);
        assert(s[0] + b * x == t[0] + b * y);
        assert(x == y && s[0] == t[0]) by (nonlinear_arith)
            requires s[0] + b * x == t[0] + b * y, s[0] < b, t[0] < b, b > 1;
        if s1.len() > 0 { assert(s1.last() == s.last()); }
        if t1.len() > 0 { assert(t1.last() == t.last()); }
        lemma_unique(s1, t1, b);
        assert(s =~= seq![s[0]] + s1);
        assert(t =~= seq![t[0]] + t1);
    }
}
proof fn lemma_pos(s: Seq<nat>, b: nat)
    requires canon(s, b), s.len() > 0, b > 1
    ensures val(s, b) > 0
    decreases s.len()
{
    if s.len() == 1 { assert(s[0] == s.last()); assert(val(s.drop_first(), b) == 0); assert(val(s,b) == s[0] + b * 0); }
    else {
        let t = s.drop_first();
        assert(t.last() == s.last());
        lemma_pos(t, b);
        assert(b * val(t, b) > 0) by (nonlinear_arith) requires b > 1, val(t, b) > 0;
    }
}
proof fn lemma_pop_zero(s: Seq<nat>, b: nat)
    requires s.len() > 0, s.last() == 0
    ensures val(s.drop_last(), b) == val(s, b)
{
    assert(s =~= s.drop_last().push(0));
    lemma_push(s.drop_last(), 0, b);
    assert(0 * pw(b, s.drop_last().len()) == 0);
}

// ---------- spec: bytes and c32 characters
pub open spec fn prop_alpha(i: nat) -> u8 {
    // 0-9 A-H J K M N P-T V-Z
    if i < 10 { (48 + i) as u8 } else if i < 18 { (65 + (i - 10)) as u8 } else if i < 20 { (74 + (i - 18)) as u8 }
    else if i < 22 { (77 + (i - 20)) as u8 } else if i < 27 { (80 + (i - 22)) as u8 } else { (86 + (i - 27)) as u8 }
}
pub open spec fn up(c: u8) -> u8 { if 97 <= c <= 122 { (c - 32) as u8 } else { c } }
/// value of a character, 32 if it is none; o/O is 0, i/I/l/L is 1
pub open spec fn dig(c0: u8) -> nat {
    let c = up(c0);
    if 48 <= c <= 57 { (c - 48) as nat } else if 65 <= c <= 72 { (c - 65 + 10) as nat } else if c == 73 || c == 76 { 1 }
    else if 74 <= c <= 75 { (c - 74 + 18) as nat } else if 77 <= c <= 78 { (c - 77 + 20) as nat } else if c == 79 { 0 }
    else if 80 <= c <= 84 { (c - 80 + 22) as nat } else if 86 <= c <= 90 { (c - 86 + 27) as nat } else { 32 }
}
proof fn lemma_alpha(i: nat) requires i < 32 ensures dig(prop_alpha(i)) == i, prop_alpha(i) < 128 {}
pub open spec fn digs(s: Seq<u8>) -> Seq<nat> { s.map_values(|c: u8| dig(c)) }
pub open spec fn byts(s: Seq<u8>) -> Seq<nat> { s.map_values(|c: u8| c as nat) }
/// canonical c32 characters, least significant first
pub open spec fn is_chars(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < 32 && prop_alpha(dig(s[i])) == s[i] }
pub open spec fn lead(s: Seq<u8>, z: spec_fn(u8) -> bool) -> nat decreases s.len() {
    if s.len() > 0 && z(s[0]) { 1 + lead(s.drop_first(), z) } else { 0 }
}
pub open spec fn zb(c: u8) -> bool { c == 0 }
pub open spec fn zd(c: u8) -> bool { dig(c) == 0 }
pub open spec fn n256(d: Seq<u8>) -> nat { val(byts(d.reverse()), 256) }
pub open spec fn n32(s: Seq<u8>) -> nat { val(digs(s.reverse()), 32) }
/// `out` is the c32 text of the bytes `d`
pub open spec fn is_encoding(d: Seq<u8>, out: Seq<u8>) -> bool {
    exists|m: Seq<u8>| #[trigger] enc_parts(d, out, m)
}
pub open spec fn enc_parts(d: Seq<u8>, out: Seq<u8>, m: Seq<u8>) -> bool {
    &&& is_chars(m) && canon(digs(m), 32) && val(digs(m), 32) == n256(d)
    &&& out == Seq::new(lead(d, |c: u8| zb(c)), |i: int| 48u8) + m.reverse()
}
proof fn lemma_pw(b: nat, m: nat, n: nat) ensures pw(b, m + n) == pw(b, m) * pw(b, n) decreases m {
    if m == 0 { assert(1 * pw(b, n) == pw(b, n)); }
    else {
        lemma_pw(b, (m - 1) as nat, n);
        let p = pw(b, (m - 1) as nat); let q = pw(b, n);
        assert(b * (p * q) == (b * p) * q) by (nonlinear_arith);
        assert((m + n - 1) as nat == ((m - 1) as nat) + n);
    }
}
proof fn lemma_pwb(k: nat, n: nat) ensures pw(pw(2, k), n) == pw(2, k * n) decreases n {
    if n == 0 { assert(k * 0 == 0); }
    else {
        lemma_pwb(k, (n - 1) as nat);
        lemma_pw(2, k, k * ((n - 1) as nat));
        assert(k + k * ((n - 1) as nat) == k * n) by (nonlinear_arith) requires n > 0;
    }
}
proof fn lemma_base() ensures pw(2, 5) == 32, pw(2, 8) == 256, pw(2,0)==1, pw(2,1)==2, pw(2,2)==4, pw(2,3)==8, pw(2,4)==16 {
    reveal_with_fuel(pw, 9);
}
/// 256^p == 32^q * 2^r whenever 8p == 5q + r
proof fn lemma_bases(p: nat, q: nat, r: nat)
    requires 8 * p == 5 * q + r
    ensures pw(256, p) == pw(32, q) * pw(2, r)
{
    lemma_base();
    lemma_pwb(8, p); lemma_pwb(5, q); lemma_pw(2, 5 * q, r);
}
proof fn lemma_suffix(d: Seq<u8>, i: int)
    requires 0 < i <= d.len()
    ensures n256(d.subrange(i - 1, d.len() as int)) == n256(d.subrange(i, d.len() as int)) + d[i - 1] as nat * pw(256, (d.len() - i) as nat)
{
    let t = d.subrange(i, d.len() as int);
    let s = d.subrange(i - 1, d.len() as int);
    assert(byts(s.reverse()) =~= byts(t.reverse()).push(d[i - 1] as nat));
    lemma_push(byts(t.reverse()), d[i - 1] as nat, 256);
}
proof fn lemma_p2() ensures pw(2,0)==1, pw(2,1)==2, pw(2,2)==4, pw(2,3)==8, pw(2,4)==16, pw(2,5)==32, pw(2,6)==64, pw(2,7)==128, pw(2,8)==256,
    pw(2,9)==512, pw(2,10)==1024, pw(2,11)==2048, pw(2,12)==4096, pw(2,13)==8192
{ reveal_with_fuel(pw, 14); }
proof fn lemma_or(buffer: u32, byte: u8, bits: u32)
    requires bits < 5, buffer < pw(2, bits as nat)
    ensures (buffer | ((byte as u32) << bits)) == buffer + (byte as nat) * pw(2, bits as nat),
        (buffer | ((byte as u32) << bits)) < pw(2, (bits + 8) as nat)
{
    lemma_p2();
    let x = byte as u32;
    if bits == 0 {
        assert((buffer | (x << 0u32)) == add(buffer, mul(x, 1)) && (buffer | (x << 0u32)) < 256 && mul(x, 1) < 256) by (bit_vector) requires x < 256, buffer < 1;
        assert(x * 1 < 256);
    }
    if bits == 1 {
        assert((buffer | (x << 1u32)) == add(buffer, mul(x, 2)) && (buffer | (x << 1u32)) < 512 && mul(x, 2) < 512) by (bit_vector) requires x < 256, buffer < 2;
        assert(x * 2 < 512);
    }
    if bits == 2 {
        assert((buffer | (x << 2u32)) == add(buffer, mul(x, 4)) && (buffer | (x << 2u32)) < 1024 && mul(x, 4) < 1024) by (bit_vector) requires x < 256, buffer < 4;
        assert(x * 4 < 1024);
    }
    if bits == 3 {
        assert((buffer | (x << 3u32)) == add(buffer, mul(x, 8)) && (buffer | (x << 3u32)) < 2048 && mul(x, 8) < 2048) by (bit_vector) requires x < 256, buffer < 8;
        assert(x * 8 < 2048);
    }
    if bits == 4 {
        assert((buffer | (x << 4u32)) == add(buffer, mul(x, 16)) && (buffer | (x << 4u32)) < 4096 && mul(x, 16) < 4096) by (bit_vector) requires x < 256, buffer < 16;
        assert(x * 16 < 4096);
    }
}
proof fn lemma_split(buffer: u32, bits: u32)
    requires 5 <= bits < 13, buffer < pw(2, bits as nat)
    ensures (buffer & 0x1F) < 32, buffer == (buffer & 0x1F) + 32 * (buffer >> 5u32), (buffer >> 5u32) < pw(2, (bits - 5) as nat)
{
    lemma_p2();
    assert((buffer & 0x1F) < 32 && buffer == add(buffer & 0x1F, mul(32, buffer >> 5u32)) && (buffer >> 5u32) <= 0x7ffffff) by (bit_vector);
    assert((buffer >> 5u32) == buffer / 32) by (bit_vector);
}
proof fn lemma_or16(buffer: u16, byte: u8, bits: u32)
    requires bits < 8, buffer < pw(2, bits as nat), byte < 32
    ensures (buffer | ((byte as u16) << bits)) == buffer + (byte as nat) * pw(2, bits as nat),
        (buffer | ((byte as u16) << bits)) < pw(2, (bits + 5) as nat)
{
    lemma_p2();
    let x = byte as u16;
    if bits == 0 {
        assert((buffer | (x << 0u32)) == add(buffer, mul(x, 1)) && (buffer | (x << 0u32)) < 32 && mul(x, 1) < 32) by (bit_vector) requires x < 32, buffer < 1;
        assert(x * 1 < 32);
    }
    if bits == 1 {
        assert((buffer | (x << 1u32)) == add(buffer, mul(x, 2)) && (buffer | (x << 1u32)) < 64 && mul(x, 2) < 64) by (bit_vector) requires x < 32, buffer < 2;
        assert(x * 2 < 64);
    }
    if bits == 2 {
        assert((buffer | (x << 2u32)) == add(buffer, mul(x, 4)) && (buffer | (x << 2u32)) < 128 && mul(x, 4) < 128) by (bit_vector) requires x < 32, buffer < 4;
        assert(x * 4 < 128);
    }
    if bits == 3 {
        assert((buffer | (x << 3u32)) == add(buffer, mul(x, 8)) && (buffer | (x << 3u32)) < 256 && mul(x, 8) < 256) by (bit_vector) requires x < 32, buffer < 8;
        assert(x * 8 < 256);
    }
    if bits == 4 {
        assert((buffer | (x << 4u32)) == add(buffer, mul(x, 16)) && (buffer | (x << 4u32)) < 512 && mul(x, 16) < 512) by (bit_vector) requires x < 32, buffer < 16;
        assert(x * 16 < 512);
    }
    if bits == 5 {
        assert((buffer | (x << 5u32)) == add(buffer, mul(x, 32)) && (buffer | (x << 5u32)) < 1024 && mul(x, 32) < 1024) by (bit_vector) requires x < 32, buffer < 32;
        assert(x * 32 < 1024);
    }
    if bits == 6 {
        assert((buffer | (x << 6u32)) == add(buffer, mul(x, 64)) && (buffer | (x << 6u32)) < 2048 && mul(x, 64) < 2048) by (bit_vector) requires x < 32, buffer < 64;
        assert(x * 64 < 2048);
    }
    if bits == 7 {
        assert((buffer | (x << 7u32)) == add(buffer, mul(x, 128)) && (buffer | (x << 7u32)) < 4096 && mul(x, 128) < 4096) by (bit_vector) requires x < 32, buffer < 128;
        assert(x * 128 < 4096);
    }
}
proof fn lemma_split16(carry: u16, bits: u32)
    requires 8 <= bits < 13, carry < pw(2, bits as nat)
    ensures (carry & 0xFF) < 256, carry == (carry & 0xFF) + 256 * (carry >> 8u32), (carry >> 8u32) < pw(2, (bits - 8) as nat), ((carry & 0xFF) as u8) == (carry & 0xFF)
{
    lemma_p2();
    assert((carry & 0xFF) < 256 && carry == add(carry & 0xFF, mul(256, carry >> 8u32)) && (carry >> 8u32) <= 0xff) by (bit_vector);
    assert((carry >> 8u32) == carry / 256) by (bit_vector);
}
// ---------- assumed contracts of what the functions call
#[verifier::external_body]
pub fn string_of(v: Vec<u8>) -> (r: Vec<u8>)
    requires forall|i: int| 0 <= i < v@.len() ==> v@[i] < 128
    ensures r@ == v@
{ v }
#[verifier::external_body]
pub fn vec_reverse(v: &mut Vec<u8>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
pub fn is_ascii(v: &[u8]) -> (r: bool) ensures r == (forall|i: int| 0 <= i < v@.len() ==> v@[i] < 128) { v.is_ascii() }
pub enum C32Error { InvalidC32, InvalidChar(char), IntConversionError }
#[verifier::external_body]
pub fn u8_try_from(x: u16) -> (r: Result<u8, C32Error>) ensures x < 256 ==> r == Ok::<u8, C32Error>(x as u8), x >= 256 ==> r is Err { Ok(x as u8) }
#[verifier::external_body]
pub fn byte_map(b: u8) -> (r: Option<u8>) requires b < 128 ensures match r { Some(v) => dig(b) < 32 && v == dig(b), None => dig(b) == 32 } { None }
pub open spec fn alphabet_spec() -> Seq<u8> { seq![48u8,49u8,50u8,51u8,52u8,53u8,54u8,55u8,56u8,57u8,65u8,66u8,67u8,68u8,69u8,70u8,71u8,72u8,74u8,75u8,77u8,78u8,80u8,81u8,82u8,83u8,84u8,86u8,87u8,88u8,89u8,90u8] }
// ---------- encode
pub open spec fn zeros(n: nat, c: u8) -> Seq<u8> { Seq::new(n, |i: int| c) }
pub open spec fn suf(d: Seq<u8>, i: int) -> Seq<u8> { d.subrange(i, d.len() as int) }
pub open spec fn mid(d: Seq<u8>, i: int, e: Seq<u8>, buffer: u32, bits: u32) -> bool {
    &&& 8 * (d.len() - i) == 5 * e.len() + bits
    &&& buffer < pw(2, bits as nat)
    &&& is_chars(e)
    &&& val(digs(e), 32) + buffer as nat * pw(32, e.len()) == n256(suf(d, i))
}
proof fn lemma_enc_byte(d: Seq<u8>, i: int, e: Seq<u8>, buffer: u32, bits: u32)
    requires 0 < i <= d.len(), mid(d, i, e, buffer, bits), bits < 5
    ensures mid(d, i - 1, e, buffer | ((d[i - 1] as u32) << bits), (bits + 8) as u32)
{
    lemma_or(buffer, d[i - 1], bits);
    lemma_suffix(d, i);
    lemma_bases((d.len() - i) as nat, e.len(), bits as nat);
    let b = buffer as nat; let x = d[i - 1] as nat; let q = pw(32, e.len()); let r = pw(2, bits as nat);
    assert((b + x * r) * q == b * q + x * (q * r)) by (nonlinear_arith);
}
proof fn lemma_digs_push(e: Seq<u8>, c: u8)
    ensures digs(e.push(c)) == digs(e).push(dig(c))
{ assert(digs(e.push(c)) =~= digs(e).push(dig(c))); }
proof fn lemma_byts_push(e: Seq<u8>, c: u8)
    ensures byts(e.push(c)) == byts(e).push(c as nat)
{ assert(byts(e.push(c)) =~= byts(e).push(c as nat)); }
proof fn lemma_enc_char(d: Seq<u8>, i: int, e: Seq<u8>, buffer: u32, bits: u32)
    requires 0 <= i <= d.len(), mid(d, i, e, buffer, bits), 5 <= bits < 13
    ensures (buffer & 0x1F) < 32, mid(d, i, e.push(prop_alpha((buffer & 0x1F) as nat)), buffer >> 5u32, (bits - 5) as u32)
{
    lemma_split(buffer, bits);
    let lo = (buffer & 0x1F) as nat; let hi = (buffer >> 5u32) as nat;
    lemma_alpha(lo);
    lemma_digs_push(e, prop_alpha(lo));
    lemma_push(digs(e), lo, 32);
    let q = pw(32, e.len());
    assert(pw(32, (e.len() + 1) as nat) == 32 * q);
    assert((lo + 32 * hi) * q == lo * q + hi * (32 * q)) by (nonlinear_arith);
}
proof fn lemma_enc_last(d: Seq<u8>, e: Seq<u8>, buffer: u32, bits: u32)
    requires mid(d, 0, e, buffer, bits), bits < 5
    ensures (buffer & 0x1F) == buffer, buffer < 32,
        is_chars(e.push(prop_alpha(buffer as nat))), val(digs(e.push(prop_alpha(buffer as nat))), 32) == n256(d),
        bits == 0 ==> val(digs(e), 32) == n256(d)
{
    lemma_p2();
    assert(buffer < 32 ==> (buffer & 0x1F) == buffer) by (bit_vector);
    lemma_alpha(buffer as nat);
    lemma_digs_push(e, prop_alpha(buffer as nat));
    lemma_push(digs(e), buffer as nat, 32);
    assert(suf(d, 0) =~= d);
    if bits == 0 { assert(buffer == 0); assert(0 * pw(32, e.len()) == 0); }
}
proof fn lemma_alpha_inv(c: u8) requires dig(c) < 32, prop_alpha(dig(c)) == c ensures (dig(c) == 0) == (c == 48), c < 128 {}
proof fn lemma_pop_char(m: Seq<u8>)
    requires is_chars(m), m.len() > 0, m.last() == 48
    ensures is_chars(m.drop_last()), val(digs(m.drop_last()), 32) == val(digs(m), 32)
{
    assert(digs(m).drop_last() =~= digs(m.drop_last()));
    assert(digs(m).last() == dig(m.last()));
    lemma_pop_zero(digs(m), 32);
}
proof fn lemma_pop_byte(m: Seq<u8>)
    requires m.len() > 0, m.last() == 0
    ensures val(byts(m.drop_last()), 256) == val(byts(m), 256)
{
    assert(byts(m).drop_last() =~= byts(m.drop_last()));
    lemma_pop_zero(byts(m), 256);
}
proof fn lemma_chars_canon(m: Seq<u8>)
    requires is_chars(m), m.len() > 0 ==> m.last() != 48
    ensures canon(digs(m), 32)
{
    if m.len() > 0 { lemma_alpha_inv(m.last()); assert(digs(m).last() == dig(m.last())); }
}
proof fn lemma_byts_canon(m: Seq<u8>)
    requires m.len() > 0 ==> m.last() != 0
    ensures canon(byts(m), 256)
{
    if m.len() > 0 { assert(byts(m).last() == m.last() as nat); }
}
/// the first `k` of `d` satisfy `z`, and so far `k` markers were pushed
proof fn lemma_lead_step(d: Seq<u8>, k: int, z: spec_fn(u8) -> bool)
    requires 0 <= k < d.len()
    ensures lead(suf(d, k), z) == (if z(d[k]) { 1 + lead(suf(d, k + 1), z) } else { 0 })
{
    assert(suf(d, k).drop_first() =~= suf(d, k + 1));
    assert(suf(d, k)[0] == d[k]);
}
pub open spec fn enc_tail(d: Seq<u8>, m: Seq<u8>) -> bool {
    is_chars(m) && canon(digs(m), 32) && val(digs(m), 32) == n256(d)
}
proof fn lemma_assemble(e: Seq<u8>, m: Seq<u8>, n: nat, c: u8)
    requires e == m + zeros(n, c)
    ensures e.reverse() == zeros(n, c) + m.reverse()
{ assert(e.reverse() =~= zeros(n, c) + m.reverse()); }
proof fn lemma_zeros_push(m: Seq<u8>, n: nat, c: u8)
    ensures (m + zeros(n, c)).push(c) == m + zeros(n + 1, c)
{ assert((m + zeros(n, c)).push(c) =~= m + zeros(n + 1, c)); }

// ---------- decode
pub open spec fn all_digits(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i]) < 32 }
pub open spec fn dmid(s: Seq<u8>, i: int, e: Seq<u8>, carry: u16, bits: u32) -> bool {
    &&& 5 * (s.len() - i) == 8 * e.len() + bits
    &&& carry < pw(2, bits as nat)
    &&& all_digits(suf(s, i))
    &&& val(byts(e), 256) + carry as nat * pw(256, e.len()) == n32(suf(s, i))
}
pub open spec fn dec_tail(s: Seq<u8>, m: Seq<u8>) -> bool { canon(byts(m), 256) && val(byts(m), 256) == n32(s) }
pub open spec fn dec_parts(s: Seq<u8>, out: Seq<u8>, m: Seq<u8>) -> bool {
    &&& dec_tail(s, m)
    &&& out == zeros(lead(s, |c: u8| zd(c)), 0) + m.reverse()
}
/// `out` is the number the c32 text `s` denotes, one zero byte per leading zero
pub open spec fn is_decoding(s: Seq<u8>, out: Seq<u8>) -> bool { exists|m: Seq<u8>| #[trigger] dec_parts(s, out, m) }
proof fn lemma_suffix32(d: Seq<u8>, i: int)
    requires 0 < i <= d.len()
    ensures n32(suf(d, i - 1)) == n32(suf(d, i)) + dig(d[i - 1]) * pw(32, (d.len() - i) as nat)
{
    let t = suf(d, i);
    let s = suf(d, i - 1);
    assert(digs(s.reverse()) =~= digs(t.reverse()).push(dig(d[i - 1])));
    lemma_push(digs(t.reverse()), dig(d[i - 1]), 32);
}
proof fn lemma_dec_char(s: Seq<u8>, i: int, e: Seq<u8>, carry: u16, bits: u32, v: u8)
    requires 0 < i <= s.len(), dmid(s, i, e, carry, bits), bits < 8, dig(s[i - 1]) == v, v < 32
    ensures dmid(s, i - 1, e, carry | ((v as u16) << bits), (bits + 5) as u32)
{
    lemma_or16(carry, v, bits);
    lemma_suffix32(s, i);
    assert(8 * e.len() + bits == 5 * (s.len() - i));
    lemma_p2(); lemma_pwb(8, e.len()); lemma_pwb(5, (s.len() - i) as nat); lemma_pw(2, 8 * e.len(), bits as nat);
    let b = carry as nat; let x = v as nat; let q = pw(256, e.len()); let r = pw(2, bits as nat);
    assert(pw(32, (s.len() - i) as nat) == q * r);
    assert((b + x * r) * q == b * q + x * (q * r)) by (nonlinear_arith);
    assert forall|k: int| 0 <= k < suf(s, i - 1).len() implies dig(#[trigger] suf(s, i - 1)[k]) < 32 by {
        if k > 0 { assert(suf(s, i - 1)[k] == suf(s, i)[k - 1]); } else { assert(suf(s, i - 1)[0] == s[i - 1]); }
    }
}
proof fn lemma_dec_byte(s: Seq<u8>, i: int, e: Seq<u8>, carry: u16, bits: u32)
    requires 0 <= i <= s.len(), dmid(s, i, e, carry, bits), 8 <= bits < 13
    ensures dmid(s, i, e.push((carry & 0xFF) as u8), carry >> 8u32, (bits - 8) as u32)
{
    lemma_split16(carry, bits);
    let lo = (carry & 0xFF) as nat; let hi = (carry >> 8u32) as nat;
    lemma_byts_push(e, (carry & 0xFF) as u8);
    lemma_push(byts(e), lo, 256);
    let q = pw(256, e.len());
    assert(pw(256, (e.len() + 1) as nat) == 256 * q);
    assert((lo + 256 * hi) * q == lo * q + hi * (256 * q)) by (nonlinear_arith);
}
proof fn lemma_dec_last(s: Seq<u8>, e: Seq<u8>, carry: u16, bits: u32)
    requires dmid(s, 0, e, carry, bits), bits < 8
    ensures carry < 256, all_digits(s), val(byts(e.push(carry as u8)), 256) == n32(s), bits == 0 ==> val(byts(e), 256) == n32(s)
{
    lemma_p2();
    lemma_byts_push(e, carry as u8);
    lemma_push(byts(e), carry as nat, 256);
    assert(suf(s, 0) =~= s);
    if bits == 0 { assert(carry == 0); assert(0 * pw(256, e.len()) == 0); }
}
proof fn lemma_zd(c: u8) ensures zd(c) == (c == 48 || c == 79 || c == 111) {}

// ---------- the two are inverse
proof fn lemma_app_zeros(s: Seq<nat>, n: nat, b: nat)
    ensures val(s + Seq::new(n, |i: int| 0nat), b) == val(s, b)
    decreases n
{
    if n == 0 { assert(s + Seq::new(0, |i: int| 0nat) =~= s); }
    else {
        let t = s + Seq::new(n, |i: int| 0nat);
        assert(t.drop_last() =~= s + Seq::new((n - 1) as nat, |i: int| 0nat));
        lemma_pop_zero(t, b);
        lemma_app_zeros(s, (n - 1) as nat, b);
    }
}
proof fn lemma_lead_zeros(n: nat, c: u8, t: Seq<u8>, z: spec_fn(u8) -> bool)
    requires z(c)
    ensures lead(zeros(n, c) + t, z) == n + lead(t, z)
    decreases n
{
    let s = zeros(n, c) + t;
    if n == 0 { assert(s =~= t); }
    else {
        assert(s[0] == c);
        assert(s.drop_first() =~= zeros((n - 1) as nat, c) + t);
        lemma_lead_zeros((n - 1) as nat, c, t, z);
    }
}
/// a sequence is its leading run followed by the rest
proof fn lemma_lead_split(s: Seq<u8>, z: spec_fn(u8) -> bool)
    ensures lead(s, z) <= s.len(), forall|i: int| 0 <= i < lead(s, z) ==> z(#[trigger] s[i]), lead(s, z) < s.len() ==> !z(s[lead(s, z) as int])
    decreases s.len()
{
    if s.len() > 0 && z(s[0]) {
        let t = s.drop_first();
        lemma_lead_split(t, z);
        assert forall|i: int| 0 <= i < lead(s, z) implies z(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if lead(s, z) < s.len() { assert(s[lead(s, z) as int] == t[lead(t, z) as int]); }
    }
}
proof fn lemma_byts_inj(a: Seq<u8>, b: Seq<u8>) requires byts(a) == byts(b) ensures a == b
{
    assert(a.len() == byts(a).len() && b.len() == byts(b).len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(byts(a)[i] == a[i] as nat); assert(byts(b)[i] == b[i] as nat); }
    assert(a =~= b);
}
/// an encoding is canonical, has as many leading zero digits as there are
/// leading zero bytes, and denotes the same number
proof fn lemma_enc_shape(d: Seq<u8>, o: Seq<u8>)
    requires is_encoding(d, o)
    ensures all_digits(o), lead(o, |c: u8| zd(c)) == lead(d, |c: u8| zb(c)), n32(o) == n256(d)
{
    let m = choose|m: Seq<u8>| enc_parts(d, o, m);
    let df = |c: u8| zd(c);
    let z = lead(d, |c: u8| zb(c));
    assert forall|i: int| 0 <= i < o.len() implies dig(#[trigger] o[i]) < 32 by {
        if i >= z { let k = m.len() - 1 - (i - z); assert(o[i] == m[k]); } else { assert(o[i] == 48); }
    }
    assert(o.reverse() =~= m + zeros(z, 48));
    assert(digs(o.reverse()) =~= digs(m) + Seq::new(z, |i: int| 0nat));
    lemma_app_zeros(digs(m), z, 32);
    lemma_lead_zeros(z, 48, m.reverse(), df);
    if m.len() > 0 { assert(digs(m).last() == dig(m.last())); assert(m.reverse()[0] == m.last()); }
    assert(lead(m.reverse(), df) == 0);
}
/// the bytes after the leading zeros are canonical and denote the same number
proof fn lemma_bytes_shape(d: Seq<u8>, z: nat)
    requires z == lead(d, |c: u8| zb(c))
    ensures z <= d.len(), canon(byts(suf(d, z as int).reverse()), 256), val(byts(suf(d, z as int).reverse()), 256) == n256(d),
        forall|i: int| 0 <= i < z ==> #[trigger] d[i] == 0
{
    let zf = |c: u8| zb(c);
    lemma_lead_split(d, zf);
    let rest = suf(d, z as int);
    let k = rest.reverse();
    if k.len() > 0 { assert(k.last() == rest[0]); assert(rest[0] == d[z as int]); assert(!zf(d[z as int])); }
    lemma_byts_canon(k);
    assert forall|i: int| 0 <= i < z implies #[trigger] d[i] == 0 by { assert(zf(d[i])); }
    assert(byts(d.reverse()) =~= byts(k) + Seq::new(z, |i: int| 0nat));
    lemma_app_zeros(byts(k), z, 256);
}
/// decoding what was encoded gives it back
pub proof fn theorem_round_trip(d: Seq<u8>, o: Seq<u8>, r: Seq<u8>)
    requires is_encoding(d, o), all_digits(o) ==> is_decoding(o, r)
    ensures all_digits(o), r == d
{
    lemma_enc_shape(d, o);
    let m2 = choose|m2: Seq<u8>| dec_parts(o, r, m2);
    let z = lead(d, |c: u8| zb(c));
    lemma_bytes_shape(d, z);
    let k = suf(d, z as int).reverse();
    lemma_unique(byts(m2), byts(k), 256);
    lemma_byts_inj(m2, k);
    assert(k.reverse() =~= suf(d, z as int));
    assert(r =~= d);
}
/// the canonical spelling of a c32 text
pub open spec fn canonical(s: Seq<u8>) -> Seq<u8> { s.map_values(|c: u8| prop_alpha(dig(c))) }
/// what a text decodes to has as many leading zero bytes as the text has
/// leading zero digits, and denotes the same number
proof fn lemma_dec_shape(s: Seq<u8>, r: Seq<u8>)
    requires is_decoding(s, r)
    ensures lead(r, |c: u8| zb(c)) == lead(s, |c: u8| zd(c)), n256(r) == n32(s)
{
    let m2 = choose|m2: Seq<u8>| dec_parts(s, r, m2);
    let zf = |c: u8| zb(c);
    let z = lead(s, |c: u8| zd(c));
    lemma_lead_zeros(z, 0, m2.reverse(), zf);
    if m2.len() > 0 { assert(byts(m2).last() == m2.last() as nat); assert(m2.reverse()[0] == m2.last()); }
    assert(lead(m2.reverse(), zf) == 0);
    assert(r.reverse() =~= m2 + zeros(z, 0));
    assert(byts(r.reverse()) =~= byts(m2) + Seq::new(z, |i: int| 0nat));
    lemma_app_zeros(byts(m2), z, 256);
}
/// the digits of a text after its leading zeros are canonical and denote the
/// same number
proof fn lemma_text_shape(s: Seq<u8>, z: nat)
    requires all_digits(s), z == lead(s, |c: u8| zd(c))
    ensures z <= s.len(), canon(digs(suf(s, z as int).reverse()), 32), val(digs(suf(s, z as int).reverse()), 32) == n32(s),
        forall|i: int| 0 <= i < z ==> dig(#[trigger] s[i]) == 0
{
    let df = |c: u8| zd(c);
    lemma_lead_split(s, df);
    let rest = suf(s, z as int);
    let k = rest.reverse();
    assert forall|i: int| 0 <= i < k.len() implies digs(k)[i] < 32 by { assert(k[i] == s[s.len() - 1 - i]); }
    if k.len() > 0 { assert(k.last() == rest[0]); assert(rest[0] == s[z as int]); assert(!df(s[z as int])); assert(digs(k).last() == dig(k.last())); }
    assert forall|i: int| 0 <= i < z implies dig(#[trigger] s[i]) == 0 by { assert(df(s[i])); }
    assert(digs(s.reverse()) =~= digs(k) + Seq::new(z, |i: int| 0nat));
    lemma_app_zeros(digs(k), z, 32);
}
proof fn lemma_digs_at(a: Seq<u8>, b: Seq<u8>, j: int)
    requires digs(a) == digs(b), 0 <= j < a.len()
    ensures a.len() == b.len(), dig(a[j]) == dig(b[j])
{
    assert(digs(a).len() == a.len() && digs(b).len() == b.len());
    assert(digs(a)[j] == dig(a[j])); assert(digs(b)[j] == dig(b[j]));
}
/// encoding what was decoded gives the canonical spelling: a text stands for
/// one byte string only, and differs from its encoding only in case and aliases
pub proof fn theorem_normal_form(s: Seq<u8>, r: Seq<u8>, o: Seq<u8>)
    requires all_digits(s), is_decoding(s, r), is_encoding(r, o)
    ensures o == canonical(s)
{
    let m = choose|m: Seq<u8>| enc_parts(r, o, m);
    let z = lead(s, |c: u8| zd(c));
    lemma_dec_shape(s, r);
    lemma_text_shape(s, z);
    let k = suf(s, z as int).reverse();
    lemma_unique(digs(m), digs(k), 32);
    assert(digs(m).len() == m.len() && digs(k).len() == k.len());
    assert(o.len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies o[i] == canonical(s)[i] by {
        if i < z { assert(o[i] == 48); assert(dig(s[i]) == 0); lemma_alpha(0); }
        else {
            let j = m.len() - 1 - (i - z);
            assert(o[i] == m[j]);
            lemma_digs_at(m, k, j);
            assert(k[j] == s[i]);
            assert(prop_alpha(dig(m[j])) == m[j]);
        }
    }
    assert(o =~= canonical(s));
}
