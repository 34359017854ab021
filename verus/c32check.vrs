// ---------- c32check: version, data, four bytes of double SHA-256
pub uninterp spec fn chk(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn checksum4(v: &[u8]) -> (r: Vec<u8>) ensures r@ == chk(v@), r@.len() == 4 { vec![] }
pub broadcast axiom fn axiom_chk_len(s: Seq<u8>) ensures #[trigger] chk(s).len() == 4;
#[verifier::external_body]
pub fn vec1(x: u8) -> (r: Vec<u8>) ensures r@ == seq![x] { vec![x] }
#[verifier::external_body]
pub fn extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn tail(v: &[u8], i: usize) -> (r: &[u8]) requires i <= v@.len() ensures r@ == v@.subrange(i as int, v@.len() as int) { &v[i..] }
#[verifier::external_body]
pub fn split_at(v: &[u8], i: usize) -> (r: (&[u8], &[u8])) requires i <= v@.len() ensures r.0@ == v@.subrange(0, i as int), r.1@ == v@.subrange(i as int, v@.len() as int) { v.split_at(i) }
#[verifier::external_body]
pub fn first(v: &[u8]) -> (r: u8) requires v@.len() > 0 ensures r == v@[0] { v[0] }
#[verifier::external_body]
pub fn same(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn to_vec(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
#[verifier::external_body]
pub fn prepend_s(mut v: Vec<u8>) -> (r: Vec<u8>) ensures r@ == seq![83u8] + v@ { v.insert(0, 83); v }
#[verifier::external_body]
pub fn starts_with(v: &[u8], c: u8) -> (r: bool) ensures r == (v@.len() > 0 && v@[0] == c) { v.first() == Some(&c) }
#[verifier::external_body]
pub fn insert_front(v: &mut Vec<u8>, c: u8) ensures final(v)@ == seq![c] + old(v)@ { v.insert(0, c) }
pub open spec fn vcode(v: AddressVersion) -> u8 {
    match v { AddressVersion::MainnetSingleSig => 22u8, AddressVersion::MainnetMultiSig => 20u8, AddressVersion::TestnetSingleSig => 26u8, AddressVersion::TestnetMultiSig => 21u8 }
}
#[verifier::external_body]
pub fn version_of(b: u8) -> (r: Result<AddressVersion, C32Error>) ensures match r { Ok(v) => vcode(v) == b, Err(_) => forall|v: AddressVersion| vcode(v) != b } { Err(C32Error::InvalidC32) }
proof fn lemma_vcode(a: AddressVersion, b: AddressVersion) ensures vcode(a) < 32, vcode(a) == vcode(b) ==> a == b {}

/// what is encoded: the data and the checksum of version and data
pub open spec fn body(v: AddressVersion, d: Seq<u8>) -> Seq<u8> { d + chk(seq![vcode(v)] + d) }
pub open spec fn check_enc(v: AddressVersion, d: Seq<u8>, out: Seq<u8>) -> bool {
    out.len() > 0 && out[0] == prop_alpha(vcode(v) as nat) && is_encoding(body(v, d), suf(out, 1))
}
pub open spec fn check_dec(s: Seq<u8>, v: AddressVersion, d: Seq<u8>) -> bool {
    s.len() > 0 && all_digits(s) && dig(s[0]) == vcode(v) && is_decoding(suf(s, 1), body(v, d))
}
pub open spec fn addr_enc(v: AddressVersion, d: Seq<u8>, out: Seq<u8>) -> bool {
    out.len() > 0 && out[0] == 83 && check_enc(v, d, suf(out, 1))
}
pub open spec fn addr_dec(s: Seq<u8>, v: AddressVersion, d: Seq<u8>) -> bool {
    s.len() > 5 && s[0] == 83 && check_dec(suf(s, 1), v, d)
}
proof fn lemma_dec_unique(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires is_decoding(s, a), is_decoding(s, b)
    ensures a == b
{
    let m = choose|m: Seq<u8>| dec_parts(s, a, m);
    let n = choose|n: Seq<u8>| dec_parts(s, b, n);
    lemma_unique(byts(m), byts(n), 256);
    lemma_byts_inj(m, n);
}
proof fn lemma_one(s: Seq<u8>, r: Seq<u8>)
    requires s.len() == 1, all_digits(s), is_decoding(s, r)
    ensures r == seq![dig(s[0]) as u8]
{
    let g = dig(s[0]);
    let x = seq![g as u8];
    let m = if g == 0 { Seq::<u8>::empty() } else { x };
    let zf = |c: u8| zd(c);
    assert(s.reverse() =~= s);
    assert(digs(s) =~= seq![g]);
    assert(seq![g].drop_first() =~= Seq::<nat>::empty());
    assert(val(Seq::<nat>::empty(), 32) == 0);
    assert(val(seq![g], 32) == g + 32 * 0);
    assert(n32(s) == g);
    assert(s.drop_first() =~= Seq::<u8>::empty());
    assert(lead(s.drop_first(), zf) == 0);
    assert(lead(s, zf) == if g == 0 { 1nat } else { 0nat });
    if g == 0 {
        assert(byts(m) =~= Seq::<nat>::empty());
        assert(zeros(1, 0) + m.reverse() =~= x);
    } else {
        assert(byts(m) =~= seq![g]);
        assert(val(Seq::<nat>::empty(), 256) == 0);
        assert(val(seq![g], 256) == g + 256 * 0);
        assert(zeros(0, 0) + m.reverse() =~= x);
    }
    assert(dec_parts(s, x, m));
    lemma_dec_unique(s, r, x);
}
proof fn lemma_split_digits(s: Seq<u8>)
    requires s.len() > 0
    ensures all_digits(s) <==> all_digits(s.subrange(0, 1)) && all_digits(suf(s, 1))
{
    let a = s.subrange(0, 1); let b = suf(s, 1);
    if all_digits(a) && all_digits(b) {
        assert forall|i: int| 0 <= i < s.len() implies dig(#[trigger] s[i]) < 32 by {
            if i == 0 { assert(a[0] == s[0]); } else { assert(b[i - 1] == s[i]); }
        }
    }
    if all_digits(s) {
        assert forall|i: int| 0 <= i < a.len() implies dig(#[trigger] a[i]) < 32 by { assert(a[i] == s[i]); }
        assert forall|i: int| 0 <= i < b.len() implies dig(#[trigger] b[i]) < 32 by { assert(b[i] == s[i + 1]); }
    }
}
/// what the two halves of a text decode to settles whether, and as what, the
/// whole is accepted
proof fn lemma_check_dec(s: Seq<u8>, rv: Seq<u8>, r: Seq<u8>)
    requires s.len() > 0, all_digits(s), is_decoding(s.subrange(0, 1), rv), is_decoding(suf(s, 1), r)
    ensures rv == seq![dig(s[0]) as u8],
        forall|v: AddressVersion, d: Seq<u8>| #[trigger] check_dec(s, v, d) ==> rv[0] == vcode(v) && r == body(v, d) && r.len() == d.len() + 4
            && r.subrange(0, r.len() - 4) == d && r.subrange(r.len() - 4, r.len() as int) == chk(seq![rv[0]] + d),
        forall|v: AddressVersion| vcode(v) == rv[0] && r.len() >= 4
            && r.subrange(r.len() - 4, r.len() as int) == chk(seq![rv[0]] + r.subrange(0, r.len() - 4))
            ==> #[trigger] check_dec(s, v, r.subrange(0, r.len() - 4))
{
    broadcast use axiom_chk_len;
    lemma_split_digits(s);
    assert(s.subrange(0, 1)[0] == s[0]);
    lemma_one(s.subrange(0, 1), rv);
    assert forall|v: AddressVersion, d: Seq<u8>| #[trigger] check_dec(s, v, d) implies rv[0] == vcode(v) && r == body(v, d) && r.len() == d.len() + 4
        && r.subrange(0, r.len() - 4) == d && r.subrange(r.len() - 4, r.len() as int) == chk(seq![rv[0]] + d) by {
        lemma_dec_unique(suf(s, 1), r, body(v, d));
        assert(r.subrange(0, r.len() - 4) =~= d);
        assert(r.subrange(r.len() - 4, r.len() as int) =~= chk(seq![vcode(v)] + d));
    }
    if r.len() >= 4 {
        let d = r.subrange(0, r.len() - 4); let c = r.subrange(r.len() - 4, r.len() as int);
        assert(d + c =~= r);
    }
}
/// decoding accepts exactly what was encoded, and returns it
pub proof fn theorem_check_round_trip(v: AddressVersion, d: Seq<u8>, out: Seq<u8>)
    requires check_enc(v, d, out)
    ensures check_dec(out, v, d)
{
    lemma_vcode(v, v);
    lemma_alpha(vcode(v) as nat);
    let o = suf(out, 1);
    lemma_enc_shape(body(v, d), o);
    assert(out.subrange(0, 1) =~= seq![out[0]]);
    lemma_split_digits(out);
    lemma_dec_exists(o);
    let r = choose|r: Seq<u8>| is_decoding(o, r);
    theorem_round_trip(body(v, d), o, r);
}
/// every text of digits decodes to something (the canonical bytes of its number)
proof fn lemma_dec_exists(s: Seq<u8>)
    ensures exists|r: Seq<u8>| is_decoding(s, r)
{
    let m = bytes_of(n32(s));
    lemma_bytes_of(n32(s));
    let r = zeros(lead(s, |c: u8| zd(c)), 0) + m.reverse();
    assert(dec_parts(s, r, m));
    assert(is_decoding(s, r));
}
pub open spec fn bytes_of(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { seq![(n % 256) as u8] + bytes_of(n / 256) } }
proof fn lemma_bytes_of(n: nat)
    ensures canon(byts(bytes_of(n)), 256), val(byts(bytes_of(n)), 256) == n
    decreases n
{
    let s = bytes_of(n);
    if n == 0 { assert(byts(s) =~= Seq::<nat>::empty()); }
    else {
        let t = bytes_of(n / 256);
        lemma_bytes_of(n / 256);
        assert(byts(s) =~= seq![n % 256] + byts(t));
        assert(byts(s).drop_first() =~= byts(t));
        assert(byts(s)[0] == n % 256);
        assert(val(byts(s), 256) == n % 256 + 256 * (n / 256));
        if t.len() == 0 { assert(val(byts(t), 256) == 0) by { assert(byts(t) =~= Seq::<nat>::empty()); } assert(n / 256 == 0); assert(n % 256 == n); assert(byts(s).last() == byts(s)[0]); }
        else { assert(byts(s).last() == byts(t).last()); }
    }
}
/// and what it accepts differs from its encoding in case and aliases only
pub proof fn theorem_check_normal_form(s: Seq<u8>, v: AddressVersion, d: Seq<u8>, out: Seq<u8>)
    requires check_dec(s, v, d), check_enc(v, d, out)
    ensures out == canonical(s)
{
    lemma_split_digits(s);
    theorem_normal_form(suf(s, 1), body(v, d), suf(out, 1));
    assert(suf(out, 1) == canonical(suf(s, 1)));
    assert(out.len() == s.len()) by { assert(suf(out, 1).len() == canonical(suf(s, 1)).len()); }
    assert forall|i: int| 0 <= i < s.len() implies out[i] == canonical(s)[i] by {
        if i > 0 { assert(out[i] == suf(out, 1)[i - 1]); assert(canonical(suf(s, 1))[i - 1] == prop_alpha(dig(suf(s, 1)[i - 1]))); }
    }
    assert(out =~= canonical(s));
}
/// changing version or data changes the text
pub proof fn theorem_check_injective(v: AddressVersion, d: Seq<u8>, w: AddressVersion, e: Seq<u8>, out: Seq<u8>)
    requires check_enc(v, d, out), check_enc(w, e, out)
    ensures v == w, d == e
{
    broadcast use axiom_chk_len;
    theorem_check_round_trip(v, d, out);
    theorem_check_round_trip(w, e, out);
    lemma_vcode(v, w);
    lemma_dec_unique(suf(out, 1), body(v, d), body(w, e));
    assert(d =~= body(v, d).subrange(0, body(v, d).len() - 4));
    assert(e =~= body(w, e).subrange(0, body(w, e).len() - 4));
}
proof fn lemma_pw_mono(b: nat, m: nat, n: nat) requires b >= 1, m <= n ensures 1 <= pw(b, m) <= pw(b, n) decreases n {
    if n == 0 { }
    else if m == n { lemma_pw_mono(b, (m - 1) as nat, (n - 1) as nat); let p = pw(b, (n - 1) as nat); assert(b * p >= 1) by (nonlinear_arith) requires b >= 1, p >= 1; }
    else { lemma_pw_mono(b, m, (n - 1) as nat); let p = pw(b, (n - 1) as nat); assert(b * p >= p) by (nonlinear_arith) requires b >= 1, p >= 1; }
}
proof fn lemma_val_below(s: Seq<nat>, b: nat)
    requires b > 1, forall|i: int| 0 <= i < s.len() ==> s[i] < b
    ensures val(s, b) < pw(b, s.len())
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_val_below(t, b);
        let v = val(t, b); let p = pw(b, t.len());
        assert(s[0] + b * v < b * p) by (nonlinear_arith) requires s[0] < b, v + 1 <= p, b > 1;
    }
}
proof fn lemma_val_above(s: Seq<nat>, b: nat)
    requires b > 1, canon(s, b), s.len() > 0
    ensures val(s, b) >= pw(b, (s.len() - 1) as nat)
    decreases s.len()
{
    if s.len() == 1 { lemma_pos(s, b); assert(pw(b, 0) == 1); }
    else {
        let t = s.drop_first();
        assert(t.last() == s.last());
        lemma_val_above(t, b);
        let v = val(t, b); let p = pw(b, (t.len() - 1) as nat);
        assert(b * v >= b * p) by (nonlinear_arith) requires v >= p, b > 1;
    }
}
/// an encoding has at least as many characters as there are bytes
proof fn lemma_enc_len(d: Seq<u8>, o: Seq<u8>)
    requires is_encoding(d, o)
    ensures o.len() >= d.len()
{
    let m = choose|m: Seq<u8>| enc_parts(d, o, m);
    let z = lead(d, |c: u8| zb(c));
    lemma_bytes_shape(d, z);
    let k = suf(d, z as int).reverse();
    assert(byts(k).len() == k.len()); assert(digs(m).len() == m.len());
    lemma_val_below(digs(m), 32);
    if k.len() > 0 {
        lemma_val_above(byts(k), 256);
        if m.len() < k.len() {
            lemma_p2();
            lemma_pwb(5, m.len()); lemma_pwb(8, (k.len() - 1) as nat);
            lemma_pw_mono(2, 5 * m.len(), 8 * ((k.len() - 1) as nat));
        }
    }
}
pub proof fn theorem_address_round_trip(v: AddressVersion, d: Seq<u8>, out: Seq<u8>)
    requires addr_enc(v, d, out)
    ensures addr_dec(out, v, d)
{
    broadcast use axiom_chk_len;
    theorem_check_round_trip(v, d, suf(out, 1));
    lemma_enc_len(body(v, d), suf(suf(out, 1), 1));
}
