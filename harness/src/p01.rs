//! Uint<N> arithmetic is arithmetic modulo 2^(64N).
use core::cmp::Ordering;

use stacks_core::uint::Uint;

use crate::util::panics;

fn any<const N: usize>() -> ([u64; N], Uint<N>) {
    let w = nd::words::<N>();
    (w, Uint::from_u64_array(w))
}
fn same<const N: usize>(x: Uint<N>, w: &[u64; N]) -> bool {
    let v: Vec<u64> = x.into();
    let mut ok = v.len() == N;
    let mut i = 0;
    while i < N {
        ok &= v[i] == w[i];
        i += 1;
    }
    core::mem::forget(v);
    ok
}
/// a + b + carry, word by word, least significant first, carry out dropped
fn ref_add<const N: usize>(a: &[u64; N], b: &[u64; N], carry: bool) -> [u64; N] {
    let mut r = [0u64; N];
    let mut c = carry as u64;
    let mut i = 0;
    while i < N {
        let (s, c1) = a[i].overflowing_add(b[i]);
        let (s, c2) = s.overflowing_add(c);
        r[i] = s;
        c = (c1 | c2) as u64;
        i += 1;
    }
    r
}
fn ref_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    let mut c = 0u64;
    let mut i = 0;
    while i < N {
        let (s, c1) = a[i].overflowing_sub(b[i]);
        let (s, c2) = s.overflowing_sub(c);
        r[i] = s;
        c = (c1 | c2) as u64;
        i += 1;
    }
    r
}
fn ref_less<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut less = false;
    let mut i = 0;
    while i < N {
        less = (a[i] < b[i]) | ((a[i] == b[i]) & less);
        i += 1;
    }
    less
}
fn ref_mul_small<const N: usize>(a: &[u64; N], m: u32) -> [u64; N] {
    let mut r = [0u64; N];
    let mut c = 0u64;
    let mut i = 0;
    while i < N {
        // a[i] * m + c, in 32-bit halves
        let lo = m as u64 * (a[i] & 0xFFFFFFFF) + c;
        let hi = m as u64 * (a[i] >> 32) + (lo >> 32);
        r[i] = (hi << 32) | (lo & 0xffff_ffff);
        c = hi >> 32;
        i += 1;
    }
    r
}
fn ref_mul<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    for i in 0..N {
        let mut c = 0u128;
        for j in 0..N - i {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    r
}
fn word<const N: usize>(a: &[u64; N], i: isize) -> u64 {
    if i >= 0 && (i as usize) < N { a[i as usize] } else { 0 }
}
fn ref_shl<const N: usize>(a: &[u64; N], s: usize) -> [u64; N] {
    let (ws, bs) = ((s / 64) as isize, (s % 64) as u32);
    let mut r = [0u64; N];
    let mut i = 0;
    while i < N {
        let k = i as isize - ws;
        let w = ((word(a, k) as u128) << 64) | word(a, k - 1) as u128;
        r[i] = ((w << bs) >> 64) as u64;
        i += 1;
    }
    r
}
fn ref_shr<const N: usize>(a: &[u64; N], s: usize) -> [u64; N] {
    let (ws, bs) = ((s / 64) as isize, (s % 64) as u32);
    let mut r = [0u64; N];
    let mut i = 0;
    while i < N {
        let k = i as isize + ws;
        let w = ((word(a, k + 1) as u128) << 64) | word(a, k) as u128;
        r[i] = (w >> bs) as u64;
        i += 1;
    }
    r
}
fn ref_bits<const N: usize>(a: &[u64; N]) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < N {
        if a[i] != 0 {
            n = 64 * i + 64 - a[i].leading_zeros() as usize;
        }
        i += 1;
    }
    n
}
/// a shift amount around every boundary when searching, any when proving
fn shift(limit: usize) -> usize {
    let s = nd::u32() as usize;
    if cfg!(kani) {
        nd::assume(s < limit);
        s
    } else {
        s % limit
    }
}

fn add<const N: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    assert!(same(x + y, &ref_add(&a, &b, false)));
}
fn sub<const N: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    assert!(same(x - y, &ref_sub(&a, &b)));
}
fn inc<const N: usize>() {
    let (a, mut x) = any::<N>();
    x.increment();
    assert!(same(x, &ref_add(&a, &[0; N], true)));
}
fn logic<const N: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    let (and, or, xor, not) = (x & y, x | y, x ^ y, !x);
    let (mut p, mut q, mut r, mut s) = ([0; N], [0; N], [0; N], [0; N]);
    let mut i = 0;
    while i < N {
        p[i] = a[i] & b[i];
        q[i] = a[i] | b[i];
        r[i] = a[i] ^ b[i];
        s[i] = !a[i];
        i += 1;
    }
    assert!(same(and, &p) && same(or, &q) && same(xor, &r) && same(not, &s));
}
fn order<const N: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    let less = ref_less(&a, &b);
    let more = ref_less(&b, &a);
    let want = if less { Ordering::Less } else if more { Ordering::Greater } else { Ordering::Equal };
    assert!(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want));
    assert!((x == y) == (want == Ordering::Equal));
    assert!((x < y) == less && (x >= y) == !less);
}
fn measure<const N: usize>() {
    let (a, x) = any::<N>();
    assert!(x.bits() == ref_bits(&a));
    assert!(x.low_u64() == a[0] && x.low_u32() == a[0] as u32);
}
fn consts<const N: usize>() {
    assert!(same(Uint::<N>::MAX, &[u64::MAX; N]) && same(Uint::<N>::MIN, &[0; N]) && same(Uint::<N>::default(), &[0; N]));
}
fn shl<const N: usize>() {
    let (a, x) = any::<N>();
    let s = shift(64 * N + 65);
    assert!(same(x << s, &ref_shl(&a, s)));
}
fn shr<const N: usize>() {
    let (a, x) = any::<N>();
    let s = shift(64 * N + 65);
    assert!(same(x >> s, &ref_shr(&a, s)));
}
fn mul_u32<const N: usize>() {
    let (a, x) = any::<N>();
    let m = nd::u32();
    assert!(same(x.mul_u32(m), &ref_mul_small(&a, m)));
}
/// self = q * other + r with r < other
fn div_result<const N: usize>(a: &[u64; N], b: &[u64; N], q: &[u64; N]) -> bool {
    let back = ref_mul(q, b);
    // q * b does not exceed a, and what is left is smaller than b
    // (an overflowing product would have to leave a remainder >= b)
    let rem = ref_sub(a, &back);
    !ref_less(a, &back) && ref_less(&rem, b) && ref_bits(q) + ref_bits(b) <= 64 * N + 1
}

proof!(add_256, 40, add::<4>());
proof!(t_add_512, 40, add::<8>());
proof!(sub_256, 40, sub::<4>());
proof!(t_sub_512, 40, sub::<8>());
proof!(increment_256, 40, inc::<4>());
proof!(increment_512, 40, inc::<8>());
proof!(logic_256, 40, logic::<4>());
proof!(logic_512, 40, logic::<8>());
proof!(order_256, 40, order::<4>());
proof!(order_512, 70, order::<8>());
proof!(measure_256, 40, measure::<4>());
proof!(measure_512, 40, measure::<8>());
proof!(consts_256_512, 40, { consts::<4>(); consts::<8>(); });
proof!(shl_256, 40, shl::<4>());
proof!(shr_256, 40, shr::<4>());
proof!(t_shl_512, 40, shl::<8>());
proof!(t_shr_512, 40, shr::<8>());
proof!(mul_u32_256, 40, mul_u32::<4>());
proof!(t_mul_u32_512, 40, mul_u32::<8>());

// sampled against schoolbook arithmetic
proof!(n_mul_256, 40, { let ((a, x), (b, y)) = (any::<4>(), any::<4>()); assert!(same(x * y, &ref_mul(&a, &b))); });
proof!(n_mul_512, 40, { let ((a, x), (b, y)) = (any::<8>(), any::<8>()); assert!(same(x * y, &ref_mul(&a, &b))); });
fn div<const N: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    let drop = nd::u32() as usize % (64 * N);
    let (b, y) = (ref_shr(&b, drop), y >> drop);
    nd::assume(ref_bits(&b) > 0);
    let q: Vec<u64> = (x / y).into();
    let mut w = [0u64; N];
    w.copy_from_slice(&q);
    assert!(div_result(&a, &b, &w));
    assert!(panics(move || { let _ = x / Uint::<N>::MIN; }));
}
proof!(n_div_256, 40, div::<4>());
proof!(n_div_512, 40, div::<8>());

/// contract of mul_u32 as an uninterpreted function, for its callers
#[cfg(kani)]
static mut TAB: [(u32, [u64; 4]); 8] = [(0, [0; 4]); 8];
#[cfg(kani)]
static mut USED: usize = 0;
#[cfg(kani)]
fn mul_u32_contract<const N: usize>(_x: Uint<N>, m: u32) -> Uint<N> {
    let v = nd::words::<N>();
    unsafe {
        assert!(USED < 8);
        let mut k = 0;
        while k < 4 { TAB[USED].1[k] = v[k]; k += 1; }
        TAB[USED].0 = m;
        USED += 1;
    }
    Uint::from_u64_array(v)
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(40)]
#[kani::stub(stacks_core::uint::Uint::mul_u32, mul_u32_contract)]
fn m_mul_256() {
    let ((a, x), (b, y)) = (any::<4>(), any::<4>());
    let r = x * y;
    let mut want = [0u64; 4];
    let mut i = 0;
    while i < 8 {
        let (m, v) = unsafe { TAB[i] };
        assert!(m == (b[i / 2] >> (32 * (i % 2))) as u32);
        want = ref_add(&want, &ref_shl(&v, 32 * i), false);
        i += 1;
    }
    assert!(same(r, &want));
    nd::reached();
}

/// quotient below 2^(K+1): at most K+1 rounds of the long division
fn div_small<const N: usize, const K: usize>() {
    let ((a, x), (b, y)) = (any::<N>(), any::<N>());
    let (na, nb) = (ref_bits(&a), ref_bits(&b));
    nd::assume(nb > 0 && na <= nb + K);
    let q: Vec<u64> = (x / y).into();
    let mut w = [0u64; N];
    let mut i = 0;
    while i < N { w[i] = q[i]; i += 1; }
    core::mem::forget(q);
    assert!(w[0] >> (K + 1) == 0);
    let mut i = 1;
    while i < N { assert!(w[i] == 0); i += 1; }
    // a - q * b, with q * b as a sum of shifted copies, in [0, b)
    let mut rest = a;
    let mut i = 0;
    while i <= K {
        let k = K - i;
        if (w[0] >> k) & 1 == 1 {
            let t = ref_shl(&b, k);
            assert!(ref_bits(&b) + k <= 64 * N && !ref_less(&rest, &t));
            rest = ref_sub(&rest, &t);
        }
        i += 1;
    }
    assert!(ref_less(&rest, &b));
}
proof!(t_b_div_256_k0, 6, div_small::<4, 0>());
proof!(t_b_div_256_k1, 6, div_small::<4, 1>());
proof!(b_div_128_k1, 6, div_small::<2, 1>());
proof!(b_div_64_k3, 6, div_small::<1, 3>());
