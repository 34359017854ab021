//! One source of nondeterminism for every harness.
//!
//! Under Kani each call is a symbolic value, so the harness is a proof over
//! the full domain. Natively the same harness body runs on the real code with
//! either the bytes of a verifier counterexample (replay) or seeded random
//! values (search), which is how a failed obligation is turned into a failing
//! input.

#[cfg(kani)]
mod imp {
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(kani::any::<[u8; 4]>())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(kani::any::<[u8; 8]>())
    }
    pub fn words<const N: usize>() -> [u64; N] {
        let mut r = [0u64; N];
        let mut i = 0;
        while i < N {
            r[i] = u64();
            i += 1;
        }
        r
    }
    pub fn boolean() -> bool {
        kani::any::<u8>() & 1 == 1
    }
    /// uniform in 0..n
    pub fn below(n: usize) -> usize {
        let v = kani::any::<u8>() as usize;
        kani::assume(v < n);
        v
    }
    pub fn assume(b: bool) {
        kani::assume(b)
    }
    pub fn steer() -> bool {
        false
    }
    pub fn reached() {
        kani::cover!(true, "end of the harness is reachable");
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub enum Mode {
        /// bytes, position, whether steering choices are part of the bytes
        Replay(Vec<u8>, usize, bool),
        Random(u64),
    }
    thread_local! {
        static MODE: RefCell<Mode> = RefCell::new(Mode::Random(1));
        static LOG: RefCell<Vec<u8>> = RefCell::new(vec![]);
    }
    pub struct Rejected;

    pub fn set_replay(v: Vec<u8>, steered: bool) {
        MODE.with(|m| *m.borrow_mut() = Mode::Replay(v, 0, steered));
        LOG.with(|l| l.borrow_mut().clear());
    }
    pub fn set_random(seed: u64) {
        MODE.with(|m| *m.borrow_mut() = Mode::Random(seed | 1));
        LOG.with(|l| l.borrow_mut().clear());
    }
    pub fn log() -> Vec<u8> {
        LOG.with(|l| l.borrow().clone())
    }
    fn rnd(s: &mut u64) -> u64 {
        // splitmix64
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    const EDGE8: [u8; 14] =
        [0, 1, 2, 0xff, 0x7f, 0x80, 0xfe, b'0', b'Z', b'a', b'-', 20, 22, 5];
    fn fill(out: &mut [u8]) {
        MODE.with(|m| match &mut *m.borrow_mut() {
            Mode::Replay(v, p, _) => {
                for o in out.iter_mut() {
                    *o = v.get(*p).copied().unwrap_or(0);
                    *p += 1;
                }
            }
            Mode::Random(s) => {
                let style = rnd(s) % 8;
                let keep = rnd(s) as usize % (out.len() + 1);
                let n = out.len();
                for (i, o) in out.iter_mut().enumerate() {
                    let r = rnd(s);
                    *o = match style {
                        0 => 0,
                        1 => 0xff,
                        2 => EDGE8[(r % 14) as usize],
                        3 => {
                            if i < keep { 0 } else { r as u8 }
                        }
                        4 => {
                            if i + keep >= n { 0 } else { r as u8 }
                        }
                        5 => {
                            if i < keep { 0xff } else { r as u8 }
                        }
                        _ => r as u8,
                    };
                }
            }
        });
        LOG.with(|l| l.borrow_mut().extend_from_slice(out));
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        let mut b = [0u8; N];
        fill(&mut b);
        b
    }
    pub fn u8() -> u8 {
        bytes::<1>()[0]
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(bytes())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(bytes())
    }
    pub fn words<const N: usize>() -> [u64; N] {
        let mut r = [0u64; N];
        for x in r.iter_mut() {
            *x = u64();
        }
        r
    }
    pub fn boolean() -> bool {
        u8() & 1 == 1
    }
    /// Whether a search should narrow its random input to likely valid shapes
    /// (never during a proof or the replay of a verifier counterexample).
    pub fn steer() -> bool {
        let kind = MODE.with(|m| match &*m.borrow() {
            Mode::Random(_) => 0,
            Mode::Replay(_, _, steered) => 1 + *steered as u8,
        });
        match kind {
            0 => {
                let v = below(2);
                v == 1
            }
            2 => u8() == 1,
            _ => false,
        }
    }
    pub fn reached() {}
    /// uniform in 0..n
    pub fn below(n: usize) -> usize {
        let is_random = MODE.with(|m| matches!(&*m.borrow(), Mode::Random(_)));
        if is_random {
            let v = MODE.with(|m| match &mut *m.borrow_mut() {
                Mode::Random(s) => (rnd(s) >> 8) as usize % n,
                _ => unreachable!(),
            });
            LOG.with(|l| l.borrow_mut().push(v as u8));
            v
        } else {
            let v = u8() as usize;
            assume(v < n);
            v
        }
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Rejected);
        }
    }

    /// Runs `f` once under the current mode. Ok(true): held, Ok(false):
    /// input rejected by an assumption, Err: the failure message.
    pub fn run(f: fn()) -> Result<bool, String> {
        match std::panic::catch_unwind(f) {
            Ok(()) => Ok(true),
            Err(e) => {
                if e.is::<Rejected>() {
                    return Ok(false);
                }
                Err(if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                })
            }
        }
    }

    fn hexs(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect()
    }

    /// native driver: `replay NAME HEX`, `search NAME SEED MILLIS`, `list`
    pub fn main(reg: &[(&str, fn())]) -> ! {
        let a: Vec<String> = std::env::args().collect();
        let find = |n: &str| {
            reg.iter()
                .find(|(x, _)| *x == n)
                .unwrap_or_else(|| {
                    eprintln!("no harness {n}");
                    std::process::exit(3)
                })
                .1
        };
        match a.get(1).map(|s| s.as_str()) {
            Some("list") => {
                for (n, _) in reg {
                    println!("{n}");
                }
                std::process::exit(0)
            }
            Some(m @ ("replay" | "replay-search")) => {
                let f = find(&a[2]);
                set_replay(unhex(&a[3]), m == "replay-search");
                match run(f) {
                    Ok(true) => {
                        println!("HELD");
                        std::process::exit(0)
                    }
                    Ok(false) => {
                        println!("REJECTED");
                        std::process::exit(0)
                    }
                    Err(m) => {
                        println!("FAILED {}", m.replace('\n', " "));
                        std::process::exit(1)
                    }
                }
            }
            Some("search") => {
                std::panic::set_hook(Box::new(|_| {}));
                let f = find(&a[2]);
                let seed: u64 = a[3].parse().unwrap();
                let ms: u128 = a[4].parse().unwrap();
                let t0 = std::time::Instant::now();
                let (mut n, mut rej) = (0u64, 0u64);
                let mut s = seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xABCDEF;
                loop {
                    set_random(rnd(&mut s));
                    n += 1;
                    match run(f) {
                        Ok(true) => {}
                        Ok(false) => rej += 1,
                        Err(m) => {
                            println!("FAILED {} {}", hexs(&log()), m.replace('\n', " "));
                            std::process::exit(1)
                        }
                    }
                    if t0.elapsed().as_millis() > ms {
                        break;
                    }
                }
                println!("HELD {} {}", n, n - rej);
                std::process::exit(0)
            }
            _ => {
                eprintln!("usage: list | replay NAME HEX | search NAME SEED MS");
                std::process::exit(3)
            }
        }
    }
}

pub use imp::*;

/// Assumed contracts of core functions, as straight-line executable specs.
#[cfg(kani)]
pub mod stubs {
    #[allow(dead_code)]
    struct Utf8ErrorRepr {
        valid_up_to: usize,
        error_len: Option<u8>,
    }
    fn bad(valid_up_to: usize) -> core::str::Utf8Error {
        unsafe {
            core::mem::transmute(Utf8ErrorRepr { valid_up_to, error_len: None })
        }
    }
    /// Well-formed UTF-8 (Unicode table 3-7).
    pub const fn utf8_ok(v: &[u8]) -> bool {
        // need: continuation bytes still expected; lo..hi: range of the next
        let (mut need, mut lo, mut hi) = (0u8, 0x80u8, 0xBFu8);
        let mut i = 0;
        let mut ok = true;
        while i < v.len() {
            let b = v[i];
            if need > 0 {
                ok &= b >= lo && b <= hi;
                need -= 1;
                lo = 0x80;
                hi = 0xBF;
            } else if b < 0x80 {
            } else if b >= 0xC2 && b <= 0xDF {
                need = 1;
            } else if b >= 0xE0 && b <= 0xEF {
                need = 2;
                if b == 0xE0 {
                    lo = 0xA0
                }
                if b == 0xED {
                    hi = 0x9F
                }
            } else if b >= 0xF0 && b <= 0xF4 {
                need = 3;
                if b == 0xF0 {
                    lo = 0x90
                }
                if b == 0xF4 {
                    hi = 0x8F
                }
            } else {
                ok = false;
            }
            i += 1;
        }
        ok && need == 0
    }
    pub fn run_utf8_validation(v: &[u8]) -> Result<(), core::str::Utf8Error> {
        if utf8_ok(v) {
            Ok(())
        } else {
            Err(bad(0))
        }
    }
    /// `format!` text is dropped (used for error messages only).
    pub fn format(_: std::fmt::Arguments<'_>) -> String {
        String::new()
    }
}
