//! Assumed contract of `sha2`: SHA-256 is some function from byte strings to
//! 32 bytes. Nothing else is assumed: every new input gets an arbitrary
//! output, a repeated input gets the same output.
#[doc(hidden)]
#[macro_export]
macro_rules! uninterp {
    ($name:ident, $n:expr) => {
        // (input, its length, output); a fixed table keeps the lengths and
        // addresses constant for the verifier
        static mut TABLE: [(*const u8, usize, [u8; $n]); 12] = [(core::ptr::null(), 0, [0; $n]); 12];
        static mut USED: usize = 0;

        fn apply(data: &[u8]) -> [u8; $n] {
            unsafe {
                let mut i = 0;
                while i < USED {
                    if TABLE[i].1 == data.len() {
                        let p = TABLE[i].0;
                        let mut same = true;
                        let mut k = 0;
                        while k < data.len() {
                            let e = if k + 12 < data.len() { k + 12 } else { data.len() };
                            let mut j = k;
                            while j < e {
                                same &= *p.add(j) == data[j];
                                j += 1;
                            }
                            k += 12;
                        }
                        if same {
                            return TABLE[i].2;
                        }
                    }
                    i += 1;
                }
                assert!(USED < 12, "unsupported: hash table of the assumed contract is full");
                let out: [u8; $n] = $crate::fresh();
                let copy = data.to_vec();
                TABLE[USED] = (copy.as_ptr(), copy.len(), out);
                core::mem::forget(copy);
                USED += 1;
                out
            }
        }

        #[derive(Clone, Default)]
        pub struct $name(Vec<u8>);

        impl Digest for $name {
            type Out = Output<$n>;
            fn new() -> Self {
                $name(Vec::new())
            }
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref())
            }
            fn finalize(self) -> Output<$n> {
                Output(apply(&self.0))
            }
            fn digest(data: impl AsRef<[u8]>) -> Output<$n> {
                Output(apply(data.as_ref()))
            }
        }
    };
}

uninterp!(Sha256, 32);

#[cfg(kani)]
#[doc(hidden)]
pub fn fresh<const N: usize>() -> [u8; N] {
    kani::any()
}
#[cfg(not(kani))]
#[doc(hidden)]
pub fn fresh<const N: usize>() -> [u8; N] {
    unimplemented!()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Output<const N: usize>(pub [u8; N]);
impl<const N: usize> From<Output<N>> for [u8; N] {
    fn from(o: Output<N>) -> [u8; N] {
        o.0
    }
}
impl<const N: usize> AsRef<[u8]> for Output<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> std::ops::Deref for Output<N> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> Output<N> {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

pub trait Digest: Sized {
    type Out;
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Self::Out;
    fn digest(data: impl AsRef<[u8]>) -> Self::Out;
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        Self::new().chain_update(data)
    }
}
