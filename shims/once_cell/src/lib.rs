//! Assumed contract of `once_cell`: a lazy value is its initialiser's result,
//! evaluated at most once (single-threaded).
pub mod sync {
    use std::cell::UnsafeCell;

    pub struct Lazy<T, F = fn() -> T> {
        cell: UnsafeCell<Option<T>>,
        init: F,
    }
    unsafe impl<T, F> Sync for Lazy<T, F> {}
    impl<T, F> Lazy<T, F> {
        pub const fn new(init: F) -> Self {
            Lazy { cell: UnsafeCell::new(None), init }
        }
    }
    impl<T, F: Fn() -> T> Lazy<T, F> {
        pub fn force(this: &Self) -> &T {
            let slot = unsafe { &mut *this.cell.get() };
            if slot.is_none() {
                *slot = Some((this.init)());
            }
            slot.as_ref().unwrap()
        }
    }
    impl<T, F: Fn() -> T> std::ops::Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for OnceCell<T> {}
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell(UnsafeCell::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            unsafe { &*self.0.get() }.as_ref()
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            let slot = unsafe { &mut *self.0.get() };
            if slot.is_none() {
                *slot = Some(f());
            }
            slot.as_ref().unwrap()
        }
    }
}
pub mod unsync {
    pub use super::sync::{Lazy, OnceCell};
}
