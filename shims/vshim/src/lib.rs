//! The part of `std` the verified crates use, restated as small executable
//! contracts (`io`, `collections`); everything else is the real `std`.
//!
//! In the verification build a crate under proof sees this crate under the
//! name `std`. The contracts are those of the standard library documentation:
//! they are part of the trusted base.
pub use ::std::*;

pub mod collections {
    pub use ::std::collections::*;

    pub use crate::map::{BTreeMap, BTreeSet, HashMap, HashSet};
    pub mod hash_map {
        pub use crate::map::{Entry, HashMap};
    }
    pub mod btree_map {
        pub use crate::map::{BTreeMap, Entry};
    }
}

pub mod io;
mod map;

/// Stands for an error payload that was dropped.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Dropped;
pub fn dropped<T>(t: T) -> Dropped {
    ::core::mem::forget(t);
    Dropped
}
impl ::core::fmt::Display for Dropped {
    fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
        Ok(())
    }
}
impl ::std::error::Error for Dropped {}
