//! Assumed contract of `ripemd`: RIPEMD-160 is some function from byte strings
//! to 20 bytes (see the sha2 shim).
pub use sha2::{Digest, Output};
sha2::uninterp!(Ripemd160, 20);
