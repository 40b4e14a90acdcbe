//! Additional long-form documentation and reference material.

pub mod attribute {}
pub mod performance {}

#[cfg(all(doc, not(feature = "std")))]
use alloc::vec::Vec;
