//! Proof harnesses for rekordcrate. See ../../DESIGN.md.
#![feature(core_io_internals, core_io)]
#![cfg(kani)]
#![allow(dead_code, unused_imports, static_mut_refs)]
extern crate alloc;

mod common;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "playback")]
mod playback;
