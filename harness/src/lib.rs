//! Entry points that the symbolic engine executes (and that the replay step
//! calls natively).  `prop` wraps the public API of the crate under test,
//! `spec` holds the reference equations and does not depend on it.
#![allow(clippy::all)]
#[cfg(feature = "full")]
pub mod omm;
pub mod prop;
pub mod spec;
#[cfg(feature = "full")]
pub mod les;
#[cfg(feature = "full")]
pub mod time;
#[cfg(feature = "full")]
pub mod tle;
