//! The truncation of a digest and the conversions between the two scalar fields: hash.rs, hash/helper.rs and driver.rs are
//! copied from /repo/nova and wrappers appended.
#![allow(clippy::all, dead_code)]
mod driver;
mod hash;
