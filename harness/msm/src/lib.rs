//! The digit extraction of the multiscalar multiplication: msm.rs is copied from /repo/groth16 and a wrapper appended.
#![allow(clippy::all, dead_code)]
mod msm;
