#![allow(dead_code)]
#![allow(unused_imports, unused_must_use)]
//! Harnesses for the farming program.
#[allow(unused_imports)]
use anchor_lang::prelude::*;
mod util;
pub mod ixd;
mod snap;
mod harvest;
mod period;
mod compound;
mod solv;
mod admin;
mod stake;
mod hist;
