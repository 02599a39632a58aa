#![allow(dead_code)]
#![allow(unused_imports, unused_must_use)]
//! Harnesses for the AMM program.
use anchor_lang::prelude::*;
pub mod ixd;
mod util;
mod liq;
mod admin;
mod swap;
mod stable;
mod inv;
mod att;
