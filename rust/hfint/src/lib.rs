#![allow(dead_code)]
#![allow(unused_imports, unused_must_use)]
//! Harness for the farming program's snapshot lookups, in a crate of its own:
//! unlike the others it calls the program's functions rather than its
//! instructions.
use anchor_lang::prelude::*;
#[path = "../../hfarm/src/util.rs"]
mod util;
#[path = "../../hfarm/src/ixd.rs"]
pub mod ixd;
mod look;
