//! Instruction data, by instruction name (8-byte selector, borsh arguments).
use anchor_lang::prelude::*;
use world::Raw;
pub fn create_farm() -> Raw { Raw::new([0x4a, 0x3b, 0x80, 0xa0, 0x57, 0xae, 0x99, 0xc2]) }
pub fn add_harvest() -> Raw { Raw::new([0x30, 0x0e, 0x17, 0x48, 0x41, 0x2f, 0x1f, 0x4a]) }
pub fn remove_harvest(harvest_mint: Pubkey) -> Raw { Raw::new([0x5e, 0xce, 0x86, 0x76, 0x17, 0x65, 0x1b, 0x2e]).key(&harvest_mint) }
pub fn set_farm_owner() -> Raw { Raw::new([0x73, 0x4d, 0xca, 0x85, 0xef, 0xa7, 0xc0, 0x25]) }
pub fn new_harvest_period(harvest_mint: Pubkey, starts_at: u64, len: u64, tps: u64) -> Raw { Raw::new([0x0d, 0x05, 0x22, 0xaf, 0x43, 0x4e, 0x1a, 0x30]).key(&harvest_mint).u64(starts_at).u64(len).u64(tps) }
pub fn take_snapshot() -> Raw { Raw::new([0xb7, 0xd2, 0xfb, 0x44, 0x8c, 0x84, 0xbf, 0x8c]) }
pub fn set_min_snapshot_window(slots: u64) -> Raw { Raw::new([0x11, 0xe8, 0x95, 0x5e, 0x4e, 0x95, 0x7c, 0x1d]).u64(slots) }
pub fn create_farmer() -> Raw { Raw::new([0x4f, 0x49, 0xe0, 0x67, 0x87, 0x5d, 0x1e, 0x09]) }
pub fn close_farmer() -> Raw { Raw::new([0x0f, 0xac, 0x5b, 0xcb, 0x78, 0x17, 0xca, 0xf6]) }
pub fn start_farming(stake: u64) -> Raw { Raw::new([0x96, 0xcd, 0xb9, 0x6d, 0x61, 0xca, 0x44, 0x6e]).u64(stake) }
pub fn stop_farming(max: u64) -> Raw { Raw::new([0xa4, 0x3a, 0x7c, 0xea, 0x27, 0xf2, 0x16, 0x7e]).u64(max) }
pub fn update_eligible_harvest() -> Raw { Raw::new([0x75, 0xc2, 0x83, 0x09, 0xcd, 0x78, 0x22, 0x34]) }
pub fn update_eligible_harvest_until(until: u64) -> Raw { Raw::new([0xb6, 0xa1, 0xa0, 0x58, 0xda, 0xad, 0xbe, 0x53]).u64(until) }
pub fn claim_eligible_harvest() -> Raw { Raw::new([0x37, 0xdd, 0xfe, 0x7d, 0x62, 0x43, 0x43, 0xbd]) }
pub fn whitelist_farm_for_compounding() -> Raw { Raw::new([0x93, 0x88, 0x24, 0xdb, 0x55, 0x3b, 0x84, 0x2b]) }
pub fn dewhitelist_farm_for_compounding() -> Raw { Raw::new([0x17, 0xd8, 0xb0, 0xb4, 0xdd, 0x09, 0x9b, 0x64]) }
pub fn compound_same_farm() -> Raw { Raw::new([0x24, 0xe5, 0x07, 0xc6, 0x53, 0x5a, 0xbd, 0xbd]) }
pub fn compound_across_farms() -> Raw { Raw::new([0xc8, 0x08, 0xc0, 0xa1, 0x9d, 0x2f, 0xde, 0x91]) }
pub fn airdrop(amount: u64) -> Raw { Raw::new([0x71, 0xad, 0x24, 0xee, 0x26, 0x98, 0x16, 0x75]).u64(amount) }
