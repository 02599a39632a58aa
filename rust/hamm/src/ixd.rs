//! Instruction data, by instruction name (8-byte selector, borsh arguments).
use anchor_lang::prelude::*;
use world::Raw;
pub fn create_program_toll() -> Raw { Raw::new([0x8f, 0x6d, 0x86, 0xf0, 0xf6, 0x60, 0x9f, 0xa8]) }
pub fn create_discount_settings() -> Raw { Raw::new([0xb1, 0x7f, 0x21, 0x4d, 0x5c, 0xf0, 0xca, 0xac]) }
pub fn create_pool(amplifier: u64) -> Raw { Raw::new([0xe9, 0x92, 0xd1, 0x8e, 0xcf, 0x68, 0x40, 0xbc]).u64(amplifier) }
pub fn put_discount(user: Pubkey, discount: u64, valid_until: u64) -> Raw { Raw::new([0xfd, 0xf4, 0x42, 0x7e, 0x57, 0x33, 0x0b, 0xa4]).key(&user).u64(discount).u64(valid_until) }
pub fn set_pool_swap_fee(fee: u64) -> Raw { Raw::new([0x58, 0xa6, 0x6a, 0x58, 0x2f, 0xdb, 0xd0, 0x9c]).u64(fee) }
pub fn deposit_liquidity(max: &[(Pubkey, u64)]) -> Raw { Raw::new([0xf5, 0x63, 0x3b, 0x19, 0x97, 0x47, 0xe9, 0xf9]).list(max) }
pub fn redeem_liquidity(lp: u64, min: &[(Pubkey, u64)]) -> Raw { Raw::new([0xb4, 0x75, 0x8e, 0x89, 0xe3, 0xe1, 0x61, 0xd3]).u64(lp).list(min) }
pub fn swap(sell: u64, min_buy: u64) -> Raw { Raw::new([0xf8, 0xc6, 0x9e, 0x91, 0xe1, 0x75, 0x87, 0xc8]).u64(sell).u64(min_buy) }
