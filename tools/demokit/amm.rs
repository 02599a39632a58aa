use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_error::ProgramError;
pub use amm::models::*;
pub use amm::{accounts as ac, ID};
pub use crate::world::*;

pub const ADMIN: Pubkey = key(20);
pub const USER: Pubkey = key(40);
pub const OTHER: Pubkey = key(41);
pub const POOL: Pubkey = key(1);
pub const POOL2: Pubkey = key(2);
pub const LP: Pubkey = key(60);
pub const LP2: Pubkey = key(61);
pub const TOLLW: Pubkey = key(62);
pub const LPW: Pubkey = key(63); // user's LP wallet
pub const TOLLA: Pubkey = key(64); // program toll authority
pub const DISCA: Pubkey = key(65); // discount settings authority
pub use anchor_lang::solana_program::system_program::ID as SYS;
pub use anchor_spl::token::ID as TOKEN;
pub const WAD: u64 = 1_000_000_000_000_000_000;

pub type R = std::result::Result<(), ProgramError>;

/// reserve mints; in ascending and in descending order of address
pub fn mint_of(i: usize) -> Pubkey { key(30 + i as u8) }
pub fn vault_of(i: usize) -> Pubkey { key(70 + i as u8) }
pub fn wallet_of(i: usize) -> Pubkey { key(80 + i as u8) }
pub fn signer_pda(p: &Pubkey) -> Pubkey { pda(&ID, &[b"signer", p.as_ref()]) }
pub fn toll_pda() -> Pubkey { pda(&ID, &[b"toll"]) }
pub fn settings_pda() -> Pubkey { pda(&ID, &[b"discount_settings"]) }
pub fn discount_pda(u: &Pubkey) -> Pubkey { pda(&ID, &[b"discount", u.as_ref()]) }
pub fn t(x: u64) -> TokenAmount { TokenAmount::new(x) }
pub fn s(x: u64) -> Slot { Slot::new(x) }
pub fn pm(x: u64) -> Permillion { Permillion { permillion: x } }
pub fn min(a: u64, b: u64) -> u64 { if a < b { a } else { b } }
pub fn max(a: u64, b: u64) -> u64 { if a < b { b } else { a } }

pub fn ser<T: AccountSerialize>(x: &T, space: usize) -> &'static mut [u8] {
    let mut v = Vec::with_capacity(space + 64);
    x.try_serialize(&mut v).unwrap();
    let n = v.len();
    if n < space { v.extend_from_slice(&vec![0u8; space - n]); }
    buf(&v)
}
/// a pool whose reserve `i` has mint `order[i]` and holds `res[i]` tokens
pub fn pool_of(p: Pubkey, lp: Pubkey, order: &[usize], res: &[u64], fee: u64) -> Pool {
    let mut x = Pool { admin: ADMIN, signer: signer_pda(&p), mint: lp, program_toll_wallet: TOLLW, dimension: res.len() as u64, swap_fee: pm(fee), ..Default::default() };
    for (i, r) in res.iter().enumerate() {
        x.reserves[i] = Reserve { tokens: t(*r), mint: mint_of(order[i]), vault: vault_of(order[i]) };
    }
    x
}
pub fn pool_acc(p: Pubkey, x: &Pool) -> Info { info(p, ID, ser(x, Pool::space()), 1 << 40) }
pub fn de_pool(w: &World, p: &Pubkey) -> Pool {
    let i = w.get(p);
    let d = i.data.borrow();
    let mut s: &[u8] = &d;
    Pool::try_deserialize(&mut s).unwrap()
}
/// the pool, its LP mint and its vaults, which hold `extra` tokens more than the pool knows of
pub fn add_pool(w: &mut World, p: Pubkey, x: &Pool, supply: u64, extra: u64) {
    w.add(pool_acc(p, x));
    w.add(wallet(signer_pda(&p)));
    w.add(mint(x.mint, Some(signer_pda(&p)), None, supply));
    for r in x.reserves.iter().take(x.dimension as usize) { w.add(token(r.vault, r.mint, signer_pda(&p), r.tokens.amount + extra)); }
}
pub fn send<A: ToAccountMetas>(w: &World, a: A, extra: &[Pubkey], d: Raw) -> R {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let r = w.send(amm::entry, m, d.0);
    r
}
pub fn user(w: &mut World, k: Pubkey, signs: bool) { let i = wallet(k); w.add(signer(i, signs)); }
/// everything but reserves and curve
pub fn same_pool(a: &Pool, b: &Pool) -> bool {
    let mut ok = a.admin == b.admin && a.signer == b.signer && a.mint == b.mint && a.program_toll_wallet == b.program_toll_wallet && a.dimension == b.dimension && (a.swap_fee.permillion == b.swap_fee.permillion);
    for i in 0..4 { ok &= a.reserves[i].mint == b.reserves[i].mint && a.reserves[i].vault == b.reserves[i].vault; }
    ok
}


/// Instruction data, by instruction name (8-byte selector, borsh arguments).
pub mod ix {
    use super::*;
    pub fn create_program_toll() -> Raw { Raw::new([0x8f, 0x6d, 0x86, 0xf0, 0xf6, 0x60, 0x9f, 0xa8]) }
    pub fn create_discount_settings() -> Raw { Raw::new([0xb1, 0x7f, 0x21, 0x4d, 0x5c, 0xf0, 0xca, 0xac]) }
    pub fn create_pool(amplifier: u64) -> Raw { Raw::new([0xe9, 0x92, 0xd1, 0x8e, 0xcf, 0x68, 0x40, 0xbc]).u64(amplifier) }
    pub fn put_discount(user: Pubkey, discount: u64, valid_until: u64) -> Raw { Raw::new([0xfd, 0xf4, 0x42, 0x7e, 0x57, 0x33, 0x0b, 0xa4]).key(&user).u64(discount).u64(valid_until) }
    pub fn set_pool_swap_fee(fee: u64) -> Raw { Raw::new([0x58, 0xa6, 0x6a, 0x58, 0x2f, 0xdb, 0xd0, 0x9c]).u64(fee) }
    pub fn deposit_liquidity(max: &[(Pubkey, u64)]) -> Raw { Raw::new([0xf5, 0x63, 0x3b, 0x19, 0x97, 0x47, 0xe9, 0xf9]).list(max) }
    pub fn redeem_liquidity(lp: u64, min: &[(Pubkey, u64)]) -> Raw { Raw::new([0xb4, 0x75, 0x8e, 0x89, 0xe3, 0xe1, 0x61, 0xd3]).u64(lp).list(min) }
    pub fn swap(sell: u64, min_buy: u64) -> Raw { Raw::new([0xf8, 0xc6, 0x9e, 0x91, 0xe1, 0x75, 0x87, 0xc8]).u64(sell).u64(min_buy) }
}
