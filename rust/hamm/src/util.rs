use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_error::ProgramError;
pub use amm::models::*;
pub use amm::{accounts as ac, ID};
pub use crate::ixd as ix;
pub use world::*;
pub use world::sx::W;

pub const ADMIN: Pubkey = key(20);
pub const USER: Pubkey = key(40);
pub const OTHER: Pubkey = key(41);
pub const POOL: Pubkey = key(1);
pub const POOL2: Pubkey = key(2);
pub const LP: Pubkey = key(60);
pub const LP2: Pubkey = key(61);
pub const TOLLW: Pubkey = key(62);
pub const LPW: Pubkey = key(63); // user's LP wallet
pub const TOLLA: Pubkey = key(64); // program toll authority
pub const DISCA: Pubkey = key(65); // discount settings authority
pub use anchor_lang::solana_program::system_program::ID as SYS;
pub use anchor_spl::token::ID as TOKEN;
pub const WAD: u64 = 1_000_000_000_000_000_000;

pub type R = std::result::Result<(), ProgramError>;

/// reserve mints; in ascending and in descending order of address
pub fn mint_of(i: usize) -> Pubkey { key(30 + i as u8) }
pub fn vault_of(i: usize) -> Pubkey { key(70 + i as u8) }
pub fn wallet_of(i: usize) -> Pubkey { key(80 + i as u8) }
pub fn signer_pda(p: &Pubkey) -> Pubkey { pda(&ID, &[b"signer", p.as_ref()]) }
pub fn toll_pda() -> Pubkey { pda(&ID, &[b"toll"]) }
pub fn settings_pda() -> Pubkey { pda(&ID, &[b"discount_settings"]) }
pub fn discount_pda(u: &Pubkey) -> Pubkey { pda(&ID, &[b"discount", u.as_ref()]) }
pub fn t(x: u64) -> TokenAmount { TokenAmount::new(x) }
pub fn s(x: u64) -> Slot { Slot::new(x) }
pub fn pm(x: u64) -> Permillion { Permillion { permillion: x } }
pub fn min(a: u64, b: u64) -> u64 { sx::ite(a < b, a, b) }
pub fn max(a: u64, b: u64) -> u64 { sx::ite(a < b, b, a) }

pub fn ser<T: AccountSerialize>(x: &T, space: usize) -> &'static mut [u8] {
    let mut v = Vec::with_capacity(space + 64);
    x.try_serialize(&mut v).unwrap();
    let n = v.len();
    if n < space { v.extend_from_slice(&vec![0u8; space - n]); }
    buf(&v)
}
/// a pool whose reserve `i` has mint `order[i]` and holds `res[i]` tokens
pub fn pool_of(p: Pubkey, lp: Pubkey, order: &[usize], res: &[u64], fee: u64) -> Pool {
    let mut x = Pool { admin: ADMIN, signer: signer_pda(&p), mint: lp, program_toll_wallet: TOLLW, dimension: res.len() as u64, swap_fee: pm(fee), ..Default::default() };
    for (i, r) in res.iter().enumerate() {
        x.reserves[i] = Reserve { tokens: t(*r), mint: mint_of(order[i]), vault: vault_of(order[i]) };
    }
    x
}
pub fn pool_acc(p: Pubkey, x: &Pool) -> Info { info(p, ID, ser(x, Pool::space()), 1 << 40) }
pub fn de_pool(w: &World, p: &Pubkey) -> Pool {
    let i = w.get(p);
    let d = i.data.borrow();
    let mut s: &[u8] = &d;
    Pool::try_deserialize(&mut s).unwrap()
}
/// the pool, its LP mint and its vaults, which hold `extra` tokens more than the pool knows of
pub fn add_pool(w: &mut World, p: Pubkey, x: &Pool, supply: u64, extra: u64) {
    w.add(pool_acc(p, x));
    w.add(wallet(signer_pda(&p)));
    w.add(mint(x.mint, Some(signer_pda(&p)), None, supply));
    for r in x.reserves.iter().take(x.dimension as usize) { w.add(token(r.vault, r.mint, signer_pda(&p), r.tokens.amount + extra)); }
}
pub fn send<A: ToAccountMetas>(w: &World, a: A, extra: &[Pubkey], d: Raw) -> R {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let r = w.send(amm::entry, m, d.0);
    sx::observe("r", code(&r));
    r
}
pub fn user(w: &mut World, k: Pubkey, signs: bool) { let i = wallet(k); w.add(signer(i, signs)); }
/// everything but reserves and curve
pub fn same_pool(a: &Pool, b: &Pool) -> bool {
    let mut ok = a.admin == b.admin && a.signer == b.signer && a.mint == b.mint && a.program_toll_wallet == b.program_toll_wallet && a.dimension == b.dimension && (a.swap_fee.permillion == b.swap_fee.permillion);
    for i in 0..4 { ok &= a.reserves[i].mint == b.reserves[i].mint && a.reserves[i].vault == b.reserves[i].vault; }
    ok
}

// ------------------------------------------------------------------ attackers
/// Ways of passing a wrong account.
#[derive(Clone, Copy)]
pub enum Bad {
    /// an account with the right contents and owner at any other address
    Alias,
    /// the right address and contents, owned by any other program
    Owner,
    /// the right address and owner, with any other 8-byte account type
    Type,
    /// the right account without its signature
    NoSign,
    /// any other account which did sign
    Other,
    /// another account of the world
    Is(Pubkey),
}
/// replaces account `n` of the instruction
pub fn forge(w: &mut World, m: &mut Vec<AccountMeta>, n: usize, b: Bad) {
    let k = m[n].pubkey;
    let i = w.get(&k);
    let d = i.data.borrow().to_vec();
    let handle = key(200);
    let any_other = |k: &Pubkey| { let x = Pubkey::new_from_array(sx::bytes32("other")); sx::assume(x != *k); x };
    m[n].pubkey = handle;
    match b {
        Bad::Alias => { let mut j = info(any_other(i.key), *i.owner, buf(&d), i.lamports()); j.executable = i.executable; j.is_signer = i.is_signer; w.add_as(handle, j); }
        Bad::Owner => { let mut j = info(*i.key, any_other(i.owner), buf(&d), i.lamports()); j.is_signer = i.is_signer; w.add_as(handle, j); }
        Bad::Type => {
            let mut d = d;
            let x = sx::any("type");
            let mut old = [0u8; 8];
            old.copy_from_slice(&d[0..8]);
            sx::assume(x != u64::from_le_bytes(old));
            d[0..8].copy_from_slice(&x.to_le_bytes());
            let mut j = info(*i.key, *i.owner, buf(&d), i.lamports());
            j.is_signer = i.is_signer;
            w.add_as(handle, j);
        }
        Bad::NoSign => { let mut j = i.clone(); j.is_signer = false; w.add_as(handle, j); }
        Bad::Other => { let j = wallet(any_other(i.key)); w.add_as(handle, signer(j, true)); }
        Bad::Is(o) => m[n].pubkey = o,
    }
}
/// Sends the instruction with one account replaced in any of the listed ways:
/// it must fail.
pub fn attack<A: ToAccountMetas>(w: &mut World, a: A, extra: &[Pubkey], d: Raw, l: &[(usize, Bad)]) {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let c = sx::choose("attack", l.len() as u64 + 1) as usize;
    if c < l.len() { forge(w, &mut m, l[c].0, l[c].1); }
    let r = w.send(amm::entry, m, d.0);
    sx::observe("r", code(&r));
    sx::cover("tried");
    if c < l.len() { sx::check(r.is_err(), "a wrong account is refused"); } else { sx::cover("right"); sx::check(r.is_ok(), "the right accounts are accepted"); }
}
/// an account which may or may not have signed, at any address
pub fn anyone(w: &mut World, handle: Pubkey, n: &str) -> (Pubkey, bool) {
    let k = Pubkey::new_from_array(sx::bytes32(n));
    let s = sx::flag("signs");
    w.add_as(handle, signer(wallet(k), s));
    (k, s)
}
/// the address of the account `handle` stands for is not one of the others'
pub fn distinct(w: &World, handle: Pubkey) {
    let k = *w.get(&handle).key;
    for (h, i) in w.accs.iter() { if *h != handle { sx::assume(*i.key != k); } }
}
