use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_error::ProgramError;
use farming::models::*;
pub use farming::{accounts as ac, ID};
pub use crate::ixd as ix;
pub use world::*;
pub use world::sx::W;

pub const ADMIN: Pubkey = key(20);
pub const USER: Pubkey = key(40);
pub const OTHER: Pubkey = key(41);
pub const SMINT: Pubkey = key(30); // stake mint
pub const HM1: Pubkey = key(31); // harvest mints
pub const HM2: Pubkey = key(32);
pub const UW: Pubkey = key(50); // user's stake wallet
pub const FARM: Pubkey = key(1);
pub const FARM2: Pubkey = key(2);
/// slots and token amounts stay below this unless stated otherwise
pub const BIG: u64 = 1 << 40;

pub type R = std::result::Result<(), ProgramError>;

pub fn signer_pda(f: &Pubkey) -> Pubkey { pda(&ID, &[b"signer", f.as_ref()]) }
pub fn vault_pda(f: &Pubkey) -> Pubkey { pda(&ID, &[b"stake_vault", f.as_ref()]) }
pub fn harvest_pda(f: &Pubkey, m: &Pubkey) -> Pubkey { pda(&ID, &[b"harvest_vault", f.as_ref(), m.as_ref()]) }
pub fn farmer_pda(f: &Pubkey, u: &Pubkey) -> Pubkey { pda(&ID, &[b"farmer", f.as_ref(), u.as_ref()]) }
pub fn whitelist_pda(a: &Pubkey, b: &Pubkey) -> Pubkey { pda(&ID, &[b"whitelist_compounding", a.as_ref(), b.as_ref()]) }

pub fn farm_bytes() -> &'static mut [u8] {
    let d = buf(&vec![0u8; 8 + std::mem::size_of::<Farm>()]);
    d[0..8].copy_from_slice(&<Farm as anchor_lang::Discriminator>::discriminator());
    d
}
/// A farm account; its state is accessed through the returned pointer.
#[derive(Clone, Copy)]
pub struct F(pub *mut Farm);
impl F {
    #[allow(clippy::mut_from_ref)]
    pub fn m(&self) -> &'static mut Farm { unsafe { &mut *self.0 } }
    pub fn snap(&self) -> Box<Farm> {
        // a byte-for-byte copy
        let b: Box<std::mem::MaybeUninit<Farm>> = Box::new(std::mem::MaybeUninit::uninit());
        unsafe {
            let p = Box::into_raw(b) as *mut Farm;
            std::ptr::copy_nonoverlapping(self.0, p, 1);
            Box::from_raw(p)
        }
    }
}
pub fn farm_acc(k: Pubkey) -> (F, Info) {
    let d = farm_bytes();
    let p = unsafe { d.as_mut_ptr().add(8) } as *mut Farm;
    (F(p), info(k, ID, d, 1 << 40))
}
/// farm `k` with its stake vault holding `staked`
pub fn add_farm(w: &mut World, k: Pubkey, smint: Pubkey, staked: u64) -> F {
    let (f, i) = farm_acc(k);
    f.m().admin = ADMIN;
    f.m().stake_mint = smint;
    f.m().stake_vault = vault_pda(&k);
    w.add(i);
    w.add(token(vault_pda(&k), smint, signer_pda(&k), staked));
    w.add(wallet(signer_pda(&k)));
    f
}
/// registers harvest `n` of the farm and its vault
pub fn add_harvest(w: &mut World, f: F, k: Pubkey, n: usize, m: Pubkey, in_vault: u64) {
    let h = &mut f.m().harvests[n];
    h.mint = m;
    h.vault = harvest_pda(&k, &m);
    w.add(token(h.vault, m, signer_pda(&k), in_vault));
}
pub fn period(tps: u64, s: u64, e: u64) -> HarvestPeriod {
    HarvestPeriod { tps: TokenAmount::new(tps), starts_at: Slot::new(s), ends_at: Slot::new(e) }
}
pub fn snapshot(staked: u64, at: u64) -> Snapshot { Snapshot { staked: TokenAmount::new(staked), started_at: Slot::new(at) } }
/// latest snapshots first, going backwards from the tip
pub fn set_ring(f: F, tip: usize, latest: &[(u64, u64)]) {
    f.m().snapshots.ring_buffer_tip = tip as u64;
    for (i, (s, at)) in latest.iter().enumerate() {
        f.m().snapshots.ring_buffer[(tip + 1000 - i) % 1000] = snapshot(*s, *at);
    }
}
pub fn ser_farmer(x: &Farmer) -> Vec<u8> {
    let mut v = Vec::with_capacity(600);
    x.try_serialize(&mut v).unwrap();
    v
}
pub fn farmer_of(farm: Pubkey, user: Pubkey) -> Farmer { Farmer { authority: user, farm, ..Default::default() } }
pub fn add_farmer(w: &mut World, x: &Farmer) -> Info {
    w.add(info(farmer_pda(&x.farm, &x.authority), ID, buf(&ser_farmer(x)), 1 << 30))
}
pub fn de_farmer(i: &Info) -> Farmer {
    let d = i.data.borrow();
    let mut s: &[u8] = &d;
    Farmer::try_deserialize(&mut s).unwrap()
}
/// the account which lets harvest of farm `a` be compounded into farm `b`
pub fn whitelist(a: &Pubkey, b: &Pubkey) -> Info {
    let mut d = vec![0u8; 8];
    d.copy_from_slice(&<WhitelistCompounding as anchor_lang::Discriminator>::discriminator());
    info(whitelist_pda(a, b), ID, buf(&d), 1 << 20)
}
pub fn tokens_of(x: &Farmer, m: &Pubkey) -> u64 {
    // total over all entries of the mint
    let mut t = 0;
    for h in x.harvests.iter() { if h.mint == *m { t += h.tokens.amount; } }
    t
}
pub fn set_harvest(x: &mut Farmer, n: usize, m: Pubkey, t: u64) { x.harvests[n] = AvailableHarvest { mint: m, tokens: TokenAmount::new(t) }; }

pub fn send<A: ToAccountMetas>(w: &World, a: A, d: Raw) -> R {
    let r = w.send(farming::entry, a.to_account_metas(None), d.0);
    sx::observe("r", code(&r));
    r
}
pub fn send_extra<A: ToAccountMetas>(w: &World, a: A, extra: &[Pubkey], d: Raw) -> R {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let r = w.send(farming::entry, m, d.0);
    sx::observe("r", code(&r));
    r
}
pub fn user(w: &mut World, k: Pubkey, signs: bool) { let i = wallet(k); w.add(signer(i, signs)); }
pub fn t(x: u64) -> TokenAmount { TokenAmount::new(x) }
pub fn s(x: u64) -> Slot { Slot::new(x) }
pub use anchor_spl::token::ID as TOKEN;
pub use anchor_lang::solana_program::system_program::ID as SYS;
pub use anchor_lang::solana_program::sysvar::rent::ID as RENT;

pub fn same_periods(a: &Harvest, b: &Harvest) -> bool {
    let mut ok = a.mint == b.mint && a.vault == b.vault;
    for i in 0..10 { ok &= eq_period(&a.periods[i], &b.periods[i]); }
    ok
}
pub fn eq_period(a: &HarvestPeriod, b: &HarvestPeriod) -> bool {
    (a.tps.amount == b.tps.amount) & (a.starts_at.slot == b.starts_at.slot) & (a.ends_at.slot == b.ends_at.slot)
}
pub fn same_ring(a: &Farm, b: &Farm, except: usize) -> bool {
    let mut ok = true;
    for i in 0..1000 {
        if i != except {
            ok &= (a.snapshots.ring_buffer[i].staked.amount == b.snapshots.ring_buffer[i].staked.amount)
                & (a.snapshots.ring_buffer[i].started_at.slot == b.snapshots.ring_buffer[i].started_at.slot);
        }
    }
    ok
}
pub fn min(a: u64, b: u64) -> u64 { sx::ite(a < b, a, b) }
pub fn max(a: u64, b: u64) -> u64 { sx::ite(a < b, b, a) }

// ------------------------------------------------------------------ attackers
/// Ways of passing a wrong account.
#[derive(Clone, Copy)]
pub enum Bad {
    /// an account with the right contents and owner at any other address
    Alias,
    /// the right address and contents, owned by any other program
    Owner,
    /// the right address and owner, with any other 8-byte account type
    Type,
    /// the right account without its signature
    NoSign,
    /// any other account which did sign
    Other,
    /// another account of the world
    Is(Pubkey),
}
/// replaces account `n` of the instruction
pub fn forge(w: &mut World, m: &mut Vec<AccountMeta>, n: usize, b: Bad) {
    let k = m[n].pubkey;
    let i = w.get(&k);
    let d = i.data.borrow().to_vec();
    let handle = key(200);
    let any_other = |k: &Pubkey| { let x = Pubkey::new_from_array(sx::bytes32("other")); sx::assume(x != *k); x };
    m[n].pubkey = handle;
    match b {
        Bad::Alias => { let mut j = info(any_other(i.key), *i.owner, buf(&d), i.lamports()); j.executable = i.executable; j.is_signer = i.is_signer; w.add_as(handle, j); }
        Bad::Owner => { let mut j = info(*i.key, any_other(i.owner), buf(&d), i.lamports()); j.is_signer = i.is_signer; w.add_as(handle, j); }
        Bad::Type => {
            let mut d = d;
            let x = sx::any("type");
            let mut old = [0u8; 8];
            old.copy_from_slice(&d[0..8]);
            sx::assume(x != u64::from_le_bytes(old));
            d[0..8].copy_from_slice(&x.to_le_bytes());
            let mut j = info(*i.key, *i.owner, buf(&d), i.lamports());
            j.is_signer = i.is_signer;
            w.add_as(handle, j);
        }
        Bad::NoSign => { let mut j = i.clone(); j.is_signer = false; w.add_as(handle, j); }
        Bad::Other => { let j = wallet(any_other(i.key)); w.add_as(handle, signer(j, true)); }
        Bad::Is(o) => m[n].pubkey = o,
    }
}
/// Sends the instruction with one account replaced in any of the listed ways:
/// it must fail.
pub fn attack<A: ToAccountMetas>(w: &mut World, a: A, extra: &[Pubkey], d: Raw, l: &[(usize, Bad)]) {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let c = sx::choose("attack", l.len() as u64 + 1) as usize;
    if c < l.len() { forge(w, &mut m, l[c].0, l[c].1); }
    let r = w.send(farming::entry, m, d.0);
    sx::observe("r", code(&r));
    sx::cover("tried");
    if c < l.len() { sx::check(r.is_err(), "a wrong account is refused"); } else if r.is_ok() { sx::cover("right"); }
}
/// an account which may or may not have signed, at any address
pub fn anyone(w: &mut World, handle: Pubkey, n: &str) -> (Pubkey, bool) {
    let k = Pubkey::new_from_array(sx::bytes32(n));
    let s = sx::flag("signs");
    w.add_as(handle, signer(wallet(k), s));
    (k, s)
}
/// the address of the account `handle` stands for is not one of the others'
pub fn distinct(w: &World, handle: Pubkey) {
    let k = *w.get(&handle).key;
    for (h, i) in w.accs.iter() { if *h != handle { sx::assume(*i.key != k); } }
}
