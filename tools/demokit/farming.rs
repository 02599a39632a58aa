use anchor_lang::prelude::*;
use anchor_lang::solana_program::program_error::ProgramError;
use farming::models::*;
pub use farming::{accounts as ac, ID};
pub use crate::world::*;

pub const ADMIN: Pubkey = key(20);
pub const USER: Pubkey = key(40);
pub const OTHER: Pubkey = key(41);
pub const SMINT: Pubkey = key(30); // stake mint
pub const HM1: Pubkey = key(31); // harvest mints
pub const HM2: Pubkey = key(32);
pub const UW: Pubkey = key(50); // user's stake wallet
pub const FARM: Pubkey = key(1);
pub const FARM2: Pubkey = key(2);
/// slots and token amounts stay below this unless stated otherwise
pub const BIG: u64 = 1 << 40;

pub type R = std::result::Result<(), ProgramError>;

pub fn signer_pda(f: &Pubkey) -> Pubkey { pda(&ID, &[b"signer", f.as_ref()]) }
pub fn vault_pda(f: &Pubkey) -> Pubkey { pda(&ID, &[b"stake_vault", f.as_ref()]) }
pub fn harvest_pda(f: &Pubkey, m: &Pubkey) -> Pubkey { pda(&ID, &[b"harvest_vault", f.as_ref(), m.as_ref()]) }
pub fn farmer_pda(f: &Pubkey, u: &Pubkey) -> Pubkey { pda(&ID, &[b"farmer", f.as_ref(), u.as_ref()]) }
pub fn whitelist_pda(a: &Pubkey, b: &Pubkey) -> Pubkey { pda(&ID, &[b"whitelist_compounding", a.as_ref(), b.as_ref()]) }

pub fn farm_bytes() -> &'static mut [u8] {
    let d = buf(&vec![0u8; 8 + std::mem::size_of::<Farm>()]);
    d[0..8].copy_from_slice(&<Farm as anchor_lang::Discriminator>::discriminator());
    d
}
/// A farm account; its state is accessed through the returned pointer.
#[derive(Clone, Copy)]
pub struct F(pub *mut Farm);
impl F {
    #[allow(clippy::mut_from_ref)]
    pub fn m(&self) -> &'static mut Farm { unsafe { &mut *self.0 } }
    pub fn snap(&self) -> Box<Farm> {
        // a byte-for-byte copy
        let b: Box<std::mem::MaybeUninit<Farm>> = Box::new(std::mem::MaybeUninit::uninit());
        unsafe {
            let p = Box::into_raw(b) as *mut Farm;
            std::ptr::copy_nonoverlapping(self.0, p, 1);
            Box::from_raw(p)
        }
    }
}
pub fn farm_acc(k: Pubkey) -> (F, Info) {
    let d = farm_bytes();
    let p = unsafe { d.as_mut_ptr().add(8) } as *mut Farm;
    (F(p), info(k, ID, d, 1 << 40))
}
/// farm `k` with its stake vault holding `staked`
pub fn add_farm(w: &mut World, k: Pubkey, smint: Pubkey, staked: u64) -> F {
    let (f, i) = farm_acc(k);
    f.m().admin = ADMIN;
    f.m().stake_mint = smint;
    f.m().stake_vault = vault_pda(&k);
    w.add(i);
    w.add(token(vault_pda(&k), smint, signer_pda(&k), staked));
    w.add(wallet(signer_pda(&k)));
    f
}
/// registers harvest `n` of the farm and its vault
pub fn add_harvest(w: &mut World, f: F, k: Pubkey, n: usize, m: Pubkey, in_vault: u64) {
    let h = &mut f.m().harvests[n];
    h.mint = m;
    h.vault = harvest_pda(&k, &m);
    w.add(token(h.vault, m, signer_pda(&k), in_vault));
}
pub fn period(tps: u64, s: u64, e: u64) -> HarvestPeriod {
    HarvestPeriod { tps: TokenAmount::new(tps), starts_at: Slot::new(s), ends_at: Slot::new(e) }
}
pub fn snapshot(staked: u64, at: u64) -> Snapshot { Snapshot { staked: TokenAmount::new(staked), started_at: Slot::new(at) } }
/// latest snapshots first, going backwards from the tip
pub fn set_ring(f: F, tip: usize, latest: &[(u64, u64)]) {
    f.m().snapshots.ring_buffer_tip = tip as u64;
    for (i, (s, at)) in latest.iter().enumerate() {
        f.m().snapshots.ring_buffer[(tip + 1000 - i) % 1000] = snapshot(*s, *at);
    }
}
pub fn ser_farmer(x: &Farmer) -> Vec<u8> {
    let mut v = Vec::with_capacity(600);
    x.try_serialize(&mut v).unwrap();
    v
}
pub fn farmer_of(farm: Pubkey, user: Pubkey) -> Farmer { Farmer { authority: user, farm, ..Default::default() } }
pub fn add_farmer(w: &mut World, x: &Farmer) -> Info {
    w.add(info(farmer_pda(&x.farm, &x.authority), ID, buf(&ser_farmer(x)), 1 << 30))
}
pub fn de_farmer(i: &Info) -> Farmer {
    let d = i.data.borrow();
    let mut s: &[u8] = &d;
    Farmer::try_deserialize(&mut s).unwrap()
}
/// the account which lets harvest of farm `a` be compounded into farm `b`
pub fn whitelist(a: &Pubkey, b: &Pubkey) -> Info {
    let mut d = vec![0u8; 8];
    d.copy_from_slice(&<WhitelistCompounding as anchor_lang::Discriminator>::discriminator());
    info(whitelist_pda(a, b), ID, buf(&d), 1 << 20)
}
pub fn tokens_of(x: &Farmer, m: &Pubkey) -> u64 {
    // total over all entries of the mint
    let mut t = 0;
    for h in x.harvests.iter() { if h.mint == *m { t += h.tokens.amount; } }
    t
}
pub fn set_harvest(x: &mut Farmer, n: usize, m: Pubkey, t: u64) { x.harvests[n] = AvailableHarvest { mint: m, tokens: TokenAmount::new(t) }; }

pub fn send<A: ToAccountMetas>(w: &World, a: A, d: Raw) -> R {
    let r = w.send(farming::entry, a.to_account_metas(None), d.0);
    r
}
pub fn send_extra<A: ToAccountMetas>(w: &World, a: A, extra: &[Pubkey], d: Raw) -> R {
    let mut m = a.to_account_metas(None);
    for k in extra { m.push(AccountMeta::new(*k, false)); }
    let r = w.send(farming::entry, m, d.0);
    r
}
pub fn user(w: &mut World, k: Pubkey, signs: bool) { let i = wallet(k); w.add(signer(i, signs)); }
pub fn t(x: u64) -> TokenAmount { TokenAmount::new(x) }
pub fn s(x: u64) -> Slot { Slot::new(x) }
pub use anchor_spl::token::ID as TOKEN;
pub use anchor_lang::solana_program::system_program::ID as SYS;
pub use anchor_lang::solana_program::sysvar::rent::ID as RENT;

pub fn same_periods(a: &Harvest, b: &Harvest) -> bool {
    let mut ok = a.mint == b.mint && a.vault == b.vault;
    for i in 0..10 { ok &= eq_period(&a.periods[i], &b.periods[i]); }
    ok
}
pub fn eq_period(a: &HarvestPeriod, b: &HarvestPeriod) -> bool {
    (a.tps.amount == b.tps.amount) & (a.starts_at.slot == b.starts_at.slot) & (a.ends_at.slot == b.ends_at.slot)
}
pub fn same_ring(a: &Farm, b: &Farm, except: usize) -> bool {
    let mut ok = true;
    for i in 0..1000 {
        if i != except {
            ok &= (a.snapshots.ring_buffer[i].staked.amount == b.snapshots.ring_buffer[i].staked.amount)
                & (a.snapshots.ring_buffer[i].started_at.slot == b.snapshots.ring_buffer[i].started_at.slot);
        }
    }
    ok
}
pub fn min(a: u64, b: u64) -> u64 { if a < b { a } else { b } }
pub fn max(a: u64, b: u64) -> u64 { if a < b { b } else { a } }


/// Instruction data, by instruction name (8-byte selector, borsh arguments).
pub mod ix {
    use super::*;
    pub fn create_farm() -> Raw { Raw::new([0x4a, 0x3b, 0x80, 0xa0, 0x57, 0xae, 0x99, 0xc2]) }
    pub fn add_harvest() -> Raw { Raw::new([0x30, 0x0e, 0x17, 0x48, 0x41, 0x2f, 0x1f, 0x4a]) }
    pub fn remove_harvest(harvest_mint: Pubkey) -> Raw { Raw::new([0x5e, 0xce, 0x86, 0x76, 0x17, 0x65, 0x1b, 0x2e]).key(&harvest_mint) }
    pub fn set_farm_owner() -> Raw { Raw::new([0x73, 0x4d, 0xca, 0x85, 0xef, 0xa7, 0xc0, 0x25]) }
    pub fn new_harvest_period(harvest_mint: Pubkey, starts_at: u64, len: u64, tps: u64) -> Raw { Raw::new([0x0d, 0x05, 0x22, 0xaf, 0x43, 0x4e, 0x1a, 0x30]).key(&harvest_mint).u64(starts_at).u64(len).u64(tps) }
    pub fn take_snapshot() -> Raw { Raw::new([0xb7, 0xd2, 0xfb, 0x44, 0x8c, 0x84, 0xbf, 0x8c]) }
    pub fn set_min_snapshot_window(slots: u64) -> Raw { Raw::new([0x11, 0xe8, 0x95, 0x5e, 0x4e, 0x95, 0x7c, 0x1d]).u64(slots) }
    pub fn create_farmer() -> Raw { Raw::new([0x4f, 0x49, 0xe0, 0x67, 0x87, 0x5d, 0x1e, 0x09]) }
    pub fn close_farmer() -> Raw { Raw::new([0x0f, 0xac, 0x5b, 0xcb, 0x78, 0x17, 0xca, 0xf6]) }
    pub fn start_farming(stake: u64) -> Raw { Raw::new([0x96, 0xcd, 0xb9, 0x6d, 0x61, 0xca, 0x44, 0x6e]).u64(stake) }
    pub fn stop_farming(max: u64) -> Raw { Raw::new([0xa4, 0x3a, 0x7c, 0xea, 0x27, 0xf2, 0x16, 0x7e]).u64(max) }
    pub fn update_eligible_harvest() -> Raw { Raw::new([0x75, 0xc2, 0x83, 0x09, 0xcd, 0x78, 0x22, 0x34]) }
    pub fn update_eligible_harvest_until(until: u64) -> Raw { Raw::new([0xb6, 0xa1, 0xa0, 0x58, 0xda, 0xad, 0xbe, 0x53]).u64(until) }
    pub fn claim_eligible_harvest() -> Raw { Raw::new([0x37, 0xdd, 0xfe, 0x7d, 0x62, 0x43, 0x43, 0xbd]) }
    pub fn whitelist_farm_for_compounding() -> Raw { Raw::new([0x93, 0x88, 0x24, 0xdb, 0x55, 0x3b, 0x84, 0x2b]) }
    pub fn dewhitelist_farm_for_compounding() -> Raw { Raw::new([0x17, 0xd8, 0xb0, 0xb4, 0xdd, 0x09, 0x9b, 0x64]) }
    pub fn compound_same_farm() -> Raw { Raw::new([0x24, 0xe5, 0x07, 0xc6, 0x53, 0x5a, 0xbd, 0xbd]) }
    pub fn compound_across_farms() -> Raw { Raw::new([0xc8, 0x08, 0xc0, 0xa1, 0x9d, 0x2f, 0xde, 0x91]) }
    pub fn airdrop(amount: u64) -> Raw { Raw::new([0x71, 0xad, 0x24, 0xee, 0x26, 0x98, 0x16, 0x75]).u64(amount) }
}
