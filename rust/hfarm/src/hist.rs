//! F07: whatever the history, the stake vault covers all deposits, snapshots
//! cover the stakes which count towards them, and the harvest vault covers the
//! harvest credited.  By induction: any state with these properties, one
//! instruction, and the properties hold again.
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::Farmer;

const MAX: u64 = 1 << 60;
const HW: Pubkey = key(52);

/// A farm with its two newest snapshots, and a farmer of it, in any state a
/// history can lead to.
struct Side { farm: Pubkey, f: F, i: Info, x: Farmer, snaps: [(u64, u64); 2], v: Info, h: Info, v0: u64, h0: u64 }
fn dep(x: &Farmer) -> u64 { x.staked.amount + x.vested.amount }
/// the stake of the farmer which counts towards a snapshot taken at the slot
fn counted(x: &Farmer, at: u64) -> u64 { x.staked.amount + sx::ite(x.vested_at.slot < at, x.vested.amount, 0) }
fn side(w: &mut World, farm: Pubkey, now: u64, tip: usize, old: bool, fresh: bool) -> Side {
    let v0 = sx::range("stake_vault", 0, MAX);
    let f = add_farm(w, farm, SMINT, v0);
    let (a2, a1) = (sx::range("at", if old { 1 << 14 } else { 1 }, BIG), sx::range("at", 2, BIG));
    sx::assume((a2 < a1) & (a1 <= now));
    let snaps = [(sx::range("total", 0, MAX), a1), (sx::range("total", 0, MAX), a2)];
    if old { for i in 0..1000 { f.m().snapshots.ring_buffer[(tip + 1000 - i) % 1000] = snapshot(8, (1 << 14) - 1 - i as u64); } }
    set_ring(f, tip, &snaps);
    let h0 = sx::range("harvest_vault", 0, MAX);
    add_harvest(w, f, farm, 2, SMINT, h0);
    add_harvest(w, f, farm, 5, HM1, 1 << 50);
    let mut x = farmer_of(farm, USER);
    x.staked = t(sx::range("staked", 0, MAX));
    x.vested = t(sx::range("vested", 0, MAX));
    x.vested_at = s(sx::range("vested_at", 0, BIG));
    x.calculate_next_harvest_from = s(sx::range("marker", 0, BIG + 1));
    set_harvest(&mut x, 7, SMINT, sx::range("harvest", 0, MAX));
    set_harvest(&mut x, 3, HM1, sx::range("harvest1", 0, 1 << 50));
    if fresh { x.vested_at = s(now); x.calculate_next_harvest_from = s(now + 1); }
    let m = x.calculate_next_harvest_from.slot;
    sx::assume((x.vested_at.slot <= now) & (x.vested_at.slot <= m) & (m <= now + 1));
    // the properties so far: vaults cover deposits and harvest
    sx::assume((v0 >= dep(&x)) & (h0 >= tokens_of(&x, &SMINT)));
    let i = add_farmer(w, &x);
    Side { farm, f, i, x, snaps, v: w.get(&vault_pda(&farm)), h: w.get(&harvest_pda(&farm, &SMINT)), v0, h0 }
}
/// `involved`: the instruction names the farmer
fn still(c: &Side, now: u64, involved: bool) {
    let y = de_farmer(&c.i);
    let (v1, h1) = (bal(&c.v), bal(&c.h));
    let x = &c.x;
    sx::check(y.authority == x.authority && y.farm == x.farm, "a farmer keeps its owner and farm");
    sx::check(v1 + dep(x) >= c.v0 + dep(&y), "the stake vault still covers everybody's deposits");
    sx::check(h1 + tokens_of(x, &SMINT) >= c.h0 + tokens_of(&y, &SMINT), "the harvest vault still covers everybody's harvest");
    let (m0, m1) = (x.calculate_next_harvest_from.slot, y.calculate_next_harvest_from.slot);
    sx::check((m1 >= m0) & (m1 <= now + 1), "the slots counted never go back nor into the future");
    sx::check((y.vested_at.slot <= now) & (y.vested_at.slot <= m1), "a deposit never precedes slots which were counted");
    let ends = [u64::MAX, c.snaps[0].1];
    for k in 0..2 {
        let at = c.snaps[k].1;
        sx::check((m1 >= ends[k]) | (counted(&y, at) <= counted(x, at)), "no stake starts to count towards a snapshot taken before");
        let r = c.f.m().snapshots.ring_buffer.iter().any(|p| (p.staked.amount == c.snaps[k].0) & (p.started_at.slot == at));
        sx::check(r, "snapshots are kept");
    }
    if !involved { sx::check((dep(&y) == dep(x)) & (m0 == m1) & (v1 >= c.v0) & (tokens_of(&y, &SMINT) == tokens_of(x, &SMINT)), "others are not affected"); }
}
/// `fresh`: which of the two farms' farmers was updated in this very slot
fn step(op: u64, tip: usize, old: bool, fresh: u64) {
    let now = sx::range("now", 2, BIG);
    let mut w = World::new(ID, now);
    let a = side(&mut w, FARM, now, tip, old, fresh == 1);
    // the same user's farmer of another farm
    let b = if op == 6 { Some(side(&mut w, FARM2, now, (tip + 7) % 1000, false, fresh == 2)) } else { None };
    // somebody else's farmer of the same farm
    let mut z = farmer_of(FARM, OTHER);
    z.staked = t(sx::range("staked", 0, MAX));
    z.vested = t(sx::range("vested", 0, MAX));
    set_harvest(&mut z, 0, SMINT, sx::range("harvest", 0, MAX));
    sx::assume(dep(&a.x) + dep(&z) <= a.v0);
    let zi = add_farmer(&mut w, &z);
    let (u, o) = (sx::flag("user_signs"), sx::flag("other_signs"));
    user(&mut w, USER, u);
    user(&mut w, OTHER, o);
    w.add(token(UW, SMINT, USER, sx::range("wallet", 0, MAX)));
    w.add(token(HW, HM1, USER, sx::range("wallet1", 0, MAX)));
    for (p, q) in [(FARM, FARM), (FARM, FARM2)] { w.add(whitelist(&p, &q)); }
    let fp = *a.i.key;
    let (sv, hv) = (vault_pda(&FARM), harvest_pda(&FARM, &SMINT));
    let n = sx::range("n", 0, MAX);
    let r = match op {
        0 => send(&w, ac::StartFarming { wallet_authority: USER, farmer: fp, stake_wallet: UW, farm: FARM, stake_vault: sv, token_program: TOKEN }, ix::start_farming(n)),
        1 => send(&w, ac::StopFarming { authority: USER, farmer: fp, stake_wallet: UW, farm: FARM, farm_signer_pda: signer_pda(&FARM), stake_vault: sv, token_program: TOKEN }, ix::stop_farming(n)),
        2 => send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: fp }, ix::update_eligible_harvest()),
        3 => send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: fp }, ix::update_eligible_harvest_until(sx::any("until"))),
        4 => {
            let l = match sx::choose("vaults", 4) { 0 => vec![hv, UW], 1 => vec![sv, UW], 2 => vec![hv, UW, hv, UW], _ => vec![hv, UW, sv, UW] };
            send_extra(&w, ac::ClaimEligibleHarvest { authority: USER, farmer: fp, farm_signer_pda: signer_pda(&FARM), token_program: TOKEN }, &l, ix::claim_eligible_harvest())
        }
        5 => send(&w, ac::CompoundSameFarm { farm: FARM, farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM), stake_vault: sv, harvest_vault: hv, farmer: fp, token_program: TOKEN }, ix::compound_same_farm()),
        6 => send(&w, ac::CompoundAcrossFarms { source_farm: FARM, target_farm: FARM2, source_farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM2), target_stake_vault: vault_pda(&FARM2),
            source_harvest_vault: hv, source_farmer: fp, target_farmer: farmer_pda(&FARM2, &USER), token_program: TOKEN }, ix::compound_across_farms()),
        7 => send(&w, ac::Airdrop { wallet_authority: USER, farmer: fp, harvest_wallet: UW, harvest_vault: hv, token_program: TOKEN }, ix::airdrop(n)),
        8 => send(&w, ac::TakeSnapshot { farm: FARM, stake_vault: sv }, ix::take_snapshot()),
        _ => send(&w, ac::CloseFarmer { authority: USER, farmer: fp }, ix::close_farmer()),
    };
    if r.is_err() { sx::cover("refused"); return; }
    sx::cover("ok");
    let y = de_farmer(&zi);
    sx::check((y.staked.amount == z.staked.amount) & (y.vested.amount == z.vested.amount) & (tokens_of(&y, &SMINT) == tokens_of(&z, &SMINT)), "other farmers are not affected");
    if op == 9 {
        sx::check((dep(&a.x) == 0) & (tokens_of(&a.x, &SMINT) == 0) & (bal(&a.v) == a.v0), "a closed farmer held nothing");
        return;
    }
    still(&a, now, op != 8);
    if let Some(b) = b { still(&b, now, true); }
    if op == 8 {
        // everybody's deposits count at most, including those just made
        let g = a.f.m();
        let p = g.snapshots.ring_buffer[g.snapshots.ring_buffer_tip as usize];
        sx::check(p.started_at.slot == now, "the new snapshot starts now");
        sx::check(p.staked.amount >= counted(&a.x, now) + dep(&z), "a new snapshot covers the stakes which count towards it");
    }
}
macro_rules! st { ($($n:ident $op:expr, $tip:expr, $old:expr, $fresh:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { step($op, $tip, $old, $fresh) })* } }
st! {
    h_f07_start 0, 1, false, 0; h_f07_stop 1, 0, false, 0; h_f07_update 2, 4, false, 0; h_f07_until 3, 999, false, 0; h_f07_claim 4, 1, false, 0;
    h_f07_compound 5, 1, false, 0; h_f07_source 6, 5, false, 2; h_f07_target 6, 5, false, 1; h_f07_airdrop 7, 1, false, 0; h_f07_snapshot 8, 999, true, 0; h_f07_close 9, 1, false, 0;
}
