//! F13: compounding harvest into stake.
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::*;

/// two farms staking SMINT which both pay harvest in it, USER's farmers in
/// both, whitelisted for compounding as asked
fn stage(now: u64, wl: &[(Pubkey, Pubkey)]) -> (World, F, F) {
    let mut w = World::new(ID, now);
    let f = add_farm(&mut w, FARM, SMINT, 1 << 40);
    let g = add_farm(&mut w, FARM2, SMINT, 1 << 40);
    add_harvest(&mut w, f, FARM, 1, SMINT, 1 << 62);
    add_harvest(&mut w, f, FARM, 3, HM1, 1 << 62);
    add_harvest(&mut w, g, FARM2, 2, SMINT, 1 << 62);
    for (a, b) in wl { w.add(whitelist(a, b)); }
    (w, f, g)
}
fn farmer_in(farm: Pubkey, u: Pubkey, now: u64, p: u64) -> Farmer {
    let mut x = farmer_of(farm, u);
    x.staked = t(sx::range("staked", 0, 1 << 40));
    x.vested = t(sx::range("vested", 0, 1 << 40));
    x.vested_at = s(sx::range("vested_at", 1, 5000));
    x.calculate_next_harvest_from = s(now + 1);
    set_harvest(&mut x, p as usize, SMINT, sx::range("harvest", 0, 1 << 60));
    set_harvest(&mut x, 5, HM1, sx::range("harvest1", 0, 1 << 60));
    x
}
fn same() -> ac::CompoundSameFarm {
    ac::CompoundSameFarm { farm: FARM, farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM), stake_vault: vault_pda(&FARM), harvest_vault: harvest_pda(&FARM, &SMINT), farmer: farmer_pda(&FARM, &USER), token_program: TOKEN }
}
fn across() -> ac::CompoundAcrossFarms {
    ac::CompoundAcrossFarms { source_farm: FARM, target_farm: FARM2, source_farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM2), target_stake_vault: vault_pda(&FARM2),
        source_harvest_vault: harvest_pda(&FARM, &SMINT), source_farmer: farmer_pda(&FARM, &USER), target_farmer: farmer_pda(&FARM2, &USER), token_program: TOKEN }
}
#[no_mangle]
pub extern "C" fn h_f13_same() {
    let now = 5000;
    let (mut w, f, _) = stage(now, &[(FARM, FARM)]);
    set_ring(f, 4, &[(100, 1)]); // nothing left to vest or to count
    let x = farmer_in(FARM, USER, now, 7);
    let i = add_farmer(&mut w, &x);
    let n = tokens_of(&x, &SMINT);
    let (hv, sv) = (w.get(&harvest_pda(&FARM, &SMINT)), w.get(&vault_pda(&FARM)));
    let (h0, s0) = (bal(&hv), bal(&sv));
    let r = send(&w, same(), ix::compound_same_farm());
    sx::check(r.is_ok(), "anyone can compound on a whitelisted farm");
    let y = de_farmer(&i);
    sx::check((bal(&hv) == h0 - n) & (bal(&sv) == s0 + n), "exactly the harvest moves to the stake vault");
    sx::check((tokens_of(&y, &SMINT) == 0) & (y.vested.amount == x.vested.amount + n) & (y.staked.amount == x.staked.amount), "the harvest becomes vested stake");
    sx::check((tokens_of(&y, &HM1) == tokens_of(&x, &HM1)) & (y.vested_at.slot == now), "other harvests stay, the deposit vests from now on");
    sx::check(y.authority == USER && y.farm == FARM, "the farmer keeps its owner and farm");
    sx::cover("ok");
}
/// compounding into a farm where the farmer's earlier deposit has vested already
#[no_mangle]
pub extern "C" fn h_f13_across() {
    let now = sx::range("now", 10, BIG);
    let (mut w, f, g) = stage(now, &[(FARM, FARM2)]);
    set_ring(f, 4, &[(100, 1)]);
    let shot = sx::range("shot", 2, BIG);
    sx::assume(shot <= now);
    set_ring(g, 4, &[(16, shot), (16, 1)]);
    g.m().harvests[2].periods[0] = period(16, 1, 2 * BIG);
    let mut x = farmer_in(FARM, USER, now, 7);
    x.staked = t(1 << 30);
    x.vested = t(0);
    x.vested_at = s(1);
    let i = add_farmer(&mut w, &x);
    // the farmer of the target farm was last updated some time ago
    let m = sx::range("marker", 1, BIG + 1);
    let vat = sx::range("vat", 1, BIG);
    sx::assume((vat <= m) & (m <= now + 1) & (vat <= now) & ((shot <= vat) | (shot + 1 >= m)));
    let mut z = farmer_of(FARM2, USER);
    z.staked = t(4);
    z.vested = t(4);
    z.vested_at = s(vat);
    z.calculate_next_harvest_from = s(m);
    set_harvest(&mut z, 1, SMINT, 5);
    let j = add_farmer(&mut w, &z);
    let n = tokens_of(&x, &SMINT);
    let (hv, sv) = (w.get(&harvest_pda(&FARM, &SMINT)), w.get(&vault_pda(&FARM2)));
    let (h0, s0) = (bal(&hv), bal(&sv));
    let r = send(&w, across(), ix::compound_across_farms());
    sx::check(r.is_ok(), "anyone can compound into a whitelisted farm");
    let (y, u) = (de_farmer(&i), de_farmer(&j));
    sx::check((bal(&hv) == h0 - n) & (bal(&sv) == s0 + n), "exactly the harvest moves to the other farm's stake vault");
    sx::check((tokens_of(&y, &SMINT) == 0) & (tokens_of(&y, &HM1) == tokens_of(&x, &HM1)) & (y.staked.amount == x.staked.amount) & (y.vested.amount == 0), "only the harvest is taken from the source farmer");
    let vested = sx::ite(shot > vat, 0, 4);
    sx::check(u.staked.amount + u.vested.amount == 8 + n, "the target farmer is credited exactly the harvest moved");
    sx::check((u.vested.amount == vested + n) & (u.staked.amount == 8 - vested), "stake which vested already keeps counting");
    sx::check(u.vested_at.slot == now, "the deposit vests from now on");
    // 16 tokens a slot, a quarter (half once vested) of the stake
    let m1 = u.calculate_next_harvest_from.slot;
    let cut = max(m, min(m1, shot));
    let early = 4 * (cut - m);
    let late = sx::ite(shot > vat, 8, 4) * (m1 - cut);
    sx::check((m1 >= m) & (m1 <= now + 1), "the slots counted never go back nor into the future");
    sx::check(tokens_of(&u, &SMINT) - 5 == early + late, "the target farmer's harvest is counted at the stake held so far");
    sx::check(y.authority == USER && y.farm == FARM && u.authority == USER && u.farm == FARM2, "the farmers keep their owner and farm");
    sx::cover("ok");
}
#[no_mangle]
pub extern "C" fn h_f13_accounts() {
    let now = 5000;
    let (mut w, f, g) = stage(now, &[(FARM, FARM), (FARM, FARM2)]);
    set_ring(f, 4, &[(100, 1)]);
    set_ring(g, 4, &[(100, 1)]);
    for (k, u, n) in [(FARM, USER, 1), (FARM2, USER, 2), (FARM, OTHER, 3), (FARM2, OTHER, 4)] {
        let mut x = farmer_of(k, u);
        x.staked = t(100);
        x.calculate_next_harvest_from = s(now + 1);
        set_harvest(&mut x, 0, SMINT, sx::range("harvest", 1, 1 << 40) + n);
        add_farmer(&mut w, &x);
    }
    let theirs = key(94);
    w.add(token(theirs, SMINT, OTHER, 1 << 40));
    if sx::choose("endpoint", 2) == 0 {
        attack(&mut w, same(), &[], ix::compound_same_farm(), &[(0, Bad::Is(FARM2)), (0, Bad::Owner), (0, Bad::Type), (1, Bad::Alias), (1, Bad::Is(signer_pda(&FARM2))), (2, Bad::Alias), (2, Bad::Is(whitelist_pda(&FARM, &FARM2))), (2, Bad::Owner), (2, Bad::Type),
            (3, Bad::Alias), (3, Bad::Is(vault_pda(&FARM2))), (3, Bad::Is(theirs)), (4, Bad::Alias), (4, Bad::Is(harvest_pda(&FARM2, &SMINT))), (4, Bad::Is(harvest_pda(&FARM, &HM1))), (4, Bad::Is(vault_pda(&FARM))), (5, Bad::Is(farmer_pda(&FARM2, &USER))), (5, Bad::Owner), (5, Bad::Type), (6, Bad::Alias)]);
    } else {
        attack(&mut w, across(), &[], ix::compound_across_farms(), &[(0, Bad::Is(FARM2)), (1, Bad::Is(FARM)), (0, Bad::Owner), (0, Bad::Type), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Alias), (2, Bad::Is(signer_pda(&FARM2))), (3, Bad::Alias), (3, Bad::Is(whitelist_pda(&FARM, &FARM))), (3, Bad::Owner), (3, Bad::Type),
            (4, Bad::Alias), (4, Bad::Is(vault_pda(&FARM))), (4, Bad::Is(theirs)), (5, Bad::Alias), (5, Bad::Is(harvest_pda(&FARM2, &SMINT))), (5, Bad::Is(harvest_pda(&FARM, &HM1))),
            (6, Bad::Is(farmer_pda(&FARM, &OTHER))), (6, Bad::Is(farmer_pda(&FARM2, &USER))), (6, Bad::Owner), (6, Bad::Type), (7, Bad::Is(farmer_pda(&FARM2, &OTHER))), (7, Bad::Is(farmer_pda(&FARM, &USER))), (7, Bad::Owner), (7, Bad::Type), (8, Bad::Alias)]);
    }
}
/// a whitelist entry removed (or never made) stops compounding; entries are
/// directed: source first
#[no_mangle]
pub extern "C" fn h_f13_whitelist() {
    let now = 5000;
    let (mut w, f, g) = stage(now, &[]);
    set_ring(f, 4, &[(100, 1)]);
    set_ring(g, 4, &[(100, 1)]);
    for k in [FARM, FARM2] { let x = farmer_in(k, USER, now, 1); add_farmer(&mut w, &x); }
    g.m().admin = OTHER;
    user(&mut w, ADMIN, true);
    user(&mut w, OTHER, true);
    let c = sx::choose("entry", 4);
    let (a, b) = [(FARM, FARM), (FARM, FARM2), (FARM2, FARM), (FARM2, FARM2)][c as usize];
    for (x, y) in [(FARM, FARM), (FARM, FARM2), (FARM2, FARM), (FARM2, FARM2)] { w.add(fresh(whitelist_pda(&x, &y))); }
    let adm = if a == FARM { ADMIN } else { OTHER };
    let r = send(&w, ac::WhitelistFarmForCompouding { admin: adm, source_farm: a, target_farm: b, whitelist_compounding: whitelist_pda(&a, &b), system_program: SYS }, ix::whitelist_farm_for_compounding());
    sx::check(r.is_ok(), "the source farm's admin can whitelist");
    let removed = sx::choose("removed", 2) == 1;
    if removed {
        let r = send(&w, ac::DewhitelistFarmForCompounding { admin: adm, source_farm: a, target_farm: b, whitelist_compounding: whitelist_pda(&a, &b), system_program: SYS }, ix::dewhitelist_farm_for_compounding());
        sx::check(r.is_ok() && closed(&w.get(&whitelist_pda(&a, &b))), "the source farm's admin can take it back");
    }
    let (p, q) = [(FARM, FARM), (FARM, FARM2)][sx::choose("use", 2) as usize];
    let r = if p == q { send(&w, same(), ix::compound_same_farm()) } else { send(&w, across(), ix::compound_across_farms()) };
    sx::check(r.is_ok() == (p == a && q == b && !removed), "compounding needs an entry for this source and this target");
    if r.is_ok() { sx::cover("ok") } else { sx::cover("refused") }
}
