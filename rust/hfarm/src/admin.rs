//! F08 harvest mints, F09 admin authority, F16 creation.
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::*;

pub const WHO: Pubkey = key(201);
const WHO2: Pubkey = key(202);
const NMINT: Pubkey = key(33);

fn farm_of_anyone(w: &mut World) -> (F, Pubkey) {
    let f = add_farm(w, FARM, SMINT, 1000);
    let a = Pubkey::new_from_array(sx::bytes32("admin"));
    f.m().admin = a;
    (f, a)
}
fn same_but_harvests(f: F, b: &Farm) -> bool {
    let a = f.m();
    a.admin == b.admin && a.stake_mint == b.stake_mint && a.stake_vault == b.stake_vault && a.min_snapshot_window_slots == b.min_snapshot_window_slots
        && a.snapshots.ring_buffer_tip == b.snapshots.ring_buffer_tip && same_ring(a, b, 9999)
}
/// Each settings endpoint with a signer of any address: succeeds exactly for
/// the admin who signed.
#[no_mangle]
pub extern "C" fn h_f09_authority() {
    let now = sx::range("now", 1, BIG);
    let mut w = World::new(ID, now);
    let (f, admin) = farm_of_anyone(&mut w);
    let (k, signed) = anyone(&mut w, WHO, "signer");
    let what = sx::choose("endpoint", 7);
    add_harvest(&mut w, f, FARM, 1, HM1, if what == 2 { 0 } else { 500 });
    add_farm(&mut w, FARM2, SMINT, 0);
    distinct(&w, WHO);
    let before = f.snap();
    let auth = signed && k == admin;
    let r = match what {
        0 => {
            let v = sx::any("window");
            let r = send(&w, ac::SetMinSnapshotWindow { admin: WHO, farm: FARM }, ix::set_min_snapshot_window(v));
            if r.is_ok() { sx::check(f.m().min_snapshot_window_slots == v, "the setting is stored"); }
            r
        }
        1 => {
            w.add(mint(NMINT, None, None, 5));
            w.add(fresh(harvest_pda(&FARM, &NMINT)));
            distinct(&w, WHO);
            send(&w, ac::AddHarvest { admin: WHO, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_mint: NMINT, harvest_vault: harvest_pda(&FARM, &NMINT), token_program: TOKEN, system_program: SYS, rent: RENT }, ix::add_harvest())
        }
        2 => send(&w, ac::RemoveHarvest { admin: WHO, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_vault: harvest_pda(&FARM, &HM1), token_program: TOKEN }, ix::remove_harvest(HM1)),
        3 => {
            w.add(token(UW, HM1, k, 1000));
            distinct(&w, WHO);
            send(&w, ac::NewHarvestPeriod { admin: WHO, farm: FARM, harvest_wallet: UW, harvest_vault: harvest_pda(&FARM, &HM1), farm_signer_pda: signer_pda(&FARM), token_program: TOKEN }, ix::new_harvest_period(HM1, 0, 10, 10))
        }
        4 => {
            w.add(fresh(whitelist_pda(&FARM, &FARM2)));
            distinct(&w, WHO);
            send(&w, ac::WhitelistFarmForCompouding { admin: WHO, source_farm: FARM, target_farm: FARM2, whitelist_compounding: whitelist_pda(&FARM, &FARM2), system_program: SYS }, ix::whitelist_farm_for_compounding())
        }
        5 => {
            w.add(whitelist(&FARM, &FARM2));
            distinct(&w, WHO);
            send(&w, ac::DewhitelistFarmForCompounding { admin: WHO, source_farm: FARM, target_farm: FARM2, whitelist_compounding: whitelist_pda(&FARM, &FARM2), system_program: SYS }, ix::dewhitelist_farm_for_compounding())
        }
        _ => {
            w.add_as(WHO2, signer(wallet(OTHER), true));
            let r = send(&w, ac::SetFarmOwner { admin: WHO, new_farm_admin: WHO2, farm: FARM }, ix::set_farm_owner());
            if r.is_ok() { sx::check(f.m().admin == OTHER, "the new admin is stored"); f.m().admin = admin; }
            r
        }
    };
    if r.is_ok() { sx::cover("ok"); } else { sx::cover("refused"); }
    sx::check(r.is_ok() == auth, "a setting changes exactly when the farm's admin signs");
    let a = f.m();
    sx::check(a.admin == admin && a.stake_mint == before.stake_mint && a.stake_vault == before.stake_vault && (what == 0 || a.min_snapshot_window_slots == before.min_snapshot_window_slots)
        && a.snapshots.ring_buffer_tip == before.snapshots.ring_buffer_tip && same_ring(a, &before, 9999), "no other setting changes");
    for i in 0..10 { sx::check((what == 1 && i == 0) || ((what == 2 || what == 3) && i == 1) || same_periods(&a.harvests[i], &before.harvests[i]), "no other harvest changes"); }
}
/// the admin of one farm has no say over another
#[no_mangle]
pub extern "C" fn h_f09_accounts() {
    let mut w = World::new(ID, 100);
    let f = add_farm(&mut w, FARM, SMINT, 1000);
    add_harvest(&mut w, f, FARM, 1, HM1, 0);
    let g = add_farm(&mut w, FARM2, SMINT, 1000);
    g.m().admin = OTHER;
    user(&mut w, ADMIN, true);
    user(&mut w, OTHER, true);
    w.add(whitelist(&FARM, &FARM2));
    w.add(whitelist(&FARM2, &FARM));
    match sx::choose("endpoint", 5) {
        0 => attack(&mut w, ac::SetMinSnapshotWindow { admin: ADMIN, farm: FARM }, &[], ix::set_min_snapshot_window(5), &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(FARM2)), (1, Bad::Owner), (1, Bad::Type)]),
        1 => attack(&mut w, ac::RemoveHarvest { admin: ADMIN, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_vault: harvest_pda(&FARM, &HM1), token_program: TOKEN }, &[], ix::remove_harvest(HM1),
            &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(FARM2)), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Alias), (3, Bad::Alias), (3, Bad::Is(vault_pda(&FARM))), (4, Bad::Alias)]),
        2 => attack(&mut w, ac::SetFarmOwner { admin: ADMIN, new_farm_admin: OTHER, farm: FARM }, &[], ix::set_farm_owner(), &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::NoSign), (2, Bad::Is(FARM2)), (2, Bad::Owner), (2, Bad::Type)]),
        3 => attack(&mut w, ac::DewhitelistFarmForCompounding { admin: ADMIN, source_farm: FARM, target_farm: FARM2, whitelist_compounding: whitelist_pda(&FARM, &FARM2), system_program: SYS }, &[], ix::dewhitelist_farm_for_compounding(),
            &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(FARM2)), (2, Bad::Is(FARM)), (3, Bad::Is(whitelist_pda(&FARM2, &FARM))), (3, Bad::Alias), (3, Bad::Owner), (3, Bad::Type), (1, Bad::Owner), (1, Bad::Type)]),
        _ => {
            w.add(fresh(whitelist_pda(&FARM, &FARM)));
            // the whitelist entry must be that of the two farms, and new
            attack(&mut w, ac::WhitelistFarmForCompouding { admin: ADMIN, source_farm: FARM, target_farm: FARM, whitelist_compounding: whitelist_pda(&FARM, &FARM), system_program: SYS }, &[], ix::whitelist_farm_for_compounding(),
                &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(FARM2)), (2, Bad::Is(FARM2)), (3, Bad::Alias), (3, Bad::Is(whitelist_pda(&FARM, &FARM2))), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Owner), (2, Bad::Type)])
        }
    }
}
/// a farm whose harvest slots below `n` are taken, any of them by HM1
fn harvest_table(w: &mut World, taken: u64) -> F {
    let f = add_farm(w, FARM, SMINT, 1000);
    let (mut j, t) = (0u8, taken);
    for i in 0..10 {
        if t >> i & 1 == 1 {
            f.m().harvests[i].mint = key(100 + i as u8);
            f.m().harvests[i].vault = key(120 + i as u8);
            f.m().harvests[i].periods[0] = period(sx::range("tps", 0, BIG), sx::range("s", 0, BIG), sx::range("e", 0, BIG));
            f.m().harvests[i].periods[9] = period(3, 1, 2);
            j += 1;
        }
    }
    let _ = j;
    user(w, ADMIN, true);
    f
}
#[no_mangle]
pub extern "C" fn h_f08_add() {
    let mut w = World::new(ID, sx::range("now", 1, BIG));
    let masks = [0u64, 1, 0b10, 0b1011, 0b1110111111, 0b111111111, 0b1111111110, 0b1111111111];
    let taken = masks[sx::choose("table", 8) as usize];
    let f = harvest_table(&mut w, taken);
    let known = sx::flag("known");
    let m = if known { key(100) } else { NMINT };
    w.add(mint(m, None, None, sx::any("supply")));
    let v = harvest_pda(&FARM, &m);
    w.add(fresh(v));
    // stale periods of a harvest removed earlier must not come back
    if taken & 2 == 0 { f.m().harvests[1].periods[3] = period(8, 8, 8); }
    let before = f.snap();
    let r = send(&w, ac::AddHarvest { admin: ADMIN, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_mint: m, harvest_vault: v, token_program: TOKEN, system_program: SYS, rent: RENT }, ix::add_harvest());
    let may = taken != 0b1111111111 && !(known && taken & 1 == 1);
    sx::check(r.is_ok() == may, "a harvest is added unless its mint is known or the table is full");
    if r.is_ok() {
        sx::cover("ok");
        let mut n = 0;
        for i in 0..10 {
            let h = &f.m().harvests[i];
            if h.mint == m {
                n += 1;
                sx::check(before.harvests[i].mint == Pubkey::default(), "a harvest never takes the place of another one");
                sx::check(h.vault == v, "the vault of the harvest is recorded");
                let mut none = true;
                for p in h.periods.iter() { none &= eq_period(p, &period(0, 0, 0)); }
                sx::check(none, "a new harvest starts without periods");
            } else { sx::check(same_periods(h, &before.harvests[i]), "other harvests are kept"); }
        }
        sx::check(n == 1, "the mint is listed once");
        let i = w.get(&v);
        sx::check(*i.owner == TOKEN && tok_mint(&i) == m && tok_owner(&i) == signer_pda(&FARM) && bal(&i) == 0, "an empty vault owned by the farm is created");
        sx::check(same_but_harvests(f, &before), "nothing else in the farm changes");
    } else { sx::cover("refused"); }
}
#[no_mangle]
pub extern "C" fn h_f08_remove() {
    let mut w = World::new(ID, sx::range("now", 1, BIG));
    let masks = [1u64, 0b10, 0b1011, 0b111, 0b1111111111];
    let taken = masks[sx::choose("table", 5) as usize];
    let f = harvest_table(&mut w, taken);
    let n = sx::choose("which", 4) as u8; // 2, 3 may be unknown to the farm
    let m = key(100 + n);
    let v = harvest_pda(&FARM, &m);
    let left = sx::any("left");
    w.add(token(v, m, signer_pda(&FARM), left));
    // vaults of other harvests, one of this farm and one of the same mint in another farm
    let m2 = key(100 + (n + 1) % 10);
    let (v2, v3) = (harvest_pda(&FARM, &m2), harvest_pda(&FARM2, &m));
    w.add(token(v2, m2, signer_pda(&FARM), sx::any("other_left")));
    w.add(token(v3, m, signer_pda(&FARM), sx::any("far_left")));
    let passed = [v, v2, v3][sx::choose("vault", 3) as usize];
    let before = f.snap();
    let lam = w.get(&ADMIN).lamports();
    let r = send(&w, ac::RemoveHarvest { admin: ADMIN, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_vault: passed, token_program: TOKEN }, ix::remove_harvest(m));
    let known = taken >> n & 1 == 1;
    sx::check(r.is_ok() == (known && passed == v && left == 0), "a harvest is removed only if it exists and none of its tokens are left in its vault");
    sx::check(!closed(&w.get(&v2)) && !closed(&w.get(&v3)), "other vaults stay open");
    if r.is_ok() {
        sx::cover("ok");
        for i in 0..10 {
            let h = &f.m().harvests[i];
            if i == n as usize {
                sx::check(h.mint == Pubkey::default() && h.vault == Pubkey::default(), "the harvest is gone");
                let mut none = true;
                for p in h.periods.iter() { none &= eq_period(p, &period(0, 0, 0)); }
                sx::check(none, "its periods are gone");
            } else { sx::check(same_periods(h, &before.harvests[i]), "other harvests are kept"); }
        }
        sx::check(closed(&w.get(&v)) && w.get(&ADMIN).lamports() > lam, "the vault is closed and its rent goes to the admin");
        sx::check(same_but_harvests(f, &before), "nothing else in the farm changes");
    } else {
        sx::cover("refused");
        sx::check(!closed(&w.get(&v)), "the vault stays open");
    }
}
#[no_mangle]
pub extern "C" fn h_f08_accounts() {
    let mut w = World::new(ID, 100);
    let f = add_farm(&mut w, FARM, SMINT, 1000);
    let _ = f;
    add_farm(&mut w, FARM2, SMINT, 0);
    user(&mut w, ADMIN, true);
    w.add(mint(NMINT, None, None, 5));
    w.add(fresh(harvest_pda(&FARM, &NMINT)));
    w.add(fresh(harvest_pda(&FARM2, &NMINT)));
    let taken = key(93);
    w.add(token(taken, NMINT, signer_pda(&FARM), 0));
    attack(&mut w, ac::AddHarvest { admin: ADMIN, farm: FARM, farm_signer_pda: signer_pda(&FARM), harvest_mint: NMINT, harvest_vault: harvest_pda(&FARM, &NMINT), token_program: TOKEN, system_program: SYS, rent: RENT }, &[], ix::add_harvest(),
        &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Alias), (2, Bad::Is(signer_pda(&FARM2))), (3, Bad::Owner), (4, Bad::Alias), (4, Bad::Is(harvest_pda(&FARM2, &NMINT))), (4, Bad::Is(taken)), (5, Bad::Alias), (6, Bad::Alias)]);
}
#[no_mangle]
pub extern "C" fn h_f16_farm() {
    let mut w = World::new(ID, sx::range("now", 1, BIG));
    let (a, signed) = anyone(&mut w, WHO, "admin");
    let (f, i) = farm_acc(FARM);
    let disc = sx::any("type");
    i.data.borrow_mut()[0..8].copy_from_slice(&disc.to_le_bytes());
    w.add(i.clone());
    w.add(wallet(signer_pda(&FARM)));
    w.add(mint(SMINT, None, None, sx::any("supply")));
    w.add(fresh(vault_pda(&FARM)));
    distinct(&w, WHO);
    let r = send(&w, ac::CreateFarm { admin: WHO, farm: FARM, farm_signer_pda: signer_pda(&FARM), stake_mint: SMINT, stake_vault: vault_pda(&FARM), token_program: TOKEN, system_program: SYS, rent: RENT }, ix::create_farm());
    sx::check(r.is_ok() == (signed && disc == 0), "a farm is created once, by an admin who signs");
    if r.is_ok() {
        sx::cover("ok");
        let m = f.m();
        sx::check(m.admin == a && m.stake_mint == SMINT && m.stake_vault == vault_pda(&FARM), "the farm records its admin, mint and vault");
        sx::check(m.min_snapshot_window_slots == 0 && m.snapshots.ring_buffer_tip == 0, "the history starts empty");
        for h in m.harvests.iter() { sx::check(h.mint == Pubkey::default(), "a new farm has no harvest"); }
        for s in m.snapshots.ring_buffer.iter() { sx::check(s.started_at.slot == 0 && s.staked.amount == 0, "a new farm has no snapshots"); }
        let v = w.get(&vault_pda(&FARM));
        sx::check(*v.owner == TOKEN && tok_mint(&v) == SMINT && tok_owner(&v) == signer_pda(&FARM) && bal(&v) == 0, "an empty stake vault owned by the farm is created");
        let d = i.data.borrow();
        sx::check(d[0..8] == <Farm as anchor_lang::Discriminator>::discriminator(), "the account becomes a farm");
    } else { sx::cover("refused"); }
}
#[no_mangle]
pub extern "C" fn h_f16_farmer() {
    let mut w = World::new(ID, sx::range("now", 1, BIG));
    let f = add_farm(&mut w, FARM, SMINT, 1000);
    for i in 0..10 { f.m().harvests[i].mint = if i == 4 || i == 7 { Pubkey::default() } else { key(100 + i as u8) }; }
    let signed = sx::flag("signs");
    w.add(signer(wallet(OTHER), signed));
    user(&mut w, USER, sx::flag("user_signs"));
    let p = farmer_pda(&FARM, &USER);
    let exists = sx::choose("exists", 2) == 1;
    if exists { let mut x = farmer_of(FARM, USER); x.staked = t(5); add_farmer(&mut w, &x); } else { w.add(fresh(p)); }
    let r = send(&w, ac::CreateFarmer { payer: OTHER, authority: USER, farmer: p, farm: FARM, system_program: SYS }, ix::create_farmer());
    sx::check(r.is_ok() == (signed && !exists), "a farmer is created once per user and farm, whoever pays");
    let i = w.get(&p);
    if r.is_ok() {
        sx::cover("ok");
        let x = de_farmer(&i);
        sx::check(*i.owner == ID, "the farmer belongs to the program");
        sx::check(x.authority == USER && x.farm == FARM, "the farmer is its user's");
        sx::check(x.staked.amount == 0 && x.vested.amount == 0, "a new farmer holds no stake");
        for h in x.harvests.iter() { sx::check(h.tokens.amount == 0, "a new farmer has no harvest"); }
        for n in 0..10u8 { if n != 4 && n != 7 { sx::check(x.harvests.iter().filter(|h| h.mint == key(100 + n)).count() == 1, "every harvest of the farm is listed"); } }
    } else {
        sx::cover("refused");
        if exists { sx::check(de_farmer(&i).staked.amount == 5, "an existing farmer is not replaced"); }
    }
}
#[no_mangle]
pub extern "C" fn h_f16_accounts() {
    let mut w = World::new(ID, 100);
    add_farm(&mut w, FARM, SMINT, 1000);
    add_farm(&mut w, FARM2, SMINT, 1000);
    user(&mut w, OTHER, true);
    user(&mut w, USER, true);
    if sx::choose("endpoint", 2) == 0 {
        w.add(fresh(farmer_pda(&FARM, &USER)));
        w.add(fresh(farmer_pda(&FARM, &OTHER)));
        attack(&mut w, ac::CreateFarmer { payer: OTHER, authority: USER, farmer: farmer_pda(&FARM, &USER), farm: FARM, system_program: SYS }, &[], ix::create_farmer(),
            &[(0, Bad::NoSign), (1, Bad::Is(OTHER)), (2, Bad::Alias), (2, Bad::Is(farmer_pda(&FARM, &OTHER))), (3, Bad::Is(FARM2)), (3, Bad::Owner), (3, Bad::Type), (4, Bad::Alias)]);
    } else {
        let nf = key(3);
        let (_, i) = farm_acc(nf);
        for x in i.data.borrow_mut()[0..8].iter_mut() { *x = 0; }
        w.add(i);
        w.add(wallet(signer_pda(&nf)));
        w.add(mint(SMINT, None, None, 9));
        w.add(fresh(vault_pda(&nf)));
        w.add(fresh(harvest_pda(&nf, &SMINT)));
        attack(&mut w, ac::CreateFarm { admin: USER, farm: nf, farm_signer_pda: signer_pda(&nf), stake_mint: SMINT, stake_vault: vault_pda(&nf), token_program: TOKEN, system_program: SYS, rent: RENT }, &[], ix::create_farm(),
            &[(0, Bad::NoSign), (1, Bad::Is(FARM)), (1, Bad::Owner), (2, Bad::Alias), (2, Bad::Is(signer_pda(&FARM))), (3, Bad::Owner), (4, Bad::Alias), (4, Bad::Is(vault_pda(&FARM))), (4, Bad::Is(harvest_pda(&nf, &SMINT))), (5, Bad::Alias), (6, Bad::Alias)]);
    }
}
