//! F10 staking, F11 unstaking, F12 claiming, F14 closing and airdrops: who may
//! do it and what exactly moves.
use anchor_lang::prelude::*;
use crate::util::*;
use crate::admin::WHO;

const NOW: u64 = 5000;
const HW1: Pubkey = key(52);
const HW2: Pubkey = key(53);
const ANY: u64 = u64::MAX;

/// a farm with two harvests whose only snapshot was taken before NOW, another
/// farm alike, farmers of USER and OTHER in both
fn stage() -> (World, F) {
    let mut w = World::new(ID, NOW);
    let f = add_farm(&mut w, FARM, SMINT, sx::any("stake_vault"));
    set_ring(f, 1, &[(100, 10)]);
    add_harvest(&mut w, f, FARM, 0, HM1, sx::any("vault1"));
    add_harvest(&mut w, f, FARM, 1, HM2, sx::any("vault2"));
    let g = add_farm(&mut w, FARM2, SMINT, ANY / 2);
    add_harvest(&mut w, g, FARM2, 0, HM1, ANY / 2);
    (w, f)
}
/// USER's farmer, up to date
fn mine(w: &mut World, signs: bool) -> Info {
    let mut x = farmer_of(FARM, USER);
    x.staked = t(sx::any("staked"));
    x.vested = t(sx::any("vested"));
    x.vested_at = s(sx::range("vested_at", 10, NOW));
    x.calculate_next_harvest_from = s(NOW + 1);
    set_harvest(&mut x, 0, HM1, sx::any("tokens1"));
    set_harvest(&mut x, 1, HM2, sx::any("tokens2"));
    user(w, USER, signs);
    add_farmer(w, &x)
}
fn others(w: &mut World) {
    for (f, u) in [(FARM, OTHER), (FARM2, USER), (FARM2, OTHER)] {
        let mut x = farmer_of(f, u);
        x.staked = t(1 << 40);
        x.calculate_next_harvest_from = s(NOW + 1);
        set_harvest(&mut x, 0, HM1, 1 << 40);
        add_farmer(w, &x);
    }
}
fn start(i: &Info) -> ac::StartFarming { ac::StartFarming { wallet_authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, stake_vault: vault_pda(&FARM), token_program: TOKEN } }
fn stop(i: &Info) -> ac::StopFarming { ac::StopFarming { authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, farm_signer_pda: signer_pda(&FARM), stake_vault: vault_pda(&FARM), token_program: TOKEN } }
fn claim(i: &Info) -> ac::ClaimEligibleHarvest { ac::ClaimEligibleHarvest { authority: USER, farmer: *i.key, farm_signer_pda: signer_pda(&FARM), token_program: TOKEN } }

#[no_mangle]
pub extern "C" fn h_f10_amounts() {
    let (mut w, _) = stage();
    let signs = sx::flag("signs");
    let i = mine(&mut w, signs);
    let x = de_farmer(&i);
    let n = sx::any("n");
    w.add(token(UW, SMINT, USER, sx::any("wallet")));
    let (wal, vau) = (w.get(&UW), w.get(&vault_pda(&FARM)));
    let (w0, v0) = (bal(&wal), bal(&vau));
    let fits = v0.checked_add(n).is_some() && x.vested.amount.checked_add(n).is_some();
    let r = send(&w, start(&i), ix::start_farming(n));
    let y = de_farmer(&i);
    sx::check(r.is_ok() == (signs & (n > 0) & (w0 >= n) & fits), "stake is taken exactly when its owner signs and holds it");
    if r.is_ok() {
        sx::cover("ok");
        sx::check((bal(&wal) == w0 - n) & (bal(&vau) == v0 + n), "the stake moves from the wallet to the stake vault");
        sx::check((y.vested.amount == x.vested.amount + n) & (y.staked.amount == x.staked.amount), "the farmer is credited exactly the stake moved");
        sx::check(y.vested_at.slot == NOW, "the deposit starts vesting now");
        sx::check((tokens_of(&y, &HM1) == tokens_of(&x, &HM1)) & (tokens_of(&y, &HM2) == tokens_of(&x, &HM2)), "the harvest is not affected");
        sx::check(y.authority == USER && y.farm == FARM, "the farmer keeps its owner and farm");
        sx::check(unsafe { CPIS } == 1, "nothing else moves");
    } else { sx::cover("refused"); }
}
#[no_mangle]
pub extern "C" fn h_f10_accounts() {
    let (mut w, _) = stage();
    let i = mine(&mut w, true);
    others(&mut w);
    w.add(token(UW, SMINT, USER, 1 << 40));
    let theirs = key(94);
    w.add(token(theirs, SMINT, OTHER, 1 << 40));
    let wrong_mint = key(95);
    w.add(token(wrong_mint, HM1, USER, 1 << 40));
    attack(&mut w, start(&i), &[], ix::start_farming(sx::range("n", 1, 1 << 40)),
        &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(farmer_pda(&FARM2, &USER))), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Is(theirs)), (2, Bad::Is(wrong_mint)), (2, Bad::Is(vault_pda(&FARM))),
          (3, Bad::Is(FARM2)), (3, Bad::Owner), (3, Bad::Type), (4, Bad::Alias), (4, Bad::Is(vault_pda(&FARM2))), (4, Bad::Is(theirs)), (5, Bad::Alias)]);
}
#[no_mangle]
pub extern "C" fn h_f11_amounts() {
    let (mut w, _) = stage();
    let signs = sx::flag("signs");
    let i = mine(&mut w, signs);
    let x = de_farmer(&i);
    let n = sx::any("n");
    w.add(token(UW, SMINT, USER, sx::any("wallet")));
    let (wal, vau) = (w.get(&UW), w.get(&vault_pda(&FARM)));
    let (w0, v0) = (bal(&wal), bal(&vau));
    // what the farmers own is in the vault, all tokens fit
    let (a, b) = (x.staked.amount, x.vested.amount);
    let total = match a.checked_add(b) { Some(t) => t, None => { sx::assume(false); 0 } };
    sx::assume((v0 >= total) & w0.checked_add(v0).is_some());
    let r = send(&w, stop(&i), ix::stop_farming(n));
    let y = de_farmer(&i);
    sx::check(r.is_ok() == (signs & (n > 0)), "the owner can always take stake out");
    if r.is_ok() {
        sx::cover("ok");
        let out = min(n, total);
        let v = min(out, b);
        sx::check((bal(&wal) == w0 + out) & (bal(&vau) == v0 - out), "exactly the stake asked for is paid, at most all of it");
        sx::check((y.vested.amount == b - v) & (y.staked.amount == a - (out - v)), "vested stake is taken out before staked one");
        sx::check((tokens_of(&y, &HM1) == tokens_of(&x, &HM1)) & (tokens_of(&y, &HM2) == tokens_of(&x, &HM2)), "the harvest is not affected");
        sx::check(y.vested_at.slot == x.vested_at.slot && y.authority == USER && y.farm == FARM, "the farmer keeps its owner and farm");
        sx::check(unsafe { CPIS } == 1, "nothing else moves");
    } else { sx::cover("refused"); }
}
#[no_mangle]
pub extern "C" fn h_f11_accounts() {
    let (mut w, _) = stage();
    let i = mine(&mut w, true);
    others(&mut w);
    user(&mut w, OTHER, true);
    sx::assume(de_farmer(&i).vested.amount == 1 << 40);
    w.add(token(UW, SMINT, USER, 0));
    let wrong_mint = key(95);
    w.add(token(wrong_mint, HM1, USER, 0));
    attack(&mut w, stop(&i), &[], ix::stop_farming(sx::range("n", 1, 1 << 40)),
        &[(0, Bad::NoSign), (0, Bad::Is(OTHER)), (1, Bad::Is(farmer_pda(&FARM, &OTHER))), (1, Bad::Is(farmer_pda(&FARM2, &USER))), (1, Bad::Owner), (1, Bad::Type), (1, Bad::Alias), (2, Bad::Is(wrong_mint)),
          (3, Bad::Is(FARM2)), (3, Bad::Owner), (3, Bad::Type), (4, Bad::Alias), (4, Bad::Is(signer_pda(&FARM2))), (5, Bad::Alias), (5, Bad::Is(vault_pda(&FARM2))), (5, Bad::Is(harvest_pda(&FARM, &HM1))), (6, Bad::Alias)]);
}
#[no_mangle]
pub extern "C" fn h_f12_amounts() {
    let (mut w, _) = stage();
    let signs = sx::flag("signs");
    let i = mine(&mut w, signs);
    let x = de_farmer(&i);
    w.add(token(HW1, HM1, OTHER, sx::range("w1", 0, 1 << 60)));
    w.add(token(HW2, HM2, USER, sx::range("w2", 0, 1 << 60)));
    let (p1, p2) = (harvest_pda(&FARM, &HM1), harvest_pda(&FARM, &HM2));
    let (v1, v2, u1, u2) = (w.get(&p1), w.get(&p2), w.get(&HW1), w.get(&HW2));
    let before = (bal(&v1), bal(&v2), bal(&u1), bal(&u2));
    let (t1, t2) = (tokens_of(&x, &HM1), tokens_of(&x, &HM2));
    sx::assume((t1 < 1 << 60) & (t2 < 1 << 60));
    sx::assume((before.0 >= t1) & (before.1 >= t2)); // F05
    let which = sx::choose("which", 6);
    let extra = match which { 0 => vec![p1, HW1], 1 => vec![p1, HW1, p2, HW2], 2 => vec![p2, HW2, p1, HW1], 3 => vec![p1, HW1, p1, HW1], 4 => vec![], _ => vec![p1] };
    let r = send_extra(&w, claim(&i), &extra, ix::claim_eligible_harvest());
    let y = de_farmer(&i);
    sx::check(r.is_ok() == (signs && which < 4), "the owner can always claim");
    if r.is_ok() {
        sx::cover("ok");
        let second = which == 1 || which == 2;
        sx::check((bal(&v1) == before.0 - t1) & (bal(&u1) == before.2 + t1), "exactly the harvest accrued is paid, once");
        sx::check(tokens_of(&y, &HM1) == 0, "harvest which was paid is cleared");
        if second {
            sx::check((bal(&v2) == before.1 - t2) & (bal(&u2) == before.3 + t2), "exactly the harvest accrued is paid, once");
            sx::check(tokens_of(&y, &HM2) == 0, "harvest which was paid is cleared");
        } else {
            sx::check((bal(&v2) == before.1) & (tokens_of(&y, &HM2) == t2), "harvest which was not claimed is kept");
        }
        sx::check((y.staked.amount == x.staked.amount) & (y.vested.amount == x.vested.amount) & (y.vested_at.slot == x.vested_at.slot) & (y.calculate_next_harvest_from.slot == NOW + 1), "claiming does not touch the stake");
        sx::check(y.authority == USER && y.farm == FARM, "the farmer keeps its owner and farm");
    } else { sx::cover("refused"); }
}
/// all ten harvests a farmer can have, claimed in one go in various lists
#[no_mangle]
pub extern "C" fn h_f12_many() {
    let mut w = World::new(ID, NOW);
    let f = add_farm(&mut w, FARM, SMINT, ANY / 2);
    set_ring(f, 1, &[(100, 10)]);
    let mut x = farmer_of(FARM, USER);
    x.staked = t(7);
    x.calculate_next_harvest_from = s(NOW + 1);
    let m = |j: usize| key(100 + j as u8);
    let u = |j: usize| key(120 + j as u8);
    let mut before = vec![];
    for j in 0..10 {
        let (had, v) = (sx::range("tokens", 0, 1 << 60), sx::range("vault", 0, 1 << 60));
        sx::assume(v >= had); // F05
        add_harvest(&mut w, f, FARM, j, m(j), v);
        // the farmer's table is in another order
        set_harvest(&mut x, 9 - j, m(j), had);
        w.add(token(u(j), m(j), OTHER, 3));
        before.push((had, v));
    }
    user(&mut w, USER, true);
    let i = add_farmer(&mut w, &x);
    let list: Vec<usize> = match sx::choose("list", 5) {
        0 => (0..10).collect(),
        1 => (0..10).rev().collect(),
        2 => vec![1, 3, 5, 7, 9],
        3 => vec![4, 4, 8, 0, 8, 4],
        _ => (0..10).chain(0..10).collect(),
    };
    let mut extra = vec![];
    for j in &list { extra.push(harvest_pda(&FARM, &m(*j))); extra.push(u(*j)); }
    let r = send_extra(&w, claim(&i), &extra, ix::claim_eligible_harvest());
    sx::check(r.is_ok(), "the owner can always claim");
    let y = de_farmer(&i);
    for j in 0..10 {
        let paid = if list.contains(&j) { before[j].0 } else { 0 };
        sx::check((bal(&w.get(&u(j))) == 3 + paid) & (bal(&w.get(&harvest_pda(&FARM, &m(j)))) == before[j].1 - paid), "exactly the harvest accrued is paid, once");
        sx::check(tokens_of(&y, &m(j)) == before[j].0 - paid, "harvest which was paid is cleared, harvest which was not is kept");
    }
    sx::check(y.staked.amount == 7 && y.vested.amount == 0 && y.calculate_next_harvest_from.slot == NOW + 1, "claiming does not touch the stake");
    sx::cover("ok");
}
#[no_mangle]
pub extern "C" fn h_f12_accounts() {
    let (mut w, _) = stage();
    let i = mine(&mut w, true);
    others(&mut w);
    user(&mut w, OTHER, true);
    w.add(token(HW1, HM1, USER, 0));
    w.add(token(HW2, HM2, USER, 0));
    let p1 = harvest_pda(&FARM, &HM1);
    let x = de_farmer(&i);
    sx::assume((tokens_of(&x, &HM1) > 0) & (bal(&w.get(&p1)) >= tokens_of(&x, &HM1)));
    attack(&mut w, claim(&i), &[p1, HW1], ix::claim_eligible_harvest(),
        &[(0, Bad::NoSign), (0, Bad::Is(OTHER)), (1, Bad::Is(farmer_pda(&FARM, &OTHER))), (1, Bad::Is(farmer_pda(&FARM2, &USER))), (1, Bad::Owner), (1, Bad::Type), (1, Bad::Alias),
          (2, Bad::Alias), (2, Bad::Is(signer_pda(&FARM2))), (3, Bad::Alias), (4, Bad::Is(harvest_pda(&FARM2, &HM1))), (4, Bad::Is(vault_pda(&FARM))), (4, Bad::Alias), (5, Bad::Is(HW2))]);
}
#[no_mangle]
pub extern "C" fn h_f14_close() {
    let mut w = World::new(ID, NOW);
    let mut x = farmer_of(FARM, USER);
    x.staked = t(sx::any("staked"));
    x.vested = t(sx::any("vested"));
    let pos = [0usize, 4, 9];
    let mut owed = false;
    for (j, n) in pos.iter().enumerate() { let v = sx::any("tokens"); owed |= v != 0; set_harvest(&mut x, *n, key(100 + j as u8), v); }
    let empty = (x.staked.amount == 0) & (x.vested.amount == 0) & !owed;
    let i = add_farmer(&mut w, &x);
    let (k, signed) = anyone(&mut w, WHO, "user");
    distinct(&w, WHO);
    let lam = w.get(&WHO).lamports();
    let r = send(&w, ac::CloseFarmer { authority: WHO, farmer: *i.key }, ix::close_farmer());
    sx::check(r.is_ok() == (empty && signed && k == USER), "a farmer is closed only by its owner and once it holds nothing");
    if r.is_ok() {
        sx::cover("ok");
        sx::check(closed(&i) && w.get(&WHO).lamports() == lam + (1 << 30), "the rent goes to the owner");
    } else {
        sx::cover("refused");
        sx::check(!closed(&i), "the farmer stays open");
    }
}
#[no_mangle]
pub extern "C" fn h_f14_airdrop() {
    let (mut w, _) = stage();
    let signs = sx::flag("signs");
    let i = mine(&mut w, signs);
    let x = de_farmer(&i);
    let known = sx::choose("mint", 3);
    let m = [HM1, HM2, SMINT][known as usize];
    if known == 2 { w.add(token(harvest_pda(&FARM, &SMINT), SMINT, signer_pda(&FARM), 0)); }
    w.add(token(HW1, m, USER, sx::any("wallet")));
    let n = sx::any("n");
    let v = w.get(&harvest_pda(&FARM, &m));
    let u = w.get(&HW1);
    let (v0, w0) = (bal(&v), bal(&u));
    let fits = v0.checked_add(n).is_some() && tokens_of(&x, &m).checked_add(n).is_some();
    let r = send(&w, ac::Airdrop { wallet_authority: USER, farmer: *i.key, harvest_wallet: HW1, harvest_vault: harvest_pda(&FARM, &m), token_program: TOKEN }, ix::airdrop(n));
    let y = de_farmer(&i);
    sx::check(r.is_ok() == (signs & (n > 0) & (w0 >= n) & fits & (known < 2)), "an airdrop needs a funded wallet, its owner's signature and a known harvest");
    if r.is_ok() {
        sx::cover("ok");
        sx::check((bal(&u) == w0 - n) & (bal(&v) == v0 + n), "the tokens move to the harvest vault");
        sx::check(tokens_of(&y, &m) == tokens_of(&x, &m) + n, "the farmer is credited exactly the tokens moved");
        let o = [HM2, HM1][known as usize];
        sx::check(tokens_of(&y, &o) == tokens_of(&x, &o), "other harvests are not affected");
        sx::check((y.staked.amount == x.staked.amount) & (y.vested.amount == x.vested.amount) & (y.vested_at.slot == x.vested_at.slot) & (y.calculate_next_harvest_from.slot == NOW + 1) && y.authority == USER && y.farm == FARM, "nothing else changes");
    } else { sx::cover("refused"); }
}
#[no_mangle]
pub extern "C" fn h_f14_accounts() {
    let (mut w, _) = stage();
    let i = mine(&mut w, true);
    others(&mut w);
    user(&mut w, OTHER, true);
    w.add(token(HW1, HM1, USER, 1 << 40));
    w.add(token(HW2, HM2, OTHER, 1 << 40));
    let other_wallet = key(95);
    w.add(token(other_wallet, HM1, OTHER, 1 << 40));
    if sx::choose("endpoint", 2) == 0 {
        attack(&mut w, ac::Airdrop { wallet_authority: USER, farmer: *i.key, harvest_wallet: HW1, harvest_vault: harvest_pda(&FARM, &HM1), token_program: TOKEN }, &[], ix::airdrop(sx::range("n", 1, 1 << 40)),
            &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(farmer_pda(&FARM2, &USER))), (1, Bad::Owner), (1, Bad::Type), (2, Bad::Is(HW2)), (2, Bad::Is(other_wallet)), (2, Bad::Owner),
              (3, Bad::Alias), (3, Bad::Is(harvest_pda(&FARM2, &HM1))), (3, Bad::Is(other_wallet)), (3, Bad::Is(vault_pda(&FARM))), (4, Bad::Alias)]);
    } else {
        attack(&mut w, ac::CloseFarmer { authority: USER, farmer: *i.key }, &[], ix::close_farmer(), &[(0, Bad::NoSign), (0, Bad::Other), (0, Bad::Is(OTHER)), (1, Bad::Owner), (1, Bad::Type), (1, Bad::Is(farmer_pda(&FARM, &OTHER)))]);
    }
}
