//! Harvest periods: F06 (funding), F07 (calendar).
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::*;

pub const HW: Pubkey = key(51); // admin's harvest wallet
const LIM: u64 = 1 << 30;

pub struct P { pub w: World, pub f: F, pub now: u64, pub n: usize, pub oldest: u64 }
/// a farm with harvest HM1 having `n` periods, of which the newest may be
/// scheduled, and a full snapshot history
pub fn farm_with(n: usize, scheduled: bool) -> P {
    let now = sx::range("now", 1, LIM);
    let mut w = World::new(ID, now);
    let f = add_farm(&mut w, FARM, SMINT, 0);
    add_harvest(&mut w, f, FARM, 2, HM1, sx::range("vault", 0, u64::MAX / 2));
    add_harvest(&mut w, f, FARM, 0, HM2, 77);
    f.m().harvests[0].periods[0] = period(9, 5, 6);
    let oldest = sx::range("oldest", 0, LIM);
    sx::assume(oldest <= now);
    f.m().snapshots.ring_buffer_tip = 6;
    f.m().snapshots.ring_buffer[7] = snapshot(1, oldest);
    f.m().snapshots.ring_buffer[6] = snapshot(1, now);
    let mut last = LIM;
    for i in 0..n {
        let (s, e) = (sx::range("s", 1, LIM), sx::range("e", 1, LIM));
        sx::assume((s <= e) & (e < last));
        if i == 0 && scheduled { sx::assume(s > now) } else { sx::assume(s <= now) }
        f.m().harvests[2].periods[i] = period(sx::range("tps", 0, LIM), s, e);
        last = s;
    }
    user(&mut w, ADMIN, true);
    w.add(token(HW, HM1, ADMIN, sx::range("wallet", 0, u64::MAX / 2)));
    P { w, f, now, n, oldest }
}
pub fn accs() -> ac::NewHarvestPeriod {
    ac::NewHarvestPeriod { admin: ADMIN, farm: FARM, harvest_wallet: HW, harvest_vault: harvest_pda(&FARM, &HM1), farm_signer_pda: signer_pda(&FARM), token_program: TOKEN }
}
fn new_period(n: usize, scheduled: bool) {
    let p = farm_with(n, scheduled);
    let before = p.f.snap();
    let old = &before.harvests[2].periods;
    let (start, len, tps) = (sx::range("start", 0, LIM), sx::range("len", 0, LIM), sx::range("rate", 0, LIM));
    let vault = p.w.get(&harvest_pda(&FARM, &HM1));
    let wallet = p.w.get(&HW);
    let (v0, w0) = (bal(&vault), bal(&wallet));
    let r = send(&p.w, accs(), ix::new_harvest_period(HM1, start, len, tps));
    let from = sx::ite(start == 0, p.now, start);
    // the latest period which started already
    let run = if scheduled { 1 } else { 0 };
    let run_end = if n > run { old[run].ends_at.slot } else { 0 };
    let cost = len * tps; // < 2^60
    let paid = if scheduled { (old[0].ends_at.slot - old[0].starts_at.slot + 1) * old[0].tps.amount } else { 0 };
    let room = scheduled || n < 10 || old[9].ends_at.slot < p.oldest;
    let funds = ((cost <= paid) & (v0 >= paid - min(paid, cost))) | ((cost > paid) & (w0 >= cost - min(paid, cost)));
    let fits = cost <= paid || v0 <= u64::MAX - cost;
    let may = (len > 0) & (from >= p.now) & (from > run_end) & room;
    if r.is_ok() {
        sx::cover("ok");
        sx::check(len > 0, "a period lasts at least one slot");
        sx::check(from >= p.now, "a period cannot start in the past");
        sx::check(from > run_end, "a period cannot overlap one which started already");
        sx::check(room, "a period which snapshots still refer to is never dropped");
        let h = &p.f.m().harvests[2];
        let new = period(tps, from, from + len - 1);
        sx::check(eq_period(&h.periods[0], &new), "the new period is recorded as requested");
        let mut kept = true;
        for i in 1..10 { kept &= eq_period(&h.periods[i], &old[if scheduled { i } else { i - 1 }]); }
        sx::check(kept, "all other periods are kept, a scheduled one is replaced");
        let mut sorted = true;
        for i in 1..10 { sorted &= (h.periods[i].starts_at.slot == 0) | (h.periods[i].ends_at.slot < h.periods[i - 1].starts_at.slot); }
        sx::check(sorted, "periods stay sorted and never overlap");
        sx::check(bal(&vault) + paid == v0 + cost, "the vault receives exactly the tokens the period emits, less those of the one replaced");
        sx::check(bal(&wallet) + cost == w0 + paid, "the admin pays exactly the tokens the period emits, less those of the one replaced");
        let mut others = true;
        for i in 0..10 { if i != 2 { others &= same_periods(&p.f.m().harvests[i], &before.harvests[i]); } }
        sx::check(others && h.mint == HM1 && h.vault == before.harvests[2].vault, "other harvests are unaffected");
    } else {
        sx::cover("refused");
        sx::check(!(may && funds && fits), "a valid and funded period is accepted");
    }
}
macro_rules! np { ($($n:ident $k:expr, $s:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { new_period($k, $s) })* } }
np! {
    h_f06_n0 0, false; h_f06_n1 1, false; h_f06_n2 2, false; h_f06_n9 9, false; h_f06_n10 10, false;
    h_f06_n1s 1, true; h_f06_n2s 2, true; h_f06_n10s 10, true;
    h_f06_n3 3, false; h_f06_n4 4, false; h_f06_n5 5, false; h_f06_n6 6, false; h_f06_n7 7, false; h_f06_n8 8, false;
    h_f06_n3s 3, true; h_f06_n4s 4, true; h_f06_n5s 5, true; h_f06_n6s 6, true; h_f06_n7s 7, true; h_f06_n8s 8, true; h_f06_n9s 9, true;
}
#[no_mangle]
pub extern "C" fn h_f06_accounts() {
    let mut p = farm_with(1, sx::flag("scheduled"));
    let mut w = p.w;
    add_farm(&mut w, FARM2, SMINT, 0);
    w.add(token(harvest_pda(&FARM2, &HM1), HM1, signer_pda(&FARM2), u64::MAX / 2));
    let other = key(91);
    w.add(token(other, HM2, ADMIN, u64::MAX / 2));
    let third = key(92);
    w.add(token(third, HM1, OTHER, u64::MAX / 2));
    let (start, len, tps) = (sx::range("start", 0, LIM), sx::range("len", 0, LIM), sx::range("rate", 0, LIM));
    let c = sx::choose("kind", 2);
    if c == 0 {
        attack(&mut w, accs(), &[], ix::new_harvest_period(HM1, start, len, tps),
            &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Owner), (1, Bad::Type), (3, Bad::Alias), (3, Bad::Is(harvest_pda(&FARM2, &HM1))), (3, Bad::Owner), (4, Bad::Alias), (5, Bad::Alias), (2, Bad::Owner)]);
    } else {
        // a deposit must come from the admin's wallet of the harvest mint
        let paid = (p.f.m().harvests[2].periods[0].ends_at.slot - p.f.m().harvests[2].periods[0].starts_at.slot + 1) * p.f.m().harvests[2].periods[0].tps.amount;
        sx::assume(len * tps > paid);
        attack(&mut w, accs(), &[], ix::new_harvest_period(HM1, start, len, tps), &[(2, Bad::Is(other)), (2, Bad::Is(third))]);
    }
    p.n = 0;
}
