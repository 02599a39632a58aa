//! F05: all farmers together are never owed more than was emitted; harvest
//! table bookkeeping (F04).
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::*;

/// Farmers holding at most the whole snapshot, each with a stake and updated last at its own time.
fn several(tip: usize, wins: &[(u64, u64)], ps: &[(u64, u64, u64)], now: u64, all: &[(u64, u64)]) {
    let mut w = World::new(ID, now);
    let f = add_farm(&mut w, FARM, SMINT, 0);
    set_ring(f, tip, wins);
    add_harvest(&mut w, f, FARM, 0, HM1, 0);
    for (i, p) in ps.iter().enumerate() { f.m().harvests[0].periods[i] = period(p.0, p.1, p.2); }
    let mut sum = W::n(0);
    let mut from = all[0].1;
    for (j, (st, m)) in all.iter().enumerate() {
        let mut x = farmer_of(FARM, [USER, OTHER, key(77), key(78)][j]);
        x.staked = t(*st);
        x.calculate_next_harvest_from = s(*m);
        set_harvest(&mut x, 0, HM1, 0);
        let i = add_farmer(&mut w, &x);
        let r = send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest());
        sx::check(r.is_ok(), "harvest can always be updated");
        let got = tokens_of(&de_farmer(&i), &HM1);
        sx::observe("got", got);
        sum = sum.add(W::n(got));
        from = min(from, *m);
    }
    // all tokens emitted from the earliest of them on
    let mut emitted = W::n(0);
    for (tps, ps, pe) in ps {
        let (l, h) = (max(from, *ps), min(now, *pe) + 1);
        emitted = emitted.add(W::n(*tps).mul(W::n(sx::ite(l < h, h.wrapping_sub(l), 0))));
    }
    sx::check(sum.le(emitted), "all farmers together are never owed more than was emitted");
    sx::cover("ok");
}
fn two(tip: usize, wins: &[(u64, u64)], ps: &[(u64, u64, u64)], now: u64, a: u64, b: u64, ma: u64, mb: u64) { several(tip, wins, ps, now, &[(a, ma), (b, mb)]) }
/// three or four farmers, any stakes
fn by_stakes(total: u64, tps: u64, n: u64, k: usize) {
    let all: Vec<(u64, u64)> = (0..k).map(|_| (sx::range("stake", 0, total), 100)).collect();
    let mut sum = 0;
    for x in &all { sum += x.0; }
    sx::assume(sum <= total);
    several(1, &[(total, 100)], &[(tps, 50, 5000)], 99 + n, &all);
}
/// many windows and periods; stakes which divide unevenly
fn by_history(stakes: &[u64], one: bool) {
    let totals = [7, 13, 11, 0, 23, 9];
    let wins: Vec<(u64, u64)> = (0..12u64).map(|i| (totals[i as usize % 6], (12 - i) * 100)).collect();
    let ps = [(7, 1150, 1230), (3, 1000, 1149), (11, 810, 900), (5, 700, 809), (9, 520, 555), (1, 450, 480), (13, 410, 430), (17, 330, 390), (3, 250, 329), (19, 90, 120)];
    let now = sx::range("now", 1201, 1299);
    let m = sx::range("m", 101, 1202);
    let all: Vec<(u64, u64)> = stakes.iter().enumerate().map(|(j, x)| (*x, if one { m } else if j == 0 { m } else { 300 + 101 * j as u64 })).collect();
    several(6, &wins, &ps, now, &all);
}
/// any stakes which make up at most the snapshot; fixed slots and total
fn by_stake(total: u64, tps: u64, n: u64) {
    let a = sx::range("a", 0, total);
    let b = sx::range("b", 0, total);
    sx::assume(a + b <= total);
    two(1, &[(total, 100)], &[(tps, 50, 5000)], 99 + n, a, b, 100, 100);
}
fn by_stake2(t0: u64, t1: u64, tps: u64) {
    let a = sx::range("a", 0, min(t0, t1));
    let b = sx::range("b", 0, min(t0, t1));
    sx::assume(a + b <= min(t0, t1));
    two(0, &[(t0, 160), (t1, 100)], &[(tps, 50, 5000)], 199, a, b, 100, 100);
}
/// any slots; fixed stakes
fn by_slot(total: u64, a: u64, b: u64, tps: u64, one_marker: bool) {
    let now = sx::range("now", 2, BIG);
    let at = sx::range("at", 1, BIG);
    let (s, e) = (sx::range("s", 1, BIG), sx::range("e", 1, BIG));
    let ma = sx::range("ma", 1, BIG);
    let mb = if one_marker { ma } else { sx::range("mb", 1, BIG) };
    sx::assume((at <= now) & (s <= e) & (ma <= now) & (mb <= now));
    two(5, &[(total, at)], &[(tps, s, e)], now, a, b, ma, mb);
}
fn by_slot2(t0: u64, t1: u64, a: u64, b: u64, tps: u64) {
    let now = sx::range("now", 2, BIG);
    let (at, at1) = (sx::range("at", 1, BIG), sx::range("at", 1, BIG));
    let (s, e) = (sx::range("s", 1, BIG), sx::range("e", 1, BIG));
    let m = sx::range("m", 1, BIG);
    sx::assume((at <= now) & (at1 < at) & (s <= e) & (m <= now));
    two(0, &[(t0, at), (t1, at1)], &[(tps, s, e)], now, a, b, m, m);
}
macro_rules! hs { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $c })* } }
hs! {
    h_f05_st3 by_stake(3, 1, 2);
    h_f05_st1000 by_stake(1000, 7, 13);
    h_f05_stbig by_stake(999_999_999_999, 1_000_003, 1000);
    h_f05_st2 by_stake2(7, 11, 5);
    h_f05_three by_stakes(1000, 7, 13, 3);
    h_f05_four by_stakes(1_000_003, 11, 17, 4);
    h_f05_hist by_history(&[1, 2, 4], true);
    h_f05_histm by_history(&[3, 2, 1, 1], false);
    h_f05_slot3 by_slot(3, 1, 2, 1, false);
    h_f05_slot7 by_slot(7, 4, 3, 1000, false);
    h_f05_slot11 by_slot(11, 5, 6, 3, true);
    h_f05_slot2 by_slot2(3, 7, 1, 2, 1);
}
/// Several harvest mints: each is counted on its own, whatever the order in
/// the tables of the farm and of the farmer.
#[no_mangle]
pub extern "C" fn h_f04_mints() {
    let now = 1000;
    let mut w = World::new(ID, now);
    let f = add_farm(&mut w, FARM, SMINT, 0);
    set_ring(f, 3, &[(8, 500)]);
    let m3 = key(34);
    let full = sx::choose("farm", 3);
    let (mut t1, mut t2) = (0, 0);
    match full {
        0 => { add_harvest(&mut w, f, FARM, 0, HM1, 0); add_harvest(&mut w, f, FARM, 1, HM2, 0); }
        1 => { add_harvest(&mut w, f, FARM, 9, HM1, 0); add_harvest(&mut w, f, FARM, 2, HM2, 0); }
        _ => { for i in 0..10 { let k = if i == 3 { HM1 } else if i == 6 { HM2 } else { key(100 + i as u8) }; add_harvest(&mut w, f, FARM, i, k, 0); f.m().harvests[i].periods[0] = period(800, 1, 5000); } }
    }
    for h in f.m().harvests.iter_mut() {
        if h.mint == HM1 { t1 = sx::range("tps1", 0, BIG) * 8; h.periods[0] = period(t1, 901, 5000); }
        if h.mint == HM2 { t2 = sx::range("tps2", 0, BIG) * 8; h.periods[0] = period(t2, 961, 5000); }
    }
    let mut x = farmer_of(FARM, USER);
    x.staked = t(4);
    x.calculate_next_harvest_from = s(801);
    let table = sx::choose("farmer", 4);
    let (mut o1, mut o2) = (0, 0);
    let (v1, v2) = (sx::range("had1", 0, BIG), sx::range("had2", 0, BIG));
    match table {
        0 => { set_harvest(&mut x, 0, HM1, v1); set_harvest(&mut x, 1, HM2, v2); o1 = v1; o2 = v2; }
        1 => { set_harvest(&mut x, 0, m3, 77); set_harvest(&mut x, 8, HM2, v2); o2 = v2; } // m3 was removed, HM1 is new
        2 => {}
        _ => { for i in 0..10 { set_harvest(&mut x, i, if i == 9 { HM1 } else { key(110 + i as u8) }, if i == 9 { v1 } else { 0 }); } o1 = v1; } // all others were removed
    }
    let i = add_farmer(&mut w, &x);
    let r = send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest());
    sx::check(r.is_ok(), "harvest can always be updated");
    let y = de_farmer(&i);
    sx::check(tokens_of(&y, &HM1) == o1 + 100 * t1 / 2, "each harvest accrues its own emission");
    sx::check(tokens_of(&y, &HM2) == o2 + 40 * t2 / 2, "each harvest accrues its own emission");
    for h in f.m().harvests.iter() {
        if h.mint == Pubkey::default() { continue; }
        sx::check(y.harvests.iter().filter(|e| e.mint == h.mint).count() == 1, "each harvest of the farm is listed once");
        if h.mint != HM1 && h.mint != HM2 { sx::check(tokens_of(&y, &h.mint) == 200 * 400, "each harvest accrues its own emission"); }
    }
    sx::check(tokens_of(&y, &m3) == 0, "harvests the farm removed are dropped");
    sx::cover("ok");
}
