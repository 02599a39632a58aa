//! Accrual of harvest and vesting: F03, F04.
use anchor_lang::prelude::*;
use crate::util::*;
use farming::models::Farmer;

pub const WAD: u64 = 1_000_000_000_000_000_000;

pub struct Win { pub staked: u64, pub at: u64 }
/// Tokens of one harvest mint a farmer is owed for the slots from..until
/// (exclusive), given the snapshots (newest first) and the emission periods:
/// per snapshot window, floor of the sum over periods of
/// slots * tps * (stake / snapshot total), the share truncated to 18 decimals.
pub fn owed(wins: &[Win], periods: &[(u64, u64, u64)], stake: &dyn Fn(u64) -> u64, from: u64, until: u64) -> W {
    let mut total = W::n(0);
    let mut end = until; // exclusive
    for w in wins {
        if w.staked == 0 { end = min(end, w.at); continue; }
        let lo = max(w.at, from);
        let mut sum = W::n(0);
        for (tps, ps, pe) in periods {
            let l = max(lo, *ps);
            let h = min(end, *pe + 1);
            let slots = sx::ite(l < h, h.wrapping_sub(l), 0);
            // never more than the whole emission: stake <= snapshot
            let share = W::n(stake(w.at)).mul(W::n(WAD)).muldiv(W::n(1), W::n(w.staked));
            sum = sum.add(W::n(slots).mul(share).mul(W::n(*tps)));
        }
        total = total.add(sum.div(W::n(WAD)));
        end = min(end, w.at);
    }
    total
}

pub struct Cfg {
    pub tip: usize,
    /// amounts in the newest snapshots, newest first
    pub snaps: &'static [u64],
    /// the rest of the ring is filled with old snapshots
    pub old: bool,
    pub tps: &'static [u64],
    pub staked: u64,
    pub vested: u64,
    /// only up to a slot the caller names
    pub part: bool,
}
pub const OLD: u64 = 1 << 14;
/// snapshots symbolic slots, ascending, at least one slot apart, at most `now`
pub fn slots_of(c: &Cfg, now: u64) -> Vec<Win> {
    let mut v: Vec<Win> = vec![];
    let mut last = now + 1;
    for s in c.snaps {
        let at = sx::range("at", if c.old { OLD + 1 } else { 1 }, BIG);
        sx::assume(at < last);
        last = at;
        v.push(Win { staked: *s, at });
    }
    v
}
pub fn put_snaps(f: F, c: &Cfg, wins: &[Win]) {
    if c.old { for i in 0..1000 { f.m().snapshots.ring_buffer[(c.tip + 1000 - i) % 1000] = snapshot(8, OLD - i as u64 * 10); } }
    let l: Vec<(u64, u64)> = wins.iter().map(|w| (w.staked, w.at)).collect();
    set_ring(f, c.tip, &l);
}
pub fn periods_of(tps: &[u64]) -> Vec<(u64, u64, u64)> {
    // newest first
    let mut v = vec![];
    let mut last = 2 * BIG;
    for p in tps {
        let (s, e) = (sx::range("ps", 1, BIG), sx::range("pe", 1, BIG));
        sx::assume((s <= e) & (e < last));
        last = s;
        v.push((*p, s, e));
    }
    v
}
pub struct St { pub now: u64, pub f: F, pub wins: Vec<Win>, pub ps: Vec<(u64, u64, u64)>, pub m: u64, pub vat: u64, pub x: Farmer }
/// A farm with the configured history and one of its farmers, at any point a
/// farmer can be at.
pub fn setup(w: &mut World, k: Pubkey, now: u64, c: &Cfg, hm: Pubkey, staked_total: u64) -> St {
    let f = add_farm(w, k, SMINT, staked_total);
    let mut wins = slots_of(c, now);
    put_snaps(f, c, &wins);
    // nothing is ever counted from before the last of the old snapshots
    if c.old { wins.push(Win { staked: 8, at: OLD - 10 * c.snaps.len() as u64 }); }
    let ps = periods_of(c.tps);
    add_harvest(w, f, k, 0, hm, 1 << 60);
    for (i, p) in ps.iter().enumerate() { f.m().harvests[0].periods[i] = period(p.0, p.1, p.2); }
    let mut x = farmer_of(k, USER);
    let m = sx::range("marker", 1, BIG + 1);
    sx::assume(m <= now + 1);
    let mut vat = 0;
    x.staked = t(c.staked);
    x.vested = t(c.vested);
    if c.vested > 0 {
        vat = sx::range("vested_at", 1, BIG);
        sx::assume(vat <= m && vat <= now);
        // snapshots already taken when the farmer was last updated do not postdate the deposit
        for s in &wins { sx::assume((s.at <= vat) | (s.at + 1 >= m)); }
        x.vested_at = s(vat);
    }
    if c.old { sx::assume(m > OLD); }
    x.calculate_next_harvest_from = s(m);
    set_harvest(&mut x, 0, hm, 5);
    St { now, f, wins, ps, m, vat, x }
}
/// the harvest accrued by an update, and nothing else
pub fn accrued(c: &Cfg, s: &St, y: &Farmer, got: u64, full: bool) {
    let (m, m1, now, vat) = (s.m, y.calculate_next_harvest_from.slot, s.now, s.vat);
    sx::check((m1 >= m) & (m1 <= now + 1), "the slots counted never go back nor into the future");
    if full { sx::check((m1 >= now) & ((m >= now) | (m1 == now + 1) | (c.snaps.len() > 0 && m1 == s.wins[0].at)), "an update counts every slot up to now"); }
    sx::observe("m1", m1);
    sx::observe("got", got);
    let stake = |at: u64| if c.vested > 0 { c.staked + sx::ite(at > vat, c.vested, 0) } else { c.staked };
    let e = owed(&s.wins, &s.ps, &stake, m, m1);
    sx::check(W::n(got - 5).eq(e), "each slot since the last update is counted once, at the stake of its snapshot window");
    sx::check(y.authority == s.x.authority && y.farm == s.x.farm, "the farmer keeps its owner and farm");
}
/// deposits vested by the update
pub fn vests(c: &Cfg, s: &St) -> u64 {
    if c.vested == 0 || s.wins.is_empty() { return 0; }
    sx::ite(s.wins[0].at > s.vat, c.vested, 0)
}
pub fn step(c: &Cfg) {
    let now = sx::range("now", 1, BIG);
    let mut w = World::new(ID, now);
    let s = setup(&mut w, FARM, now, c, HM1, 0);
    let i = add_farmer(&mut w, &s.x);
    let mut until = now;
    let r = if c.part {
        until = sx::range("until", 0, BIG);
        send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest_until(until))
    } else {
        send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest())
    };
    sx::check(r.is_ok(), "harvest can always be updated");
    let until = min(until, now);
    let y = de_farmer(&i);
    accrued(c, &s, &y, tokens_of(&y, &HM1), !c.part);
    if c.part {
        let m1 = y.calculate_next_harvest_from.slot;
        let newest = if s.wins.is_empty() { 0 } else { s.wins[0].at };
        sx::check((m1 >= until) & ((m1 <= until + 1) | (m1 == s.m) | (m1 <= newest)), "a partial update counts the slots up to the one named");
    }
    sx::check(y.staked.amount + y.vested.amount == c.staked + c.vested, "updating harvest leaves the deposit unchanged");
    if c.vested > 0 {
        sx::check(y.vested_at.slot == s.vat, "the time of deposit is kept");
        sx::check(y.vested.amount == c.vested - vests(c, &s), "deposits vest exactly at the first snapshot after them");
    }
    sx::cover("ok");
}
/// staking, unstaking and compounding first count the harvest at the stake held so far
pub fn stakes(c: &Cfg, what: u64) {
    let now = sx::range("now", 1, BIG);
    let mut w = World::new(ID, now);
    let hm = if what == 2 { SMINT } else { HM1 };
    let st = setup(&mut w, FARM, now, c, hm, 1 << 50);
    let i = add_farmer(&mut w, &st.x);
    let n = sx::range("n", 1, 1 << 40);
    user(&mut w, USER, true);
    w.add(token(UW, SMINT, USER, 1 << 50));
    let r = match what {
        0 => send(&w, ac::StartFarming { wallet_authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, stake_vault: vault_pda(&FARM), token_program: TOKEN }, ix::start_farming(n)),
        1 => send(&w, ac::StopFarming { authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, farm_signer_pda: signer_pda(&FARM), stake_vault: vault_pda(&FARM), token_program: TOKEN }, ix::stop_farming(n)),
        _ => {
            w.add(whitelist(&FARM, &FARM));
            send(&w, ac::CompoundSameFarm { farm: FARM, farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM), stake_vault: vault_pda(&FARM),
                harvest_vault: harvest_pda(&FARM, &SMINT), farmer: *i.key, token_program: TOKEN }, ix::compound_same_farm())
        }
    };
    sx::check(r.is_ok(), "the operation succeeds");
    let y = de_farmer(&i);
    let moved = vests(c, &st);
    let (staked, vested) = (c.staked + moved, c.vested - moved);
    if what == 2 {
        let got = bal(&w.get(&vault_pda(&FARM))) - (1 << 50);
        accrued(c, &st, &y, got, true);
        sx::check(tokens_of(&y, &SMINT) == 0, "all of the harvest is compounded");
        sx::check((y.staked.amount == staked) & (y.vested.amount == vested + got), "compounded harvest is a new deposit, vesting from now on");
        sx::check(y.vested_at.slot == now, "the deposit starts vesting now");
    } else {
        accrued(c, &st, &y, tokens_of(&y, &hm), true);
        if what == 0 {
            sx::check((y.staked.amount == staked) & (y.vested.amount == vested + n), "new stake is vested first and vested stake counts from its snapshot on");
            sx::check(y.vested_at.slot == now, "the deposit starts vesting now");
        } else {
            let out = min(n, c.staked + c.vested);
            let v = min(out, vested);
            sx::check((y.vested.amount == vested - v) & (y.staked.amount == staked - (out - v)), "vested stake is taken out before staked one");
            sx::check(bal(&w.get(&UW)) == (1 << 50) + out, "the stake taken out is paid");
        }
    }
    sx::cover("ok");
}
macro_rules! hs { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { step(&$c) })* } }
hs! {
    h_f04_s1p1 Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f04_s2p1 Cfg { tip: 2, snaps: &[8, 16], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f04_s2p1_wrap Cfg { tip: 0, snaps: &[8, 16], old: true, tps: &[16], staked: 4, vested: 0, part: false };
    h_f04_s3p1 Cfg { tip: 1, snaps: &[8, 16, 4], old: true, tps: &[16], staked: 4, vested: 0, part: false };
    h_f04_s3zero Cfg { tip: 3, snaps: &[8, 0, 16], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f04_s2p2 Cfg { tip: 2, snaps: &[8, 16], old: false, tps: &[16, 48], staked: 4, vested: 0, part: false };
    h_f04_s1p3 Cfg { tip: 999, snaps: &[8], old: true, tps: &[16, 0, 48], staked: 4, vested: 0, part: false };
    h_f04_round1 Cfg { tip: 1, snaps: &[3], old: false, tps: &[5], staked: 1, vested: 0, part: false };
    h_f04_round2 Cfg { tip: 2, snaps: &[7, 3], old: false, tps: &[5], staked: 2, vested: 0, part: false };
    h_f04_round3 Cfg { tip: 1, snaps: &[7], old: false, tps: &[5, 1], staked: 2, vested: 0, part: false };
    h_f04_none Cfg { tip: 0, snaps: &[], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f03_s1p1 Cfg { tip: 1, snaps: &[16], old: false, tps: &[16], staked: 0, vested: 4, part: false };
    h_f03_s2p1 Cfg { tip: 2, snaps: &[16, 8], old: false, tps: &[16], staked: 4, vested: 4, part: false };
    h_f03_s3p1 Cfg { tip: 1, snaps: &[16, 8, 32], old: true, tps: &[16], staked: 4, vested: 4, part: false };
    h_f15_s1 Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 4, vested: 0, part: true };
    h_f15_s2 Cfg { tip: 2, snaps: &[8, 16], old: false, tps: &[16], staked: 4, vested: 0, part: true };
    h_f15_s2v Cfg { tip: 2, snaps: &[16, 8], old: false, tps: &[16], staked: 4, vested: 4, part: true };
}
macro_rules! st { ($($n:ident $k:expr, $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { stakes(&$c, $k) })* } }
st! {
    h_f10_s1 0, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f10_s1v 0, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 2, vested: 2, part: false };
    h_f11_s1 1, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f11_s1v 1, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 2, vested: 2, part: false };
    h_f13_s1 2, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 4, vested: 0, part: false };
    h_f13_s1v 2, Cfg { tip: 1, snaps: &[8], old: false, tps: &[16], staked: 2, vested: 2, part: false };
}

/// any amounts, fixed slots
fn amounts(snaps: &[u64], ps: &[(u64, u64)], m: u64, now: u64, vat: u64) {
    let mut w = World::new(ID, now);
    let f = add_farm(&mut w, FARM, SMINT, 0);
    let a = sx::range("staked", 1, BIG);
    let v = if vat > 0 { sx::range("vested", 1, BIG) } else { 0 };
    let mut wins = vec![];
    for at in snaps {
        let t = sx::range("total", 1, 2 * BIG);
        sx::assume(t >= a + if vat > 0 && *at > vat { v } else { 0 });
        wins.push(Win { staked: t, at: *at });
    }
    let l: Vec<(u64, u64)> = wins.iter().map(|w| (w.staked, w.at)).collect();
    set_ring(f, 500, &l);
    add_harvest(&mut w, f, FARM, 0, HM1, 1 << 60);
    let mut p = vec![];
    for (i, (s, e)) in ps.iter().enumerate() {
        let tps = sx::range("tps", 0, BIG);
        f.m().harvests[0].periods[i] = period(tps, *s, *e);
        p.push((tps, *s, *e));
    }
    let mut x = farmer_of(FARM, USER);
    x.staked = t(a);
    x.vested = t(v);
    x.vested_at = s(vat);
    x.calculate_next_harvest_from = s(m);
    let had = sx::range("had", 0, BIG);
    set_harvest(&mut x, 0, HM1, had);
    let i = add_farmer(&mut w, &x);
    let r = send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest());
    sx::check(r.is_ok(), "harvest can always be updated");
    let y = de_farmer(&i);
    let got = tokens_of(&y, &HM1);
    let stake = |at: u64| if vat > 0 && at > vat { a + v } else { a };
    let e = owed(&wins, &p, &stake, m, now + 1);
    sx::observe("got", got);
    sx::check(y.calculate_next_harvest_from.slot == now + 1, "an update counts every slot up to now");
    sx::check(W::n(got - had).eq(e), "each slot since the last update is counted once, at the stake of its snapshot window");
    sx::cover("ok");
}
macro_rules! am { ($($n:ident $s:expr, $p:expr, $m:expr, $now:expr, $v:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { amounts(&$s, &$p, $m, $now, $v) })* } }
am! {
    h_f04_am1 [100], [(50, 120)], 105, 110, 0;
    h_f04_am2 [100, 60], [(80, 120)], 70, 110, 0;
    h_f04_am2p [100, 60], [(105, 108), (50, 90)], 55, 110, 0;
    h_f04_am2v [100, 60], [(80, 120)], 70, 110, 70;
}

/// many windows and a full calendar at fixed slots
struct Long {
    /// windows; the i-th newest began at slot (n - i) * 100
    n: u64,
    tip: usize,
    /// older windows fill the history
    full: bool,
    cals: &'static [&'static [(u64, u64, u64)]],
    /// the update begins at any of these slots
    m: (u64, u64),
    /// and happens at any of these
    now: (u64, u64),
    /// two more tokens were deposited at any of these
    vat: (u64, u64),
    op: Op,
}
#[derive(Clone, Copy, PartialEq)]
enum Op { Update, Until, Start, Stop, Compound }
fn long(c: &Long) {
    let at = sx::range("now", c.now.0, c.now.1);
    let mut w = World::new(ID, at);
    let f = add_farm(&mut w, FARM, SMINT, 1 << 50);
    let mint = |i: usize| if i == 1 { HM2 } else if c.op == Op::Compound { SMINT } else { HM1 };
    let totals = [8, 16, 64, 0, 128, 32];
    let wins: Vec<Win> = (0..c.n).map(|i| Win { staked: totals[i as usize % totals.len()], at: (c.n - i) * 100 }).collect();
    if c.full { for i in 0..1000usize { f.m().snapshots.ring_buffer[i] = snapshot(8, 1); } }
    let l: Vec<(u64, u64)> = wins.iter().map(|w| (w.staked, w.at)).collect();
    set_ring(f, c.tip, &l);
    let mut x = farmer_of(FARM, USER);
    let (vested, vat) = if c.vat.1 > 0 { (2, sx::range("vested_at", c.vat.0, c.vat.1)) } else { (0, 0) };
    let from = sx::range("marker", c.m.0, c.m.1);
    sx::assume((vat <= from) & (vat <= at) & (from <= at + 1));
    x.staked = t(4);
    x.vested = t(vested);
    x.vested_at = s(vat);
    x.calculate_next_harvest_from = s(from);
    for (i, p) in c.cals.iter().enumerate() {
        add_harvest(&mut w, f, FARM, i, mint(i), 1 << 60);
        for (j, p) in p.iter().enumerate() { f.m().harvests[i].periods[j] = period(p.0, p.1, p.2); }
        set_harvest(&mut x, i, mint(i), 5);
    }
    let i = add_farmer(&mut w, &x);
    let mut until = at;
    let n = if c.op == Op::Start || c.op == Op::Stop { sx::range("n", 1, BIG) } else { 0 };
    user(&mut w, USER, true);
    w.add(token(UW, SMINT, USER, 1 << 50));
    let r = match c.op {
        Op::Update => send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest()),
        Op::Until => {
            until = sx::range("until", 0, BIG);
            send(&w, ac::UpdateEligibleHarvest { farm: FARM, farmer: *i.key }, ix::update_eligible_harvest_until(until))
        }
        Op::Start => send(&w, ac::StartFarming { wallet_authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, stake_vault: vault_pda(&FARM), token_program: TOKEN }, ix::start_farming(n)),
        Op::Stop => send(&w, ac::StopFarming { authority: USER, farmer: *i.key, stake_wallet: UW, farm: FARM, farm_signer_pda: signer_pda(&FARM), stake_vault: vault_pda(&FARM), token_program: TOKEN }, ix::stop_farming(n)),
        Op::Compound => {
            w.add(whitelist(&FARM, &FARM));
            send(&w, ac::CompoundSameFarm { farm: FARM, farm_signer_pda: signer_pda(&FARM), whitelist_compounding: whitelist_pda(&FARM, &FARM), stake_vault: vault_pda(&FARM),
                harvest_vault: harvest_pda(&FARM, &SMINT), farmer: *i.key, token_program: TOKEN }, ix::compound_same_farm())
        }
    };
    sx::check(r.is_ok(), "the operation succeeds");
    let until = min(until, at);
    let y = de_farmer(&i);
    let m1 = y.calculate_next_harvest_from.slot;
    sx::check((m1 >= from) & (m1 <= at + 1), "the slots counted never go back nor into the future");
    if c.op == Op::Until { sx::check((m1 >= until) & ((m1 <= until + 1) | (m1 == from) | (m1 <= wins[0].at)), "a partial update counts the slots up to the one named"); }
    else { sx::check((m1 >= at) & ((from >= at) | (m1 == at + 1) | (m1 == wins[0].at)), "an update counts every slot up to now"); }
    // a deposit counts from the first snapshot after it
    let moved = if vested > 0 && c.n > 0 { sx::ite(wins[0].at > vat, vested, 0) } else { 0 };
    let (staked, vesting) = (4 + moved, vested - moved);
    let wallet = bal(&w.get(&UW));
    let compounded = bal(&w.get(&vault_pda(&FARM))).wrapping_sub(1 << 50);
    match c.op {
        Op::Update => sx::check((y.staked.amount == staked) & (y.vested.amount == vesting), "deposits vest exactly at the first snapshot after them"),
        Op::Until => sx::check(y.staked.amount + y.vested.amount == 4 + vested, "updating harvest leaves the deposit unchanged"),
        Op::Start => sx::check((y.staked.amount == staked) & (y.vested.amount == vesting + n) & (wallet == (1 << 50) - n) & (y.vested_at.slot == at), "new stake is vested first and vested stake counts from its snapshot on"),
        Op::Stop => {
            let out = min(n, 4 + vested);
            let v = min(out, vesting);
            sx::check((y.vested.amount == vesting - v) & (y.staked.amount == staked - (out - v)) & (wallet == (1 << 50) + out), "vested stake is taken out before staked one");
        }
        Op::Compound => sx::check((tokens_of(&y, &SMINT) == 0) & (y.staked.amount == staked) & (y.vested.amount == vesting + compounded) & (y.vested_at.slot == at), "compounded harvest is a new deposit, vesting from now on"),
    }
    let stake = |w: u64| if vested > 0 { 4 + sx::ite(w > vat, vested, 0) } else { 4 };
    for (j, p) in c.cals.iter().enumerate() {
        let got = if c.op == Op::Compound && j == 0 { compounded } else { tokens_of(&y, &mint(j)) };
        sx::observe("got", got);
        sx::check(W::n(got - 5).eq(owed(&wins, p, &stake, from, m1)), "each slot since the last update is counted once, at the stake of its snapshot window");
    }
    sx::cover("ok");
}
/// ten periods, newest first, some of which touch and some of which do not
const CAL: [(u64, u64, u64); 10] = [(64, 1150, 1230), (32, 1000, 1149), (128, 810, 900), (64, 700, 809), (96, 520, 555), (32, 450, 480), (64, 410, 430), (160, 330, 390), (32, 250, 329), (64, 90, 120)];
const CAL2: [(u64, u64, u64); 3] = [(32, 1190, 1400), (64, 350, 1100), (128, 100, 349)];
const CAL3: [(u64, u64, u64); 3] = [(32, 90_000, 99_000), (64, 150, 49_000), (16, 90, 120)];
macro_rules! lg { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { long(&$c) })* } }
lg! {
    h_f04_long Long { n: 12, tip: 4, full: false, cals: &[&CAL], m: (1, 1300), now: (1200, 1299), vat: (0, 0), op: Op::Update };
    h_f04_long2 Long { n: 12, tip: 995, full: true, cals: &[&CAL, &CAL2], m: (101, 1300), now: (1201, 1299), vat: (0, 0), op: Op::Update };
    h_f04_full Long { n: 1000, tip: 321, full: true, cals: &[&CAL3], m: (110, 320), now: (100_000, 100_300), vat: (0, 0), op: Op::Update };
    h_f04_hundred Long { n: 1000, tip: 999, full: true, cals: &[&CAL3], m: (90_000, 100_301), now: (100_000, 100_300), vat: (0, 0), op: Op::Update };
    h_f04_middle Long { n: 1000, tip: 0, full: true, cals: &[&CAL3], m: (47_950, 50_050), now: (100_000, 100_300), vat: (0, 0), op: Op::Update };
    h_f03_long Long { n: 12, tip: 7, full: false, cals: &[&CAL], m: (401, 501), now: (1200, 1299), vat: (401, 499), op: Op::Update };
    h_f03_late Long { n: 12, tip: 3, full: true, cals: &[&CAL, &CAL2], m: (1101, 1201), now: (1200, 1299), vat: (1101, 1200), op: Op::Update };
    h_f10_long Long { n: 12, tip: 4, full: true, cals: &[&CAL], m: (401, 501), now: (1201, 1299), vat: (401, 499), op: Op::Start };
    h_f11_long Long { n: 12, tip: 4, full: true, cals: &[&CAL], m: (401, 501), now: (1201, 1299), vat: (401, 499), op: Op::Stop };
    h_f13_long Long { n: 12, tip: 4, full: true, cals: &[&CAL, &CAL2], m: (401, 501), now: (1201, 1299), vat: (401, 499), op: Op::Compound };
    h_f15_long Long { n: 12, tip: 7, full: false, cals: &[&CAL], m: (401, 1300), now: (1200, 1299), vat: (0, 0), op: Op::Until };
    h_f15_longv Long { n: 12, tip: 7, full: false, cals: &[&CAL], m: (401, 501), now: (1200, 1299), vat: (401, 499), op: Op::Until };
}
