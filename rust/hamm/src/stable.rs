//! A12: pools on the stable curve.
use anchor_lang::prelude::Pubkey;
use crate::util::*;
use crate::liq::{dep_accs, red_accs, pairs, held};
use crate::swap::*;

/// whether a pool on the stable curve whose invariant is `d` may hold `after`
fn covers(d: W, amp: u64, after: &[u64]) -> bool {
    let n = after.len() as u64;
    let nn = n.pow(n as u32);
    let (mut sum, mut prod, mut pow) = (W::n(0), W::n(1), d);
    for a in after { sum = sum.add(W::n(*a)); prod = prod.mul(W::n(*a)); pow = pow.mul(d); }
    pow.add(d.mul(W::n(amp * nn - 1)).mul(W::n(nn)).mul(prod)).le(W::n(amp * nn * nn).mul(sum).mul(prod))
}
fn amount_of(p: &Pool) -> Vec<u64> { p.reserves.iter().take(p.dimension as usize).map(|r| r.tokens.amount).collect() }
/// whole tokens of the invariant
fn inv(p: &Pool) -> W { W::l(&match p.curve { Curve::Stable { invariant, .. } => invariant.to_dec().0.0, _ => [0; 3] }).div(W::n(WAD)) }
fn kept(p: &Pool, amp: u64, tol: u64) {
    sx::check(matches!(p.curve, Curve::Stable { amplifier, .. } if amplifier == amp), "the pool stays on its curve");
    let d = inv(p);
    let a = amount_of(p);
    sx::check(!covers(d.add(W::n(1)), amp, &a), "the invariant recorded is not less than that of the reserves");
    sx::check(covers(d.sub(W::n(tol)), amp, &a), "the invariant recorded is that of the reserves");
}
/// a pool in the state its endpoints leave it in
fn stable_pool(order: &[usize], amp: u64, res: &[u64], fee: u64) -> Pool {
    let mut p = pool_of(POOL, LP, order, res, fee);
    let amounts: Vec<TokenAmount> = res.iter().map(|r| t(*r)).collect();
    p.curve = Curve::Stable { amplifier: amp, invariant: if res[0] == 0 { Default::default() } else { amm::math::stable_curve_invariant::compute(amp, &amounts).unwrap().into() } };
    p
}

/// the first deposit of equal amounts
fn balanced(order: &[usize], amp: u64, lo: u64, hi: u64) {
    let mut w = World::new(ID, 10);
    let n = order.len();
    let x = sx::range("amount", lo, hi);
    let p = stable_pool(order, amp, &vec![0; n], 300);
    add_pool(&mut w, POOL, &p, 0, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, OTHER, 11));
    for i in order { w.add(token(wallet_of(*i), mint_of(*i), USER, x)); }
    let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), x)).collect();
    let r = send(&w, dep_accs(), &pairs(order), ix::deposit_liquidity(&l));
    sx::check(r.is_ok(), "a stable pool takes equal amounts");
    if r.is_ok() {
        sx::cover("ok");
        let q = de_pool(&w, &POOL);
        let d = match q.curve { Curve::Stable { invariant, .. } => invariant.to_dec().0.0, _ => [0; 3] };
        let s = W::n(n as u64 * x).mul(W::n(WAD));
        sx::check(W::l(&d).le(s), "the invariant is at most the sum of the reserves");
        sx::check(s.sub(W::n(WAD)).le(W::l(&d)), "the invariant of equal reserves is their sum");
    }
}
#[no_mangle] pub extern "C" fn h_a12_two() { balanced(&[0, 1], 10, 1, 1 << 40) }
#[no_mangle] pub extern "C" fn h_a12_three() { balanced(&[0, 1, 2], 10, 1, 1 << 40) }
#[no_mangle] pub extern "C" fn h_a12_four() { balanced(&[0, 1, 2, 3], 100, 1, 1 << 40) }
#[no_mangle] pub extern "C" fn h_a12_big() { balanced(&[0, 1], 1000, 1 << 40, u64::MAX / 2) }

/// a swap in a stable pool which holds `res` tokens
fn swap_stable(order: &[usize], amp: u64, res: &[u64], fee: u64, lo: u64, hi: u64) { swap_toll(order, amp, res, 1000, fee, lo, hi) }
fn swap_toll(order: &[usize], amp: u64, res: &[u64], supply_before: u64, fee: u64, lo: u64, hi: u64) {
    let mut w = World::new(ID, 10);
    let n = order.len();
    let p = stable_pool(order, amp, res, fee);
    let d0 = inv(&p);
    add_pool(&mut w, POOL, &p, supply_before, 7);
    user(&mut w, USER, true);
    w.add(fresh(discount_pda(&USER)));
    let have = sx::any("wallet");
    w.add(token(SW, mint_of(order[0]), USER, have));
    w.add(token(BW, mint_of(order[1]), USER, 5));
    w.add(token(TOLLW, LP, TOLLA, 9));
    let sell = lo + sx::range("sell", 0, hi - lo);
    let min_buy = sx::any("min_buy");
    let r = send(&w, swap_accs(order[0], order[1]), &[], ix::swap(sell, min_buy));
    let q = de_pool(&w, &POOL);
    if r.is_ok() {
        sx::cover("ok");
        let paid = have - bal(&w.get(&SW));
        let bought = bal(&w.get(&BW)) - 5;
        sx::check(paid == sell, "exactly the tokens named are sold");
        sx::check(bought >= min_buy, "never fewer tokens than the minimum named are bought");
        sx::check((bal(&w.get(&vault_of(order[0]))) == res[0] + 7 + sell) & (bal(&w.get(&vault_of(order[1]))) == res[1] + 7 - bought), "the vaults hold what is sold and pay what is bought");
        sx::observe("bought", bought);
        sx::check(same_pool(&p, &q), "nothing else in the pool changes");
        let mut after = amount_of(&q);
        for i in 0..n {
            let want = if i == 0 { res[0] + sell } else if i == 1 { res[1] - bought } else { res[i] };
            sx::check(after[i] == want, "the reserves move with their vaults");
        }
        let charge = W::n(sell).mul(W::n(fee)).add(W::n(999_999)).div(W::n(1_000_000)).low();
        let toll = bal(&w.get(&TOLLW)) - 9;
        sx::observe("toll", toll);
        sx::check(W::n(toll).mul(W::n(res[0] + sell)).mul(W::n(6 * n as u64)).le(W::n(supply_before).mul(W::n(2 * charge).add(W::n(3 * n as u64)))), "the toll is worth no more than a third of the fee");
        sx::check(W::n(supply_before).mul(W::n(charge)).mul(W::n(2 * 333_333)).le(W::n(toll + 2).mul(W::n(res[0] + sell)).mul(W::n(2_000_000 * n as u64)).add(W::n(supply_before).mul(W::n(1_000_000 * n as u64)))), "the toll is a third of the fee, rounded");
        after[0] -= charge;
        sx::check(covers(d0.sub(W::n(1)), amp, &after), "a swap never costs the pool any of its invariant");
        after[1] -= 2;
        sx::check(!covers(d0.add(W::n(2)), amp, &after), "the trader is paid what the curve pays");
        kept(&q, amp, 1);
    } else {
        sx::cover("refused");
        sx::check(!((sell <= have) & (sell < res[0]) & (min_buy == 0)), "a swap the curve can pay for is accepted");
    }
}
#[no_mangle] pub extern "C" fn h_a12_swap() { swap_stable(&[0, 1], 100, &[1_000_000, 1_000_000], 0, 1, 500) }
#[no_mangle] pub extern "C" fn h_a12_swap3() { swap_stable(&[0, 1, 2], 100, &[1_000_000, 1_000_000, 1_000_000], 0, 1, 200) }
#[no_mangle] pub extern "C" fn h_a12_swapf() { swap_stable(&[0, 1], 100, &[1_000_000, 1_000_000], 10_000, 1, 100) }
#[no_mangle] pub extern "C" fn h_a12_swapt() { swap_toll(&[1, 0], 100, &[1_000_000, 1_000_000], 1_000_000_000, 10_000, 301, 400) }

/// what a swap in a pool pays, for any part of its reserves
fn price(order: &[usize], amp: u64, res: &[u64], lo: u64, hi: u64) {
    let p = stable_pool(order, amp, res, 0);
    let d0 = inv(&p);
    kept(&p, amp, 1);
    let mut q = p.clone();
    let sell = sx::range("sell", lo, hi);
    match q.swap(mint_of(order[0]), t(sell), mint_of(order[1])) {
        Ok(bought) => {
            let bought = bought.amount;
            sx::cover("ok");
            sx::observe("bought", bought);
            let mut after = amount_of(&q);
            for i in 0..order.len() {
                let want = if i == 0 { res[0] + sell } else if i == 1 { res[1] - bought } else { res[i] };
                sx::check(after[i] == want, "the reserves move as swapped");
            }
            sx::check(covers(d0.sub(W::n(1)), amp, &after), "a swap never costs the pool any of its invariant");
            after[1] -= 2;
            sx::check(!covers(d0.add(W::n(2)), amp, &after), "the trader is paid what the curve pays");
        }
        Err(_) => sx::check(sell >= res[0], "a swap the curve can pay for is accepted"),
    }
}
#[no_mangle] pub extern "C" fn h_a12_price() { price(&[0, 1], 10, &[1_000_000, 2_000_000], 1, 1_000_000) }
#[no_mangle] pub extern "C" fn h_a12_price1() { price(&[1, 0], 1, &[400_000, 2_000_000], 1, 400_000) }
#[no_mangle] pub extern "C" fn h_a12_pricem() { price(&[0, 1], 100, &[1_000_000_000, 2_000_000_000], 1, 1_000_000_000) }
#[no_mangle] pub extern "C" fn h_a12_priceb() { price(&[0, 1], 10, &[1_000_000_000_000, 10_000_000_000_000], 1, 1_000_000_000_000) }
#[no_mangle] pub extern "C" fn h_a12_price3() { price(&[0, 1, 2], 10, &[1_000_000, 2_000_000, 3_000_000], 1, 1_000_000) }
#[no_mangle] pub extern "C" fn h_a12_price4() { price(&[0, 1, 2, 3], 10, &[1_000_000, 2_000_000, 3_000_000, 900_000], 1, 1_000_000) }

/// a deposit to a stable pool which holds `res` tokens
fn dep_stable(order: &[usize], amp: u64, res: &[u64], supply: u64, hi: u64) {
    let mut w = World::new(ID, 10);
    let p = stable_pool(order, amp, res, 300);
    add_pool(&mut w, POOL, &p, supply, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, OTHER, 11));
    for i in order { w.add(token(wallet_of(*i), mint_of(*i), USER, sx::range("wallet", 0, hi))); }
    let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), sx::range("max", 0, hi))).collect();
    let r = send(&w, dep_accs(), &pairs(order), ix::deposit_liquidity(&l));
    let q = de_pool(&w, &POOL);
    if r.is_ok() { sx::cover("ok"); kept(&q, amp, 1); } else { sx::cover("refused"); }
}
#[no_mangle] pub extern "C" fn h_a12_dep() { dep_stable(&[0, 1], 100, &[1_000_000, 1_000_100], 1000, 20000) }
/// a redemption from a stable pool which holds `res` tokens
fn red_stable(order: &[usize], amp: u64, res: &[u64], supply: u64, all: bool) {
    let mut w = World::new(ID, 10);
    let p = stable_pool(order, amp, res, 300);
    add_pool(&mut w, POOL, &p, supply, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, USER, supply));
    for i in order { w.add(token(wallet_of(*i), mint_of(*i), USER, 3)); }
    let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), 0)).collect();
    let lp = sx::range("lp", 1, if all { supply } else { supply - supply / 100 });
    let before = held(&w, &p);
    let r = send(&w, red_accs(), &pairs(order), ix::redeem_liquidity(lp, &l));
    let q = de_pool(&w, &POOL);
    sx::check(r.is_ok(), "LP tokens of a stable pool can be redeemed");
    if r.is_ok() {
        sx::cover("ok");
        let after = held(&w, &q);
        for i in 0..order.len() {
            let d = before[i].0 - after[i].0;
            sx::check(W::n(d).mul(W::n(supply)).le(W::n(lp).mul(W::n(res[i]))), "no more than the share of the LP tokens is paid");
        }
        if lp < supply { kept(&q, amp, 1); }
    }
}
#[no_mangle] pub extern "C" fn h_a12_red() { red_stable(&[0, 1], 100, &[1_000_000, 1_001_000], 1000, false) }
#[no_mangle] pub extern "C" fn h_a12_redbal() { red_stable(&[0, 1], 10, &[1_234_567_891, 1_234_567_891], 1_000_000, false) }
#[no_mangle] pub extern "C" fn h_a12_redall() { red_stable(&[0, 1, 2], 10, &[1_234_567_891, 1_234_567_891, 1_234_567_891], 1_000_000, true) }
#[no_mangle] pub extern "C" fn h_a12_swapt3() { swap_toll(&[0, 1, 2], 100, &[1_000_000, 1_000_000, 1_000_000], 1_000_000_000, 10_000, 401, 500) }
#[no_mangle] pub extern "C" fn h_a12_swapi() { swap_toll(&[0, 1], 100, &[1_000_000, 1_010_000], 1_000_000_000, 10_000, 301, 400) }
#[no_mangle] pub extern "C" fn h_a12_redi() { red_stable(&[0, 1], 100, &[1_000_000, 2_000_000], 1000, false) }
// more of the sold token than the others put together
#[no_mangle] pub extern "C" fn h_a12_priceh() { price(&[0, 1], 1, &[2_000_000, 400_000], 1, 2_000_000) }
#[no_mangle] pub extern "C" fn h_a12_priceh2() { price(&[1, 0], 10, &[10_000_000_000_000, 1_000_000_000_000], 1, 10_000_000_000_000) }
#[no_mangle] pub extern "C" fn h_a12_priceh3() { price(&[0, 1, 2], 1, &[9_000_000, 2_000_000, 1_000_000], 1, 9_000_000) }
#[no_mangle] pub extern "C" fn h_a12_priceh4() { price(&[0, 1], 100, &[50_000_000, 1_000_000], 1, 50_000_000) }
#[no_mangle] pub extern "C" fn h_a12_pricex() { price(&[0, 1], 100, &[1_000_000_000_000_000, 1_000_000_000_000_000], 1, 1_000_000_000_000_000) }
#[no_mangle] pub extern "C" fn h_a12_pricex3() { price(&[0, 1, 2], 100, &[1_000_000_000_000_000, 1_500_000_000_000_000, 1_000_000_000_000_000], 1, 1_000_000_000_000_000) }
#[no_mangle] pub extern "C" fn h_a12_pricex4() { price(&[0, 1, 2, 3], 100, &[1_000_000_000_000_000, 1_500_000_000_000_000, 1_000_000_000_000_000, 1_000_000_000_000_000], 1, 1_000_000_000_000_000) }
