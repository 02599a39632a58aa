//! A13: whatever the history, a pool with LP tokens holds some of each token, a
//! pool without any holds none, and the vaults cover the reserves.  By
//! induction: any such pool, one instruction, such a pool again.
use anchor_lang::prelude::*;
use crate::util::*;
use crate::liq::{dep_accs, red_accs, pairs, held};
use crate::swap::*;
use crate::admin::fresh_pool;

/// a pool as a history may leave it
fn any_pool(w: &mut World, order: &[usize], empty: bool, hi: u64, shi: u64, fee: u64) -> (Pool, u64, Vec<u64>) {
    let n = order.len();
    let res: Vec<u64> = (0..n).map(|_| if empty { 0 } else { sx::range("reserve", 1, hi) }).collect();
    let extra: Vec<u64> = (0..n).map(|_| sx::range("extra", 0, 1 << 20)).collect();
    let s0 = if empty { 0 } else if shi == 1 { 999_983 } else { sx::range("supply", 1, shi) };
    let p = pool_of(POOL, LP, order, &res, fee);
    w.add(pool_acc(POOL, &p));
    w.add(wallet(signer_pda(&POOL)));
    w.add(mint(LP, Some(signer_pda(&POOL)), None, s0));
    for i in 0..n { w.add(token(vault_of(order[i]), mint_of(order[i]), signer_pda(&POOL), res[i] + extra[i])); }
    user(w, USER, true);
    (p, s0, extra)
}
fn still(w: &World, p: &Pool, extra: &[u64]) {
    let q = de_pool(w, &POOL);
    let s = supply(&w.get(&LP));
    sx::check(same_pool(p, &q), "the pool keeps its settings, mints and vaults");
    for (i, r) in q.reserves.iter().take(q.dimension as usize).enumerate() {
        sx::check((s == 0) == (r.tokens.amount == 0), "a pool holds some of each token exactly when there are LP tokens");
        sx::check(bal(&w.get(&r.vault)) == r.tokens.amount + extra[i], "the vaults cover the reserves");
    }
}
fn dep(order: &[usize], empty: bool) {
    sx::fork(true);
    let mut w = World::new(ID, 10);
    let (p, _, extra) = any_pool(&mut w, order, empty, 1 << 30, 1, 300);
    w.add(token(LPW, LP, OTHER, 11));
    for i in order { w.add(token(wallet_of(*i), mint_of(*i), USER, sx::range("wallet", 0, 1 << 40))); }
    let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), sx::any("max"))).collect();
    let r = send(&w, dep_accs(), &pairs(order), ix::deposit_liquidity(&l));
    if r.is_ok() { sx::cover("ok"); still(&w, &p, &extra); } else { sx::cover("refused"); }
}
#[no_mangle] pub extern "C" fn h_a13_first() { dep(&[1, 0, 2], true) }
#[no_mangle] pub extern "C" fn h_a13_more() { dep(&[1, 0], false) }
fn red(order: &[usize]) {
    let mut w = World::new(ID, 10);
    let (p, s0, extra) = any_pool(&mut w, order, false, WAD, u64::MAX / 2, 300);
    let mine = sx::range("mine", 0, u64::MAX / 2);
    sx::assume(mine <= s0);
    w.add(token(LPW, LP, USER, mine));
    for i in order { w.add(token(wallet_of(*i), mint_of(*i), USER, 1000)); }
    let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), sx::any("min"))).collect();
    let r = send(&w, red_accs(), &pairs(order), ix::redeem_liquidity(sx::any("lp"), &l));
    if r.is_ok() { sx::cover("ok"); still(&w, &p, &extra); } else { sx::cover("refused"); }
}
#[no_mangle] pub extern "C" fn h_a13_red2() { red(&[1, 0]) }
#[no_mangle] pub extern "C" fn h_a13_red4() { red(&[3, 1, 0, 2]) }
fn trade(order: &[usize], sell: usize, buy: usize) {
    let mut w = World::new(ID, 10);
    let (p, _, extra) = any_pool(&mut w, order, false, 1 << 62, 1 << 62, 0);
    w.add(fresh(discount_pda(&USER)));
    w.add(token(SW, mint_of(sell), USER, sx::range("wallet", 0, 1 << 62)));
    w.add(token(BW, mint_of(buy), USER, 5));
    w.add(token(TOLLW, LP, TOLLA, 9));
    let r = send(&w, swap_accs(sell, buy), &[], ix::swap(sx::any("sell"), sx::any("min_buy")));
    if r.is_ok() { sx::cover("ok"); still(&w, &p, &extra); } else { sx::cover("refused"); }
}
#[no_mangle] pub extern "C" fn h_a13_swap2() { trade(&[1, 0], 0, 1) }
#[no_mangle] pub extern "C" fn h_a13_swap3() { trade(&[1, 2, 0], 2, 1) }
/// nothing can be sold to, or redeemed from, a pool without LP tokens
#[no_mangle] pub extern "C" fn h_a13_empty() {
    let mut w = World::new(ID, 10);
    let order = [1, 0];
    any_pool(&mut w, &order, true, 0, 0, 30);
    w.add(fresh(discount_pda(&USER)));
    w.add(token(SW, mint_of(0), USER, sx::any("wallet")));
    w.add(token(BW, mint_of(1), USER, 5));
    w.add(token(TOLLW, LP, TOLLA, 9));
    w.add(token(LPW, LP, USER, 0));
    for i in order { w.add(token(wallet_of(i), mint_of(i), USER, 1000)); }
    let r = if sx::choose("what", 2) == 0 { send(&w, swap_accs(0, 1), &[], ix::swap(sx::any("sell"), sx::any("min_buy"))) } else { let l: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), sx::any("min"))).collect(); let lp = sx::any("lp"); sx::assume(lp > 0); send(&w, red_accs(), &pairs(&order), ix::redeem_liquidity(lp, &l)) };
    sx::check(r.is_err(), "nothing is traded or redeemed without LP tokens");
    sx::cover("tried");
}
/// created, filled, emptied, filled and emptied again
fn cycle(order: &[usize], amp: u64) {
    let mut w = World::new(ID, 10);
    let create = fresh_pool(&mut w, order);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, USER, 0));
    let have: Vec<u64> = order.iter().map(|_| sx::range("wallet", 0, u64::MAX)).collect();
    for (k, i) in order.iter().enumerate() { w.add(token(wallet_of(*i), mint_of(*i), USER, have[k])); }
    let v: Vec<Pubkey> = order.iter().map(|i| vault_of(*i)).collect();
    let r = send(&w, create, &v, ix::create_pool(amp));
    sx::check(r.is_ok(), "a pool is created");
    for _ in 0..2 {
        let max: Vec<u64> = order.iter().map(|_| sx::any("max")).collect();
        let l: Vec<(Pubkey, u64)> = (0..order.len()).map(|k| (mint_of(order[k]), max[k])).collect();
        let mut may = true;
        for k in 0..order.len() { may &= (max[k] > 0) & (max[k] <= have[k]); }
        let r = send(&w, dep_accs(), &pairs(order), ix::deposit_liquidity(&l));
        sx::check(r.is_ok() == may, "an empty pool takes any deposit the user can pay");
        if r.is_err() { sx::cover("refused"); return; }
        let lp = supply(&w.get(&LP));
        sx::check((bal(&w.get(&LPW)) == lp) & (lp > 0), "the depositor holds all LP tokens");
        let none: Vec<(Pubkey, u64)> = order.iter().map(|i| (mint_of(*i), 0)).collect();
        let r = send(&w, red_accs(), &pairs(order), ix::redeem_liquidity(lp, &none));
        sx::check(r.is_ok(), "everything can be redeemed");
        let q = de_pool(&w, &POOL);
        for (k, h) in held(&w, &q).iter().enumerate() { sx::check((h.0 == 0) & (h.1 == have[k]) & (h.2 == 0), "everybody leaves with what they brought"); }
        sx::check((supply(&w.get(&LP)) == 0) & (bal(&w.get(&LPW)) == 0), "no LP tokens are left");
    }
    sx::cover("ok");
}
#[no_mangle] pub extern "C" fn h_a13_cycle2() { cycle(&[0, 1], 0) }
#[no_mangle] pub extern "C" fn h_a13_cycle3() { cycle(&[2, 0, 1], 0) }
