//! A02 deposits, A03 redemptions.
use anchor_lang::prelude::*;
use crate::util::*;

pub fn dep_accs() -> ac::DepositLiquidity { ac::DepositLiquidity { user: USER, pool: POOL, pool_signer_pda: signer_pda(&POOL), lp_mint: LP, lp_token_wallet: LPW, token_program: TOKEN } }
pub fn red_accs() -> ac::RedeemLiquidity { ac::RedeemLiquidity { user: USER, pool: POOL, pool_signer: signer_pda(&POOL), lp_mint: LP, lp_token_wallet: LPW, token_program: TOKEN } }
pub fn pairs(order: &[usize]) -> Vec<Pubkey> {
    let mut v = vec![];
    for i in order { v.push(vault_of(*i)); v.push(wallet_of(*i)); }
    v
}
/// amounts held: (vault, wallet, reserve) per reserve
pub fn held(w: &World, p: &Pool) -> Vec<(u64, u64, u64)> {
    (0..p.dimension as usize).map(|i| { let r = &p.reserves[i]; let n = (0..4).find(|n| mint_of(*n) == r.mint).unwrap(); (bal(&w.get(&r.vault)), bal(&w.get(&wallet_of(n))), r.tokens.amount) }).collect()
}
pub struct L { pub order: &'static [usize], pub lo: u64, pub hi: u64, pub slo: u64, pub shi: u64, pub mhi: u64, pub first: bool, pub fixed: &'static [u64] }
fn deposit(c: &L) { deposit_in(c, c.order, c.order) }
/// with limits and pairs of accounts in any order
fn deposit_in(c: &L, lo: &[usize], po: &[usize]) {
    sx::fork(true);
    let mut w = World::new(ID, 10);
    let n = c.order.len();
    let res: Vec<u64> = (0..n).map(|i| if c.first { 0 } else if i < c.fixed.len() { c.fixed[i] } else { sx::range("reserve", c.lo, c.hi) }).collect();
    let p = pool_of(POOL, LP, c.order, &res, 300);
    let s0 = if c.first { 0 } else { sx::range("supply", c.slo, c.shi) };
    add_pool(&mut w, POOL, &p, s0, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, OTHER, 11));
    for i in c.order { w.add(token(wallet_of(*i), mint_of(*i), USER, sx::range("wallet", 0, c.mhi))); }
    let lim: Vec<u64> = (0..n).map(|_| sx::range("max", 0, c.mhi)).collect();
    let l: Vec<(Pubkey, u64)> = lo.iter().map(|t| (mint_of(*t), lim[c.order.iter().position(|o| o == t).unwrap()])).collect();
    let before = held(&w, &p);
    let r = send(&w, dep_accs(), &pairs(po), ix::deposit_liquidity(&l));
    let q = de_pool(&w, &POOL);
    let after = held(&w, &q);
    if r.is_ok() {
        sx::cover("ok");
        let lp = bal(&w.get(&LPW)) - 11;
        sx::check(supply(&w.get(&LP)) == s0 + lp, "the LP tokens minted are those the depositor receives");
        sx::check(lp > 0, "a deposit is never taken for nothing");
        let mut least = u64::MAX;
        for i in 0..n {
            let d = after[i].0 - before[i].0;
            sx::observe("deposit", d);
            sx::check((d > 0) & (d <= lim[i]), "never more than the maximum named is taken of any token");
            sx::check((before[i].1 - after[i].1 == d) & (after[i].2 - before[i].2 == d), "wallet, vault and reserve move by the same amount");
            if c.first {
                sx::check(d == lim[i], "the first deposit is taken as it is");
                least = min(least, d);
            } else {
                sx::check(W::n(lp).mul(W::n(res[i])).le(W::n(s0).mul(W::n(d))), "LP tokens are never worth more than any of the tokens deposited");
            }
        }
        if c.first { sx::check(lp == least, "the first deposit mints the least of the amounts"); }
        sx::check(same_pool(&p, &q) && q.curve == Curve::ConstProd, "nothing else in the pool changes");
    } else {
        sx::cover("refused");
        if c.first {
            let mut may = true;
            for i in 0..n { may &= (lim[i] > 0) & (lim[i] <= before[i].1); }
            sx::check(!may, "a first deposit of tokens the user holds is accepted");
        }
    }
}
const M: u64 = u64::MAX;
macro_rules! ds { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { deposit(&$c) })* } }
ds! {
    h_a02_first2 L { order: &[0, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_first3 L { order: &[2, 0, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_first4 L { order: &[2, 0, 3, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_two L { order: &[0, 1], lo: 1 << 10, hi: 10_000_000_000, slo: 1 << 10, shi: 1 << 30, mhi: 1 << 32, first: false, fixed: &[] };
    h_a02_low L { order: &[0, 1], lo: 1, hi: 10_000_000_000, slo: 19, shi: 1 << 40, mhi: 1 << 50, first: false, fixed: &[] };
    h_a02_tri L { order: &[1, 2, 0], lo: 1 << 10, hi: 10_000_000_000, slo: 1 << 10, shi: 1 << 30, mhi: 1 << 32, first: false, fixed: &[] };
    h_a02_four L { order: &[3, 2, 0, 1], lo: 1, hi: 10_000_000_000, slo: 1 << 10, shi: 1 << 40, mhi: 1 << 40, first: false, fixed: &[3, 1000, 500, 40000] };
    h_a02_big L { order: &[1, 0], lo: 1 << 35, hi: 1 << 36, slo: 1 << 20, shi: 1 << 21, mhi: 1 << 35, first: false, fixed: &[] };
    h_a02_bigf L { order: &[1, 0], lo: 1 << 35, hi: 1 << 36, slo: 1 << 20, shi: 1 << 40, mhi: 1 << 50, first: false, fixed: &[1 << 35, 1 << 36] };
    h_a02_three L { order: &[1, 2, 0], lo: 1, hi: 10_000_000_000, slo: 1 << 10, shi: 1 << 40, mhi: 1 << 40, first: false, fixed: &[3, 1000, 500] };
    h_a02_fix L { order: &[0, 1], lo: 1, hi: 10_000_000_000, slo: 1, shi: 1 << 40, mhi: 1 << 40, first: false, fixed: &[3, 1000] };
    h_a02_fixbig L { order: &[0, 1], lo: 1, hi: 10_000_000_000, slo: 1 << 10, shi: 1 << 40, mhi: 1 << 50, first: false, fixed: &[30_000_000_000, 1 << 30] };
    h_a02_sup L { order: &[0, 1], lo: 1, hi: 1 << 30, slo: 1000, shi: 1000, mhi: 1 << 40, first: false, fixed: &[] };
}
/// limits and pairs of accounts in another order than the pool's reserves: `i` chooses
fn orders(order: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let perm = |i: usize| -> Vec<usize> {
        let o = order;
        match (o.len(), i) {
            (2, _) => vec![o[1], o[0]],
            (3, 0) => vec![o[1], o[2], o[0]],
            (3, 1) => vec![o[2], o[0], o[1]],
            (3, _) => vec![o[2], o[1], o[0]],
            (_, 0) => vec![o[3], o[2], o[1], o[0]],
            (_, 1) => vec![o[1], o[2], o[3], o[0]],
            (_, _) => vec![o[0], o[2], o[1], o[3]],
        }
    };
    let k = if order.len() == 2 { 1 } else { 3 };
    let a = sx::choose("limits", k + 1) as usize;
    let b = sx::choose("accounts", k + 1) as usize;
    (if a < k as usize { perm(a) } else { order.to_vec() }, if b < k as usize { perm(b) } else { order.to_vec() })
}
fn deposit_any(c: &L) { let (a, b) = orders(c.order); deposit_in(c, &a, &b) }
fn redeem_any(c: &L) { let (a, b) = orders(c.order); redeem_in(c, &a, &b) }
macro_rules! os { ($($n:ident $f:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { $f(&$c) })* } }
os! {
    h_a02_order2 deposit_any L { order: &[1, 0], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_order3 deposit_any L { order: &[2, 0, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_order4 deposit_any L { order: &[2, 0, 3, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: M / 2, first: true, fixed: &[] };
    h_a02_ordert deposit_any L { order: &[2, 0, 1], lo: 0, hi: 0, slo: 1 << 20, shi: 1 << 20, mhi: 1 << 32, first: false, fixed: &[500, 3000, 70_000] };
    h_a03_order2 redeem_any L { order: &[1, 0], lo: 0, hi: 1 << 40, slo: 1 << 20, shi: 1 << 20, mhi: 0, first: false, fixed: &[] };
    h_a03_order3 redeem_any L { order: &[2, 0, 1], lo: 0, hi: 1 << 40, slo: 1 << 20, shi: 1 << 20, mhi: 0, first: false, fixed: &[] };
    h_a03_order4 redeem_any L { order: &[2, 0, 3, 1], lo: 0, hi: 1 << 40, slo: 1 << 20, shi: 1 << 20, mhi: 0, first: false, fixed: &[] };
}
fn redeem(c: &L) { redeem_in(c, c.order, c.order) }
fn redeem_in(c: &L, lo: &[usize], po: &[usize]) {
    let mut w = World::new(ID, 10);
    let n = c.order.len();
    let res: Vec<u64> = (0..n).map(|i| if i < c.fixed.len() { c.fixed[i] } else { sx::range("reserve", c.lo, c.hi) }).collect();
    let p = pool_of(POOL, LP, c.order, &res, 300);
    let s0 = sx::range("supply", c.slo, c.shi);
    add_pool(&mut w, POOL, &p, s0, 7);
    user(&mut w, USER, true);
    let mine = sx::range("mine", 0, c.shi);
    w.add(token(LPW, LP, USER, mine));
    for i in c.order { w.add(token(wallet_of(*i), mint_of(*i), USER, sx::range("wallet", 0, M / 4))); }
    let lim: Vec<u64> = (0..n).map(|_| sx::range("min", 0, M)).collect();
    let l: Vec<(Pubkey, u64)> = lo.iter().map(|t| (mint_of(*t), lim[c.order.iter().position(|o| o == t).unwrap()])).collect();
    let before = held(&w, &p);
    let lp = sx::any("lp");
    let r = send(&w, red_accs(), &pairs(po), ix::redeem_liquidity(lp, &l));
    let q = de_pool(&w, &POOL);
    let after = held(&w, &q);
    let have = (lp <= mine) & (lp <= s0);
    if r.is_ok() {
        sx::cover("ok");
        sx::check(have, "only LP tokens the user holds are redeemed");
        sx::check((supply(&w.get(&LP)) == s0 - lp) & (bal(&w.get(&LPW)) == mine - lp), "exactly the LP tokens given are burned");
        for i in 0..n {
            let d = before[i].0 - after[i].0;
            sx::observe("redeemed", d);
            sx::check(d >= lim[i], "never less than the minimum named is paid of any token");
            sx::check((after[i].1 - before[i].1 == d) & (before[i].2 - after[i].2 == d), "wallet, vault and reserve move by the same amount");
            sx::check(W::n(d).mul(W::n(s0)).le(W::n(lp).mul(W::n(res[i]))), "no more than the share of the LP tokens is paid");
            sx::check(lp < s0 || d == res[i], "redeeming all LP tokens pays out everything");
            // short by less than one token, and 18 decimals of the reserve
            if c.hi <= WAD { sx::check(W::n(lp).mul(W::n(res[i])).lt(W::n(d).add(W::n(2)).mul(W::n(s0))), "the share of the LP tokens is paid, rounded down"); }
        }
        sx::check(same_pool(&p, &q) && q.curve == Curve::ConstProd, "nothing else in the pool changes");
    } else {
        sx::cover("refused");
        let mut may = have;
        for i in 0..n { may &= lim[i] == 0; }
        sx::check(!may, "LP tokens can always be redeemed");
    }
}
macro_rules! rs { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { redeem(&$c) })* } }
rs! {
    h_a03_two L { order: &[0, 1], lo: 0, hi: WAD, slo: 1, shi: M / 2, mhi: 0, first: false, fixed: &[] };
    h_a03_three L { order: &[2, 0, 1], lo: 0, hi: WAD, slo: 1, shi: M / 2, mhi: 0, first: false, fixed: &[] };
    h_a03_four L { order: &[2, 0, 1, 3], lo: 0, hi: WAD, slo: 1, shi: M / 2, mhi: 0, first: false, fixed: &[] };
}
/// A04: what a deposit mints buys back no more than what was deposited
fn round_trip(c: &L) {
    sx::fork(true);
    let mut w = World::new(ID, 10);
    let n = c.order.len();
    let res: Vec<u64> = (0..n).map(|i| if c.first { 0 } else if i < c.fixed.len() { c.fixed[i] } else { sx::range("reserve", c.lo, c.hi) }).collect();
    let p = pool_of(POOL, LP, c.order, &res, 300);
    let s0 = if c.first { 0 } else { sx::range("supply", c.slo, c.shi) };
    add_pool(&mut w, POOL, &p, s0, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, USER, 0));
    for i in c.order { w.add(token(wallet_of(*i), mint_of(*i), USER, c.mhi)); }
    let lim: Vec<u64> = (0..n).map(|_| sx::range("max", 1, c.mhi)).collect();
    let l: Vec<(Pubkey, u64)> = (0..n).map(|i| (mint_of(c.order[i]), lim[i])).collect();
    let before = held(&w, &p);
    if send(&w, dep_accs(), &pairs(c.order), ix::deposit_liquidity(&l)).is_err() { return; }
    let lp = bal(&w.get(&LPW));
    let z: Vec<(Pubkey, u64)> = (0..n).map(|i| (mint_of(c.order[i]), 0)).collect();
    let r = send(&w, red_accs(), &pairs(c.order), ix::redeem_liquidity(lp, &z));
    sx::check(r.is_ok(), "LP tokens just minted can be redeemed");
    if r.is_err() { return; }
    sx::cover("ok");
    let q = de_pool(&w, &POOL);
    let after = held(&w, &q);
    sx::check(supply(&w.get(&LP)) == s0, "LP tokens minted and burned cancel out");
    for i in 0..n {
        sx::check(after[i].1 <= before[i].1, "redeeming what was just deposited never makes a profit");
        if c.first { sx::check(after[i].1 == before[i].1, "a first deposit is redeemed in full"); }
    }
}
macro_rules! ts { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { round_trip(&$c) })* } }
ts! {
    h_a04_first L { order: &[2, 0, 1], lo: 0, hi: 0, slo: 0, shi: 0, mhi: WAD, first: true, fixed: &[] };
    h_a04_fix L { order: &[0, 1], lo: 0, hi: 0, slo: 70, shi: 70, mhi: 1 << 40, first: false, fixed: &[3, 1000] };
    h_a04_near L { order: &[1, 0], lo: 0, hi: 0, slo: 1_000_001, shi: 1_000_001, mhi: 1 << 40, first: false, fixed: &[1_000_003, 999_983] };
    h_a04_three L { order: &[1, 2, 0], lo: 0, hi: 0, slo: 999, shi: 999, mhi: 1 << 30, first: false, fixed: &[3, 1000, 500] };
    h_a04_odd L { order: &[1, 0], lo: 1, hi: 1 << 30, slo: 999_983, shi: 999_983, mhi: 1 << 40, first: false, fixed: &[] };
    h_a04_one L { order: &[1, 0], lo: 1 << 20, hi: 1 << 30, slo: 7, shi: 7, mhi: 1 << 40, first: false, fixed: &[] };
    h_a04_tri L { order: &[1, 2, 0], lo: 1, hi: 1 << 20, slo: 1000, shi: 1000, mhi: 1 << 30, first: false, fixed: &[] };
    h_a04_big L { order: &[1, 0], lo: 1 << 34, hi: 1 << 36, slo: 1000, shi: 1000, mhi: 1 << 40, first: false, fixed: &[] };
    h_a04_sup L { order: &[0, 1], lo: 1, hi: 1 << 20, slo: 1000, shi: 1000, mhi: 1 << 30, first: false, fixed: &[] };
}
