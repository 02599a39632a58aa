//! A06, A07, A09, A10: swaps on the constant product curve.
use anchor_lang::prelude::*;
use crate::util::*;
use crate::admin::discount_acc;

pub const SW: Pubkey = key(100); // user's wallets
pub const BW: Pubkey = key(101);
pub fn swap_accs(sell: usize, buy: usize) -> ac::Swap {
    ac::Swap { user: USER, discount: discount_pda(&USER), pool: POOL, pool_signer: signer_pda(&POOL), sell_wallet: SW, buy_wallet: BW, sell_vault: vault_of(sell), buy_vault: vault_of(buy), lp_mint: LP, program_toll_wallet: TOLLW, token_program: TOKEN }
}
#[derive(Clone, Copy)]
pub enum V { Fix(u64), In(u64, u64) }
impl V { pub fn get(self, n: &str) -> u64 { match self { V::Fix(x) => x, V::In(a, b) => sx::range(n, a, b) } } }
#[derive(Clone, Copy)]
pub enum Disc { No, Any, Fix(u64, bool) }
pub struct C { pub order: &'static [usize], pub sell: usize, pub buy: usize, pub res: &'static [V], pub fee: V, pub disc: Disc, pub supply: V, pub amount: V, pub what: u64, pub fork: bool }
/// what is checked: conservation, price and limits, toll
const KEPT: u64 = 1;
const PRICE: u64 = 2;
const TOLL: u64 = 4;
/// `floor(y*t/(x+t))`, what the constant product curve pays
pub fn curve_pays(x: u64, y: u64, t: u64) -> W { W::n(y).sub(W::n(x).mul(W::n(y)).add(W::n(x).add(W::n(t))).sub(W::n(1)).div(W::n(x).add(W::n(t)))) }
pub fn swap(c: &C) {
    sx::fork(c.fork);
    let now = sx::any("now");
    let mut w = World::new(ID, now);
    let n = c.order.len();
    let res: Vec<u64> = (0..n).map(|i| c.res[i].get("reserve")).collect();
    let fee = c.fee.get("fee");
    let p = pool_of(POOL, LP, c.order, &res, fee);
    let s0 = c.supply.get("supply");
    add_pool(&mut w, POOL, &p, s0, 7);
    user(&mut w, USER, true);
    // what part of the fee is let off, if any
    let (off, until) = match c.disc {
        Disc::No => (0, 0),
        Disc::Any => (sx::range("discount", 1, 1_000_000), sx::any("valid_until")),
        Disc::Fix(d, _) => (d, sx::any("valid_until")),
    };
    let applies = match c.disc { Disc::No => false, _ => now <= until };
    if applies { sx::cover("discount"); }
    match c.disc { Disc::No => { w.add(fresh(discount_pda(&USER))); } _ => { w.add(discount_acc(&USER, off, until)); } }
    if let Disc::Fix(_, valid) = c.disc { sx::assume(applies == valid); }
    let ms = mint_of(c.order[c.sell]);
    let mb = mint_of(c.order[c.buy]);
    let have = sx::any("wallet");
    w.add(token(SW, ms, USER, have));
    w.add(token(BW, mb, USER, 5));
    w.add(token(TOLLW, LP, TOLLA, 9));
    let sell = c.amount.get("sell");
    let min_buy = sx::any("min_buy");
    let (vs, vb) = (c.order[c.sell], c.order[c.buy]);
    let r = send(&w, swap_accs(vs, vb), &[], ix::swap(sell, min_buy));
    let q = de_pool(&w, &POOL);
    let (x, y) = (res[c.sell], res[c.buy]);
    // ceil(sell * fee * (1 - discount)), parts per million each
    let part = fee * (1_000_000 - sx::ite(applies, off, 0));
    let charge = W::n(sell).mul(W::n(part)).add(W::n(999_999_999_999)).div(W::n(1_000_000_000_000)).low();
    if r.is_ok() {
        sx::cover("ok");
        let paid = have - bal(&w.get(&SW));
        let bought = bal(&w.get(&BW)) - 5;
        let toll = bal(&w.get(&TOLLW)) - 9;
        if c.what & PRICE != 0 {
            sx::check((paid == sell) & (sell > 0), "exactly the tokens named are sold");
            sx::check(bought >= min_buy, "never fewer tokens than the minimum named are bought");
            sx::check(W::n(bought).eq(curve_pays(x, y, sell - charge)), "the amount bought is what the curve pays for the amount sold less the fee");
        }
        if c.what & KEPT != 0 {
            sx::check((bal(&w.get(&vault_of(vs))) == x + 7 + paid) & (bal(&w.get(&vault_of(vb))) == y + 7 - bought), "the vaults hold what is sold and pay what is bought");
            for i in 0..n {
                let want = if i == c.sell { x + paid } else if i == c.buy { y - bought } else { res[i] };
                sx::check(q.reserves[i].tokens.amount == want, "the reserves move with their vaults");
                if i != c.sell && i != c.buy { sx::check(bal(&w.get(&vault_of(c.order[i]))) == res[i] + 7, "other vaults are not touched"); }
            }
            sx::check(bought < y, "a reserve is never emptied");
            sx::check(W::n(x).mul(W::n(y)).le(W::n(x + paid).mul(W::n(y - bought))), "the product of the reserves never shrinks");
            sx::check(same_pool(&p, &q) & (q.curve == p.curve), "nothing else in the pool changes");
        }
        if c.what & TOLL != 0 {
            sx::check(supply(&w.get(&LP)) == s0 + toll, "LP tokens are minted for the toll wallet only");
            // a third of the fee, in tokens sold, spread over all reserves
            sx::check(W::n(toll).mul(W::n(x + sell)).mul(W::n(6 * n as u64)).le(W::n(s0).mul(W::n(2 * charge).add(W::n(3 * n as u64)))), "the toll is worth no more than a third of the fee");
            // rounded to whole tokens and whole LP tokens
            sx::check(W::n(s0).mul(W::n(charge)).mul(W::n(2 * 333_333)).le(W::n(toll + 2).mul(W::n(x + sell)).mul(W::n(2_000_000 * n as u64)).add(W::n(s0).mul(W::n(1_000_000 * n as u64)))), "the toll is a third of the fee, rounded");
        }
        sx::observe("bought", bought);
        sx::observe("toll", toll);
    } else {
        sx::cover("refused");
        if c.what & PRICE != 0 {
            let t = sell - charge;
            let may = (sell > 0) & (sell <= have) & (t < x) & (sell <= M - x) & W::n(min_buy).le(curve_pays(x, y, t));
            sx::check(!may, "a swap the curve can pay for is accepted");
        }
    }
}
const G: u64 = 1_000_000_000;
const M: u64 = u64::MAX;
macro_rules! ss { ($($n:ident $c:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { swap(&$c) })* } }
const D: C = C { order: &[0, 1], sell: 0, buy: 1, res: &[], fee: V::Fix(0), disc: Disc::No, supply: V::Fix(1000), amount: V::In(0, M), what: KEPT, fork: false };
const H: u64 = M / 2 - 7;
ss! {
    h_a06_two C { res: &[V::In(1, H), V::In(1, H)], amount: V::In(0, H), ..D };
    h_a06_back C { sell: 1, buy: 0, res: &[V::In(1, H), V::In(1, H)], amount: V::In(0, H), ..D };
    h_a06_three C { order: &[2, 0, 1], sell: 2, buy: 0, res: &[V::In(1, H), V::In(1, H), V::In(1, H)], amount: V::In(0, H), ..D };
    h_a06_four C { order: &[2, 0, 3, 1], sell: 3, buy: 1, res: &[V::In(1, H), V::In(1, H), V::In(1, H), V::In(1, H)], amount: V::In(0, H), ..D };
    h_a06_fee C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::In(0, 10_000), supply: V::Fix(0x1234567), amount: V::Fix(3 * G + 1), ..D };
    h_a06_max C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::Fix(10_000), supply: V::Fix(0x1234567), amount: V::In(0, 1 << 40), ..D };
    h_a06_symfee C { res: &[V::In(1, 1 << 32), V::In(1, 1 << 32)], fee: V::Fix(3_000), supply: V::Fix(500), amount: V::In(0, 1 << 32), ..D };
    h_a07_two C { res: &[V::In(1, H), V::In(1, H)], amount: V::In(0, H), what: PRICE, ..D };
    h_a07_back C { sell: 1, buy: 0, res: &[V::In(1, H), V::In(1, H)], amount: V::In(0, H), what: PRICE, ..D };
    h_a07_three C { order: &[2, 0, 1], sell: 2, buy: 0, res: &[V::In(1, H), V::In(1, H), V::In(1, H)], amount: V::In(0, H), what: PRICE, ..D };
    h_a07_four C { order: &[2, 0, 3, 1], sell: 3, buy: 1, res: &[V::In(1, H), V::In(1, H), V::In(1, H), V::In(1, H)], amount: V::In(0, H), what: PRICE, ..D };
    h_a07_fee C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::In(0, 10_000), supply: V::Fix(0x1234567), amount: V::Fix(3 * G + 1), what: PRICE, ..D };
    h_a07_max C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::Fix(10_000), supply: V::Fix(0x1234567), amount: V::In(0, 1 << 40), what: PRICE, ..D };
    h_a07_symfee C { res: &[V::In(1, 1 << 32), V::In(1, 1 << 32)], fee: V::Fix(3_000), supply: V::Fix(500), amount: V::In(0, 1 << 32), what: PRICE, ..D };
    h_a09_swap C { res: &[V::Fix(70_000), V::Fix(7 * G)], fee: V::Fix(3000), disc: Disc::Any, supply: V::Fix(0x1234567), amount: V::In(0, 1 << 40), what: PRICE, ..D };
    h_a09_other C { order: &[1, 0], sell: 1, buy: 0, res: &[V::Fix(5 * G), V::Fix(3 * G)], fee: V::Fix(10_000), disc: Disc::Any, supply: V::Fix(1), amount: V::In(0, 1 << 20), what: PRICE, ..D };
    h_a10_fix C { order: &[1, 0], res: &[V::Fix(5 * G), V::Fix(3 * G + 1)], fee: V::Fix(2_500), supply: V::In(1 << 10, 1 << 30), amount: V::In(0, 1 << 32), what: TOLL, ..D };
    h_a10_fix3 C { order: &[1, 2, 0], sell: 1, buy: 2, res: &[V::Fix(5 * G), V::Fix(3 * G + 1), V::Fix(77 * G)], fee: V::Fix(10_000), supply: V::Fix(1 << 30), amount: V::In(0, 1 << 31), what: TOLL, ..D };
    h_a10_fee C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::In(0, 10_000), supply: V::Fix(0x1234567), amount: V::Fix(3 * G + 1), what: TOLL, ..D };
    h_a10_max C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::Fix(10_000), supply: V::Fix(0x1234567), amount: V::In(0, 1 << 40), what: TOLL, ..D };
    h_a10_sup C { res: &[V::Fix(1_000 * G), V::Fix(7 * G)], fee: V::Fix(3_000), supply: V::In(1 << 10, 1 << 50), amount: V::Fix(77 * G), what: TOLL, ..D };
    h_a10_sup3 C { order: &[1, 2, 0], sell: 1, buy: 2, res: &[V::Fix(5 * G), V::Fix(3 * G + 1), V::Fix(77 * G)], fee: V::Fix(10_000), supply: V::In(1 << 10, 1 << 50), amount: V::Fix(2 * G), what: TOLL, ..D };
    h_a10_sup4 C { order: &[1, 2, 0, 3], sell: 3, buy: 2, res: &[V::Fix(5000), V::Fix(30_000), V::Fix(77_000), V::Fix(40_000)], fee: V::Fix(10_000), supply: V::In(1 << 10, 1 << 50), amount: V::Fix(30_000), what: TOLL, ..D };
    h_a10_small C { res: &[V::In(1 << 10, 1 << 20), V::In(1 << 10, 1 << 20)], fee: V::Fix(3_000), supply: V::Fix(1 << 20), amount: V::In(0, 1 << 20), what: TOLL, ..D };
}

/// every pair of reserves of every pool of `n` reserves kept in any order: what one swap with a fee does to it
fn pairs(n: usize, amount: V, fee: V, what: u64) {
    const ORDERS2: [&[usize]; 2] = [&[0, 1], &[1, 0]];
    const ORDERS3: [&[usize]; 6] = [&[0, 1, 2], &[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]];
    const ORDERS4: [&[usize]; 8] = [&[0, 1, 2, 3], &[3, 2, 1, 0], &[1, 0, 3, 2], &[2, 3, 0, 1], &[1, 3, 0, 2], &[2, 0, 3, 1], &[3, 0, 1, 2], &[0, 3, 1, 2]];
    let orders: &[&'static [usize]] = match n { 2 => &ORDERS2, 3 => &ORDERS3, _ => &ORDERS4 };
    let order = orders[sx::choose("order", orders.len() as u64) as usize];
    let sell = sx::choose("sold", n as u64) as usize;
    let buy = (sell + 1 + sx::choose("bought", n as u64 - 1) as usize) % n;
    let res: &'static [V] = &[V::Fix(70_000), V::Fix(1_000_003), V::Fix(65_537), V::Fix(300_000)];
    swap(&C { order, sell, buy, res: &res[..n], fee, amount, supply: V::Fix(1_234_567), what, ..D });
}
#[no_mangle] pub extern "C" fn h_a06_pairs2() { pairs(2, V::In(0, 70_000), V::Fix(10_000), KEPT) }
#[no_mangle] pub extern "C" fn h_a06_pairs3() { pairs(3, V::Fix(47_501), V::Fix(10_000), KEPT) }
#[no_mangle] pub extern "C" fn h_a06_pairs4() { pairs(4, V::Fix(47_501), V::Fix(10_000), KEPT) }
#[no_mangle] pub extern "C" fn h_a07_pairs2() { pairs(2, V::In(0, 70_000), V::Fix(10_000), PRICE) }
#[no_mangle] pub extern "C" fn h_a07_pairs3() { pairs(3, V::Fix(47_501), V::Fix(10_000), PRICE) }
#[no_mangle] pub extern "C" fn h_a07_pairs4() { pairs(4, V::Fix(47_501), V::Fix(10_000), PRICE) }
#[no_mangle] pub extern "C" fn h_a10_pairs2() { pairs(2, V::In(0, 70_000), V::Fix(10_000), TOLL) }
#[no_mangle] pub extern "C" fn h_a10_pairs3() { pairs(3, V::Fix(47_501), V::Fix(10_000), TOLL) }
#[no_mangle] pub extern "C" fn h_a10_pairs4() { pairs(4, V::Fix(47_501), V::Fix(10_000), TOLL) }
