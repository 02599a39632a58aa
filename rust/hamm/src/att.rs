//! Deposits, redemptions and swaps with one wrong account.
use anchor_lang::prelude::*;
use crate::util::*;
use crate::liq::*;
use crate::swap::*;
use crate::admin::discount_acc;

/// Two pools with the same tokens, the user's wallets, and somebody else's.
fn two_pools() -> World {
    let mut w = World::new(ID, 10);
    let p = pool_of(POOL, LP, &[0, 1], &[1000, 2000], 3000);
    add_pool(&mut w, POOL, &p, 1000, 7);
    // the same at another address
    w.add(pool_acc(key(116), &p));
    user(&mut w, OTHER, true);
    w.add(program(ID));
    // another pool of other vaults
    let mut o = pool_of(POOL2, LP2, &[0, 1], &[1000, 2000], 3000);
    o.reserves[0].vault = key(110);
    o.reserves[1].vault = key(111);
    o.program_toll_wallet = key(112);
    add_pool(&mut w, POOL2, &o, 1000, 7);
    user(&mut w, USER, true);
    w.add(token(LPW, LP, USER, 500));
    w.add(token(key(113), LP2, USER, 500));
    w.add(token(key(114), LP, OTHER, 500));
    for i in 0..2 {
        w.add(token(wallet_of(i), mint_of(i), USER, 50_000));
        w.add(token(key(120 + i as u8), mint_of(i), OTHER, 50_000));
        // vaults unknown to the pool, though its own
        w.add(token(key(125 + i as u8), mint_of(i), signer_pda(&POOL), 50_000));
    }
    w.add(token(wallet_of(2), mint_of(2), USER, 50_000));
    w.add(token(vault_of(2), mint_of(2), signer_pda(&POOL), 50_000));
    w.add(token(SW, mint_of(0), USER, 50_000));
    w.add(token(BW, mint_of(1), USER, 5));
    w.add(token(TOLLW, LP, TOLLA, 9));
    w.add(token(key(112), LP2, TOLLA, 9));
    w.add(token(key(115), LP, USER, 9));
    w.add(discount_acc(&OTHER, 1_000_000, 99));
    w.add(fresh(discount_pda(&USER)));
    w
}
use Bad::*;
/// of 6 accounts and the pairs of vaults and wallets from the 7th on
fn liq() -> Vec<(usize, Bad)> { vec![
    (0, NoSign), (1, Is(key(116))), (1, Owner), (1, Type), (1, Is(POOL2)), (2, Alias), (2, Is(USER)), (3, Alias), (3, Owner), (3, Is(LP2)), (4, Owner), (4, Is(key(113))), (5, Alias), (5, Is(ID)),
    (6, Owner), (6, Is(key(110))), (6, Is(key(125))), (6, Is(vault_of(1))), (8, Is(vault_of(0))), (8, Is(key(111))),
] }
#[no_mangle]
pub extern "C" fn h_a02_accounts() {
    let mut w = two_pools();
    let mut l = liq();
    l.extend_from_slice(&[(0, Other), (7, Owner), (7, Is(key(120))), (7, Is(vault_of(0))), (9, Is(key(121))), (9, Is(wallet_of(0))), (6, Is(vault_of(2))), (7, Is(wallet_of(2)))]);
    attack(&mut w, dep_accs(), &pairs(&[0, 1]), ix::deposit_liquidity(&[(mint_of(0), 10), (mint_of(1), 20)]), &l);
}
#[no_mangle]
pub extern "C" fn h_a03_accounts() {
    let mut w = two_pools();
    let mut l = liq();
    l.extend_from_slice(&[(0, Other), (4, Is(key(114))), (7, Owner), (7, Is(wallet_of(1))), (6, Is(vault_of(2))), (7, Is(wallet_of(2))), (9, Is(wallet_of(0)))]);
    attack(&mut w, red_accs(), &pairs(&[0, 1]), ix::redeem_liquidity(10, &[(mint_of(0), 0), (mint_of(1), 0)]), &l);
}
/// token limits which do not match the pool
fn limits(dep: bool) {
    let w = two_pools();
    let (a, b, c) = (mint_of(0), mint_of(1), mint_of(2));
    let l: Vec<(Pubkey, u64)> = match sx::choose("limits", 6) {
        0 => vec![],
        1 => vec![(a, 10)],
        2 => vec![(a, 10), (c, 20)],
        3 => vec![(a, 10), (a, 20)],
        4 => vec![(a, 10), (b, 20), (c, 30)],
        _ => vec![(Pubkey::new_from_array(sx::bytes32("mint")), 10), (b, 20)],
    };
    if l.len() == 2 { sx::assume(l[0].0 != a || l[1].0 != b); }
    let pr = pairs(&[0, 1]);
    let r = if dep { send(&w, dep_accs(), &pr, ix::deposit_liquidity(&l)) } else { send(&w, red_accs(), &pr, ix::redeem_liquidity(10, &l)) };
    sx::cover("tried");
    sx::check(r.is_err(), "limits for other than the pool's tokens are refused");
}
#[no_mangle] pub extern "C" fn h_a02_limits() { limits(true) }
#[no_mangle] pub extern "C" fn h_a03_limits() { limits(false) }
/// pairs of vaults and wallets which do not match the pool
fn wrong_pairs(dep: bool) {
    let w = two_pools();
    let pr: Vec<Pubkey> = match sx::choose("pairs", 8) {
        0 => vec![],
        1 => pairs(&[0]),
        2 => pairs(&[0, 0]),
        3 => pairs(&[0, 1, 0]),
        4 => pairs(&[0, 1, 2]),
        5 => pairs(&[0, 2]),
        6 => vec![vault_of(0), wallet_of(1), vault_of(1), wallet_of(0)],
        _ => vec![wallet_of(0), vault_of(0), wallet_of(1), vault_of(1)],
    };
    let l = [(mint_of(0), 10), (mint_of(1), 20)];
    let r = if dep { send(&w, dep_accs(), &pr, ix::deposit_liquidity(&l)) } else { send(&w, red_accs(), &pr, ix::redeem_liquidity(10, &[(mint_of(0), 0), (mint_of(1), 0)])) };
    sx::cover("tried");
    sx::check(r.is_err(), "each vault of the pool is passed once, with a wallet of the same token");
}
#[no_mangle] pub extern "C" fn h_a02_pairs() { wrong_pairs(true) }
#[no_mangle] pub extern "C" fn h_a03_pairs() { wrong_pairs(false) }
#[no_mangle]
pub extern "C" fn h_a07_accounts() {
    let mut w = two_pools();
    attack(&mut w, swap_accs(0, 1), &[], ix::swap(100, 0), &[
        (0, NoSign), (0, Is(OTHER)), (1, Alias), (1, Is(discount_pda(&OTHER))), (2, Is(key(116))), (2, Owner), (2, Type), (2, Is(POOL2)), (3, Alias), (3, Is(USER)), (3, Is(signer_pda(&POOL2))),
        (4, Owner), (4, Is(key(120))), (4, Is(wallet_of(2))), (4, Is(BW)), (4, Is(vault_of(0))), (5, Owner), (5, Is(wallet_of(0))), (5, Is(wallet_of(2))),
        (6, Alias), (6, Owner), (6, Is(key(110))), (6, Is(key(125))), (6, Is(vault_of(2))), (6, Is(vault_of(1))), (6, Is(key(120))),
        (7, Alias), (7, Owner), (7, Is(key(111))), (7, Is(key(126))), (7, Is(vault_of(2))), (7, Is(vault_of(0))), (7, Is(key(121))),
        (8, Alias), (8, Owner), (8, Is(LP2)), (9, Alias), (9, Owner), (9, Is(LPW)), (9, Is(key(112))), (9, Is(key(115))), (10, Alias), (10, Is(ID))]);
}
