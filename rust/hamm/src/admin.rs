//! A01 creating pools, A08 swap fee, A09 granting discounts, A11 singletons.
use anchor_lang::prelude::*;
use crate::util::*;
use anchor_lang::solana_program::bpf_loader_upgradeable as bpf;

const WHO: Pubkey = key(201);
pub const META: Pubkey = key(90);
fn opt(b: bool) -> u8 { b as u8 }
fn bytes(n: &str) -> Pubkey { Pubkey::new_from_array(sx::bytes32(n)) }
pub fn toll_acc(authority: Pubkey) -> Info { info(toll_pda(), ID, ser(&ProgramToll { authority }, ProgramToll::space()), 1 << 30) }
pub fn settings_acc(authority: Pubkey) -> Info { info(settings_pda(), ID, ser(&DiscountSettings { authority }, DiscountSettings::space()), 1 << 30) }
pub fn discount_acc(u: &Pubkey, amount: u64, until: u64) -> Info { info(discount_pda(u), ID, ser(&Discount { amount: pm(amount), valid_until: s(until) }, Discount::space()), 1 << 30) }
fn pool_accs() -> ac::CreatePool {
    ac::CreatePool { admin: WHO, pool: POOL, pool_signer: signer_pda(&POOL), program_toll: toll_pda(), program_toll_wallet: TOLLW, lp_mint: LP, token_program: TOKEN, system_program: SYS }
}
/// what `create_pool` needs, all of it in order
pub fn fresh_pool(w: &mut World, order: &[usize]) -> ac::CreatePool {
    user(w, WHO, true);
    w.add(signer(fresh(POOL), true));
    let ps = signer_pda(&POOL);
    w.add(wallet(ps));
    w.add(toll_acc(TOLLA));
    w.add(mint(LP, Some(ps), None, 0));
    w.add(token(TOLLW, LP, TOLLA, 0));
    for i in order { w.add(token(vault_of(*i), mint_of(*i), ps, 0)); }
    pool_accs()
}
/// Requests with any number of vaults, each of them in any state.
fn create(pats: &[&[usize]]) {
    let mut w = World::new(ID, 10);
    let (admin, signed) = anyone(&mut w, WHO, "admin");
    let pool_signs = sx::flag("pool_signs");
    w.add(signer(fresh(POOL), pool_signs));
    let ps = signer_pda(&POOL);
    w.add(wallet(ps));
    w.add(toll_acc(TOLLA));
    let supply0 = sx::any("supply");
    let (am, amk) = (sx::flag("has_mint_authority"), bytes("mint_authority"));
    let fr = sx::flag("has_freeze_authority");
    let m = w.add(mint(LP, Some(amk), Some(OTHER), supply0));
    m.data.borrow_mut()[0] = opt(am);
    m.data.borrow_mut()[46] = opt(fr);
    let (tm, to) = (bytes("toll_wallet_mint"), bytes("toll_wallet_owner"));
    w.add(token(TOLLW, tm, to, sx::any("toll")));
    let pat = pats[sx::choose("vaults", pats.len() as u64) as usize];
    let n = pat.len();
    let mut good = signed & pool_signs & am & (amk == ps) & !fr & (tm == LP) & (to == TOLLA);
    let mut v = vec![];
    for (i, mi) in pat.iter().enumerate() {
        let o = bytes("owner");
        let a = sx::any("amount");
        let (dl, cl, fz) = (sx::flag("delegate"), sx::flag("close"), sx::flag("frozen"));
        let k = key(70 + i as u8);
        let x = w.add(token(k, mint_of(*mi), o, a));
        {
            let mut d = x.data.borrow_mut();
            d[72] = opt(dl);
            d[76..108].copy_from_slice(OTHER.as_ref());
            d[121] = opt(dl);
            d[129] = opt(cl);
            d[133..165].copy_from_slice(OTHER.as_ref());
            d[108] = 1 + opt(fz);
        }
        good &= (o == ps) & ((a == 0) == (supply0 == 0)) & !dl & !cl & !fz & !pat[..i].contains(mi);
        v.push((k, mint_of(*mi), a));
    }
    good &= n >= 2 && n <= 4;
    distinct(&w, WHO);
    let amp = sx::any("amplifier");
    let extra: Vec<Pubkey> = v.iter().map(|x| x.0).collect();
    let r = send(&w, pool_accs(), &extra, ix::create_pool(amp));
    sx::check(r.is_ok() == good, "a pool is created exactly when its mint, toll wallet and vaults are safe");
    if r.is_ok() {
        sx::cover("ok");
        sx::check(*w.get(&POOL).owner == ID, "the pool belongs to the program");
        let p = de_pool(&w, &POOL);
        sx::check(p.admin == admin && p.signer == ps && p.mint == LP && p.program_toll_wallet == TOLLW, "the pool records its admin, signer, mint and toll wallet");
        sx::check(p.swap_fee.permillion == 0, "a new pool takes no fee");
        sx::check(p.dimension == n as u64, "the pool counts its reserves");
        for i in 0..4 {
            if i < n { sx::check(p.reserves[i].mint == v[i].1 && p.reserves[i].vault == v[i].0 && p.reserves[i].tokens.amount == v[i].2, "every vault becomes a reserve with what it holds"); }
            else { sx::check(p.reserves[i].mint == Pubkey::default() && p.reserves[i].tokens.amount == 0, "other reserves stay empty"); }
        }
        match p.curve {
            Curve::ConstProd => sx::check(amp == 0, "a pool with an amplifier uses the stable curve"),
            Curve::Stable { amplifier, .. } => sx::check((amp != 0) & (amplifier == amp), "a pool without amplifier uses the constant product curve"),
        }
        sx::check(p.curve.invariant().map(|x| x == amm::prelude::Decimal::zero()).unwrap_or(true), "the stable curve's invariant starts unset");
    } else { sx::cover("refused"); }
}
#[no_mangle] pub extern "C" fn h_a01_two() { create(&[&[0, 1], &[1, 0], &[2, 2]]) }
#[no_mangle] pub extern "C" fn h_a01_three() { create(&[&[1, 2, 0], &[0, 0, 1], &[0, 1, 0], &[0, 1, 1]]) }
#[no_mangle] pub extern "C" fn h_a01_four() { create(&[&[3, 1, 2, 0], &[0, 1, 2, 0], &[0, 1, 2, 1], &[0, 1, 2, 2]]) }
#[no_mangle] pub extern "C" fn h_a01_count() { create(&[&[], &[0], &[0, 1], &[0, 1, 2, 3, 4], &[0, 1, 2, 3, 0], &[0, 1, 2, 3, 4, 5]]) }
#[no_mangle]
pub extern "C" fn h_a01_accounts() {
    let mut w = World::new(ID, 10);
    w.add_as(WHO, signer(wallet(ADMIN), true));
    w.add(signer(fresh(POOL), true));
    w.add(wallet(signer_pda(&POOL)));
    w.add(toll_acc(TOLLA));
    let x = pool_of(POOL2, LP2, &[2, 3], &[5, 6], 0);
    let pi = pool_acc(POOL2, &x);
    w.add(signer(pi, true));
    w.add(wallet(signer_pda(&POOL2)));
    w.add(mint(LP, Some(signer_pda(&POOL)), None, 0));
    w.add(mint(LP2, Some(signer_pda(&POOL2)), None, 0));
    w.add(token(TOLLW, LP, TOLLA, 1));
    let mut extra = vec![];
    for i in 0..2 { w.add(token(vault_of(i), mint_of(i), signer_pda(&POOL), 0)); extra.push(vault_of(i)); }
    let foreign = key(93);
    w.add(token(foreign, mint_of(1), signer_pda(&POOL2), 0));
    let mine = key(94);
    w.add(token(mine, mint_of(1), ADMIN, 0));
    attack(&mut w, pool_accs(), &extra, ix::create_pool(0),
        &[(0, Bad::NoSign), (1, Bad::NoSign), (1, Bad::Is(POOL2)), (1, Bad::Owner), (2, Bad::Alias), (2, Bad::Is(signer_pda(&POOL2))), (3, Bad::Alias), (3, Bad::Owner), (3, Bad::Type), (4, Bad::Owner), (4, Bad::Is(foreign)),
          (5, Bad::Alias), (5, Bad::Owner), (5, Bad::Is(LP2)), (6, Bad::Alias), (7, Bad::Alias), (8, Bad::Owner), (9, Bad::Owner), (9, Bad::Is(foreign)), (9, Bad::Is(mine)), (9, Bad::Is(vault_of(0)))]);
}

// ------------------------------------------------------------------------ fee
#[no_mangle]
pub extern "C" fn h_a08_fee() {
    let mut w = World::new(ID, 10);
    let (k, signed) = anyone(&mut w, WHO, "signer");
    let admin = bytes("admin");
    let n = 2 + sx::choose("dimension", 3) as usize;
    let res: Vec<u64> = (0..n).map(|_| sx::any("reserve")).collect();
    let mut x = pool_of(POOL, LP, &[2, 0, 1, 3][..n], &res, sx::range("old", 0, 10_000));
    x.admin = admin;
    if sx::choose("stable", 2) == 1 { x.curve = Curve::Stable { amplifier: sx::any("amplifier"), invariant: Default::default() }; }
    w.add(pool_acc(POOL, &x));
    distinct(&w, WHO);
    let fee = sx::any("fee");
    let r = send(&w, ac::SetPoolSwapFee { admin: WHO, pool: POOL }, &[], ix::set_pool_swap_fee(fee));
    sx::check(r.is_ok() == (signed & (k == admin) & (fee <= 10_000)), "the fee changes exactly when the pool's admin signs and it is at most one per cent");
    if r.is_ok() { sx::cover("ok"); } else { sx::cover("refused"); }
    let p = de_pool(&w, &POOL);
    sx::check(p.swap_fee.permillion == sx::ite(r.is_ok(), fee, x.swap_fee.permillion), "the fee is stored as given");
    let mut y = p.clone();
    y.swap_fee = x.swap_fee;
    sx::check(same_pool(&x, &y) & (p.curve == x.curve), "nothing else in the pool changes");
    for i in 0..4 { sx::check(p.reserves[i].tokens.amount == x.reserves[i].tokens.amount, "no reserve changes"); }
}
#[no_mangle]
pub extern "C" fn h_a08_accounts() {
    let mut w = World::new(ID, 10);
    user(&mut w, ADMIN, true);
    let x = pool_of(POOL, LP, &[0, 1], &[5, 6], 0);
    w.add(pool_acc(POOL, &x));
    let mut y = pool_of(POOL2, LP2, &[0, 1], &[5, 6], 0);
    y.admin = OTHER;
    w.add(pool_acc(POOL2, &y));
    attack(&mut w, ac::SetPoolSwapFee { admin: ADMIN, pool: POOL }, &[], ix::set_pool_swap_fee(30), &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Is(POOL2)), (1, Bad::Owner), (1, Bad::Type)]);
}

// ------------------------------------------------------------------ discounts
fn put_accs(u: &Pubkey) -> ac::PutDiscount { ac::PutDiscount { authority: WHO, discount: discount_pda(u), discount_settings: settings_pda(), system_program: SYS } }
#[no_mangle]
pub extern "C" fn h_a09_put() {
    let now = sx::any("now");
    let mut w = World::new(ID, now);
    let (k, signed) = anyone(&mut w, WHO, "signer");
    let may_pay = sx::choose("writable", 2) == 1;
    if !may_pay { let mut i = w.get(&WHO); i.is_writable = false; w.set(&WHO, i); }
    let auth = bytes("authority");
    w.add(settings_acc(auth));
    let exists = sx::choose("exists", 2) == 1;
    if exists { w.add(discount_acc(&USER, sx::any("old"), sx::any("old_until"))); } else { w.add(fresh(discount_pda(&USER))); }
    w.add(discount_acc(&OTHER, 77, 99));
    distinct(&w, WHO);
    let (amount, until) = (sx::any("amount"), sx::any("until"));
    let r = send(&w, put_accs(&USER), &[], ix::put_discount(USER, amount, until));
    let may = signed & (k == auth) & (until > now) & (amount <= 1_000_000) & (exists | may_pay);
    sx::check(r.is_ok() == may, "a discount is granted exactly when the settings' authority signs, it ends later and it is at most all of the fee");
    if r.is_ok() {
        sx::cover("ok");
        let i = w.get(&discount_pda(&USER));
        sx::check(*i.owner == ID, "the discount belongs to the program");
        let d = i.data.borrow();
        let x = Discount::try_deserialize(&mut &d[..]).unwrap();
        sx::check((x.amount.permillion == amount) & (x.valid_until.slot == until), "the discount is stored as given");
    } else { sx::cover("refused"); }
    let i = w.get(&discount_pda(&OTHER));
    let d = i.data.borrow();
    let x = Discount::try_deserialize(&mut &d[..]).unwrap();
    sx::check((x.amount.permillion == 77) & (x.valid_until.slot == 99), "nobody else's discount changes");
}
#[no_mangle]
pub extern "C" fn h_a09_accounts() {
    let mut w = World::new(ID, 10);
    w.add_as(WHO, signer(wallet(ADMIN), true));
    w.add(settings_acc(ADMIN));
    w.add(fresh(discount_pda(&USER)));
    w.add(discount_acc(&OTHER, 77, 99));
    w.add(info(key(91), ID, ser(&DiscountSettings { authority: OTHER }, 40), 5));
    w.add(toll_acc(ADMIN));
    attack(&mut w, put_accs(&USER), &[], ix::put_discount(USER, 500, 100),
        &[(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Alias), (1, Bad::Is(discount_pda(&OTHER))), (1, Bad::Is(settings_pda())), (2, Bad::Alias), (2, Bad::Owner), (2, Bad::Type), (2, Bad::Is(key(91))), (2, Bad::Is(toll_pda())), (3, Bad::Alias)]);
}

// ----------------------------------------------------------------- singletons
fn program_acc(id: Pubkey, data: Pubkey) -> Info {
    let mut d = vec![2u8, 0, 0, 0];
    d.extend_from_slice(data.as_ref());
    let mut i = info(id, bpf::ID, buf(&d), 1);
    i.executable = true;
    i
}
fn meta_data(slot: u64, has: bool, a: &Pubkey) -> Vec<u8> {
    let mut d = vec![3u8, 0, 0, 0];
    d.extend_from_slice(&slot.to_le_bytes());
    d.push(opt(has));
    d.extend_from_slice(a.as_ref());
    d.extend_from_slice(&[7; 20]);
    d
}
fn toll_accs() -> ac::CreateProgramToll { ac::CreateProgramToll { program_authority: WHO, amm: ID, amm_metadata: META, program_toll_authority: TOLLA, program_toll: toll_pda(), system_program: SYS } }
fn set_accs() -> ac::CreateDiscountSettings { ac::CreateDiscountSettings { program_authority: WHO, amm: ID, amm_metadata: META, discount_settings_authority: DISCA, discount_settings: settings_pda(), system_program: SYS } }
fn single(toll: bool) {
    let mut w = World::new(ID, 10);
    let (k, signed) = anyone(&mut w, WHO, "signer");
    let (has, up) = (sx::flag("upgradeable"), bytes("upgrade_authority"));
    let pd = bytes("program_data");
    w.add(program_acc(ID, pd));
    w.add(info(META, bpf::ID, buf(&meta_data(sx::any("slot"), has, &up)), 1));
    let exists = sx::choose("exists", 2) == 1;
    let p = if toll { toll_pda() } else { settings_pda() };
    if exists { w.add(if toll { toll_acc(OTHER) } else { settings_acc(OTHER) }); } else { w.add(fresh(p)); }
    let a = bytes("new_authority");
    w.add_as(if toll { TOLLA } else { DISCA }, wallet(a));
    distinct(&w, WHO);
    distinct(&w, if toll { TOLLA } else { DISCA });
    let r = if toll { send(&w, toll_accs(), &[], ix::create_program_toll()) } else { send(&w, set_accs(), &[], ix::create_discount_settings()) };
    sx::check(r.is_ok() == (signed & has & (k == up) & (pd == META) & !exists), "the account is created once, by the program's upgrade authority");
    let i = w.get(&p);
    if r.is_ok() { sx::cover("ok"); } else { sx::cover("refused"); }
    if r.is_ok() || exists {
        let d = i.data.borrow();
        let x = if toll { ProgramToll::try_deserialize(&mut &d[..]).unwrap().authority } else { DiscountSettings::try_deserialize(&mut &d[..]).unwrap().authority };
        sx::check(*i.owner == ID && x == (if exists { OTHER } else { a }), "the authority is stored as given and never replaced");
    }
}
#[no_mangle] pub extern "C" fn h_a11_toll() { single(true) }
#[no_mangle] pub extern "C" fn h_a11_settings() { single(false) }
#[no_mangle]
pub extern "C" fn h_a11_accounts() {
    let mut w = World::new(ID, 10);
    w.add_as(WHO, signer(wallet(ADMIN), true));
    w.add(program_acc(ID, META));
    w.add(info(META, bpf::ID, buf(&meta_data(5, true, &ADMIN)), 1));
    w.add(program_acc(key(91), key(92)));
    w.add(info(key(92), bpf::ID, buf(&meta_data(5, true, &ADMIN)), 1));
    w.add(wallet(TOLLA));
    w.add(wallet(DISCA));
    w.add(fresh(toll_pda()));
    w.add(fresh(settings_pda()));
    let l = [(0, Bad::NoSign), (0, Bad::Other), (1, Bad::Alias), (1, Bad::Owner), (1, Bad::Is(key(91))), (2, Bad::Alias), (2, Bad::Owner), (2, Bad::Is(key(92))), (4, Bad::Alias), (4, Bad::Is(META)), (5, Bad::Alias)];
    if sx::choose("what", 2) == 0 { attack(&mut w, toll_accs(), &[], ix::create_program_toll(), &l); }
    else { attack(&mut w, set_accs(), &[], ix::create_discount_settings(), &l); }
}
