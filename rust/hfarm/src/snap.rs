//! F01: taking snapshots.
use anchor_lang::prelude::*;
use crate::util::*;

fn f01(lo: u64, hi: u64) {
    let slot = sx::range("slot", 0, u64::MAX / 4);
    let mut w = World::new(ID, slot);
    let staked = sx::any("staked");
    let f = add_farm(&mut w, FARM, SMINT, staked);
    let tip = lo + sx::choose("tip", hi - lo);
    for i in 0..1000 {
        f.m().snapshots.ring_buffer[i] = snapshot(sx::any("s"), sx::range("at", 0, u64::MAX / 4));
    }
    f.m().snapshots.ring_buffer_tip = tip;
    let win = sx::range("window", 0, u64::MAX / 4);
    f.m().min_snapshot_window_slots = win;
    let before = f.snap();
    let r = send(&w, ac::TakeSnapshot { farm: FARM, stake_vault: vault_pda(&FARM) }, ix::take_snapshot());
    let a = f.m();
    let need = sx::ite(win == 0, 7200, win);
    let last = before.snapshots.ring_buffer[tip as usize].started_at.slot;
    let due = slot >= last + need;
    if r.is_ok() {
        sx::cover("ok");
        let next = ((tip + 1) % 1000) as usize;
        sx::check(due, "a snapshot is only taken once the minimum window has passed");
        sx::check(a.snapshots.ring_buffer_tip == next as u64, "the tip advances by one, wrapping around");
        let n = a.snapshots.ring_buffer[next];
        sx::check((n.staked.amount == staked) & (n.started_at.slot == slot), "the snapshot records the vault balance and the current slot");
        sx::check(same_ring(a, &before, next), "no other snapshot changes");
        sx::check(a.admin == before.admin && a.stake_vault == before.stake_vault && a.min_snapshot_window_slots == win, "taking a snapshot changes no setting");
        sx::check(bal(&w.get(&vault_pda(&FARM))) == staked, "no tokens move");
    } else {
        sx::cover("refused");
        sx::check(!due, "a due snapshot is not refused");
    }
}
macro_rules! part { ($($n:ident $lo:expr, $hi:expr;)*) => { $(#[no_mangle] pub extern "C" fn $n() { f01($lo, $hi) })* } }
part! {
    h_f01_step_0 0, 125; h_f01_step_1 125, 250; h_f01_step_2 250, 375; h_f01_step_3 375, 500;
    h_f01_step_4 500, 625; h_f01_step_5 625, 750; h_f01_step_6 750, 875; h_f01_step_7 875, 1000;
}

/// only the farm's own vault may be sampled; the farm must be a farm account
#[no_mangle]
pub extern "C" fn h_f01_accounts() {
    let mut w = World::new(ID, sx::range("slot", 0, BIG));
    let f = add_farm(&mut w, FARM, SMINT, sx::any("staked"));
    let _f2 = add_farm(&mut w, FARM2, SMINT, sx::any("staked"));
    let fake = key(77);
    let kind = sx::choose("kind", 5);
    let mut vault = vault_pda(&FARM);
    match kind {
        0 => { w.add(token(fake, SMINT, signer_pda(&FARM), sx::any("fake"))); vault = fake; }
        1 => vault = vault_pda(&FARM2),
        2 => { // the vault key recorded in the farm, any address in the instruction
            let k = Pubkey::new_from_array(sx::bytes32("vault"));
            sx::assume(k != vault);
            w.set(&vault, token(k, SMINT, signer_pda(&FARM), sx::any("fake")));
        }
        3 => { let i = w.get(&FARM); let d = i.data.borrow().to_vec(); w.set(&FARM, info(FARM, OTHER, buf(&d), 1)); } // not owned by the program
        _ => { let i = w.get(&vault); let d = i.data.borrow().to_vec(); w.set(&vault, info(vault, OTHER, buf(&d), 1)); } // not a token account
    }
    let tip = f.m().snapshots.ring_buffer_tip;
    let r = send(&w, ac::TakeSnapshot { farm: FARM, stake_vault: vault }, ix::take_snapshot());
    sx::cover("tried");
    sx::check(r.is_err() && f.m().snapshots.ring_buffer_tip == tip, "only the farm's own stake vault can be sampled");
}
