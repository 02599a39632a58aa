//! F02: lookups in the snapshot history, over the functions the harvest
//! calculation uses for them.
use anchor_lang::prelude::*;
use crate::util::*;

/// Lookups over every ring content.  Position p (0 = newest) is identified by
/// its `staked` value.
fn f02(tip: usize) {
    let w = World::new(ID, 1);
    let (f, _) = farm_acc(FARM);
    let mut at = vec![];
    for p in 0..1000usize { at.push(sx::any("at")); f.m().snapshots.ring_buffer[(tip + 1000 - p) % 1000] = snapshot(p as u64, at[p]); }
    f.m().snapshots.ring_buffer_tip = tip as u64;
    let c = sx::any("c");
    let farm = f.m();
    let _ = &w;
    let got = sx::attempt(|| farm.first_snapshot_after(s(c)).map(|g| g.staked.amount));
    sx::check(got.is_some(), "a lookup always answers");
    let got = got.unwrap();
    if let Some(g) = got {
        let p = g as usize;
        sx::cover("some");
        sx::check(at[p] > c, "the snapshot found started after the slot");
        sx::check(p == 999 || at[p + 1] <= c, "no earlier snapshot started after the slot");
    } else {
        sx::cover("none");
        sx::check(at[0] <= c, "a snapshot after the slot is found whenever the history has one");
    }
}
fn f02w(tip: usize) {
    let _w = World::new(ID, 1);
    let (f, _) = farm_acc(FARM);
    let mut at = vec![];
    for p in 0..1000usize { at.push(sx::any("at")); f.m().snapshots.ring_buffer[(tip + 1000 - p) % 1000] = snapshot(p as u64, at[p]); }
    f.m().snapshots.ring_buffer_tip = tip as u64;
    let c = sx::any("c");
    let mut n = 0u64;
    let done = sx::attempt(|| {
        for x in f.m().get_window_snapshots_eligible_to_harvest(s(c)) {
            sx::check(x.staked.amount == n, "windows are listed newest first without gaps");
            n += 1;
        }
    });
    sx::check(done.is_some(), "a lookup always answers");
    let n = n as usize;
    sx::cover("ok");
    sx::check(n >= 1 && n <= 1000, "the open window is always listed, at most the whole history");
    sx::check(n == 1000 || at[n - 1] <= c, "the window containing the slot is listed");
    sx::check(n == 1 || at[n - 2] > c, "no window before the one containing the slot is listed");
}
macro_rules! tips { ($($a:ident $b:ident $t:expr;)*) => { $(#[no_mangle] pub extern "C" fn $a() { f02($t) } #[no_mangle] pub extern "C" fn $b() { f02w($t) })* } }
tips! {
    h_f02_after_0 h_f02_window_0 0; h_f02_after_1 h_f02_window_1 1; h_f02_after_2 h_f02_window_2 2; h_f02_after_499 h_f02_window_499 499;
    h_f02_after_500 h_f02_window_500 500; h_f02_after_997 h_f02_window_997 997; h_f02_after_998 h_f02_window_998 998; h_f02_after_999 h_f02_window_999 999;
}

/// the newest entry at each of 125 positions
macro_rules! parts { ($($a:ident $b:ident $t:expr;)*) => { $(#[no_mangle] pub extern "C" fn $a() { f02($t * 125 + sx::choose("tip", 125) as usize) } #[no_mangle] pub extern "C" fn $b() { f02w($t * 125 + sx::choose("tip", 125) as usize) })* } }
parts! {
    h_f02_after_p0 h_f02_window_p0 0; h_f02_after_p1 h_f02_window_p1 1; h_f02_after_p2 h_f02_window_p2 2; h_f02_after_p3 h_f02_window_p3 3;
    h_f02_after_p4 h_f02_window_p4 4; h_f02_after_p5 h_f02_window_p5 5; h_f02_after_p6 h_f02_window_p6 6; h_f02_after_p7 h_f02_window_p7 7;
}
