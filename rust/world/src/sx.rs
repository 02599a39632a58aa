//! Intrinsics of the symbolic executor (and of the native replay runtime).
mod raw {
    extern "C" {
        pub fn sx_u64(n: *const u8, len: usize, lo: u64, hi: u64) -> u64;
        pub fn sx_bytes(n: *const u8, len: usize, p: *mut u8, k: usize);
        pub fn sx_choose(n: *const u8, len: usize, k: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assert(c: bool, t: *const u8, len: usize);
        pub fn sx_cover(t: *const u8, len: usize);
        pub fn sx_observe(n: *const u8, len: usize, v: u64);
        pub fn sx_try(f: extern "C" fn(*mut u8), p: *mut u8) -> u64;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sx_fork(on: u64);
        pub fn sx_end() -> !;
        pub fn sx_wide(op: u64, limbs: u64, a: *const u64, b: *const u64, c: *const u64, o: *mut u64) -> u64;
    }
}
/// an arbitrary u64 in lo..=hi
pub fn range(n: &str, lo: u64, hi: u64) -> u64 { unsafe { raw::sx_u64(n.as_ptr(), n.len(), lo, hi) } }
pub fn any(n: &str) -> u64 { range(n, 0, u64::MAX) }
pub fn flag(n: &str) -> bool { range(n, 0, 1) == 1 }
pub fn bytes32(n: &str) -> [u8; 32] { let mut b = [0u8; 32]; unsafe { raw::sx_bytes(n.as_ptr(), n.len(), b.as_mut_ptr(), 32) }; b }
/// explores every alternative 0..k separately
pub fn choose(n: &str, k: u64) -> u64 { unsafe { raw::sx_choose(n.as_ptr(), n.len(), k) } }
pub fn assume(c: bool) { unsafe { raw::sx_assume(c) } }
pub fn check(c: bool, t: &str) { unsafe { raw::sx_assert(c, t.as_ptr(), t.len()) } }
pub fn cover(t: &str) { unsafe { raw::sx_cover(t.as_ptr(), t.len()) } }
pub fn observe(n: &str, v: u64) { unsafe { raw::sx_observe(n.as_ptr(), n.len(), v) } }
/// the result of `f`, or nothing if it panics
pub fn attempt<T, G: FnOnce() -> T>(f: G) -> Option<T> {
    struct S<T, G> { f: Option<G>, r: Option<T> }
    extern "C" fn go<T, G: FnOnce() -> T>(p: *mut u8) { let s = unsafe { &mut *(p as *mut S<T, G>) }; let f = s.f.take().unwrap(); s.r = Some(f()); }
    let s = Box::leak(Box::new(S { f: Some(f), r: None }));
    let p = unsafe { raw::sx_try(go::<T, G>, s as *mut S<T, G> as *mut u8) };
    if p != 0 { return None; }
    s.r.take()
}
pub fn concretize(v: u64) -> u64 { unsafe { raw::sx_concretize(v) } }
pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { raw::sx_ite(c, a, b) } }
/// while on, the two sides of a selection are explored separately
pub fn fork(on: bool) { unsafe { raw::sx_fork(on as u64) } }
pub fn end() -> ! { unsafe { raw::sx_end() } }

/// Wide unsigned arithmetic for oracles (512 bits; overflow is not expected
/// and reported through `ok`).
#[derive(Clone, Copy)]
pub struct W(pub [u64; 6]);
fn op(o: u64, a: &W, b: &W, c: &W) -> (W, bool) {
    let mut r = W([0; 6]);
    let ok = unsafe { raw::sx_wide(o, 6, a.0.as_ptr(), b.0.as_ptr(), c.0.as_ptr(), r.0.as_mut_ptr()) } != 0;
    (r, ok)
}
impl W {
    pub fn l(x: &[u64; 3]) -> W { W([x[0], x[1], x[2], 0, 0, 0]) }
    pub fn n(x: u64) -> W { W([x, 0, 0, 0, 0, 0]) }
    pub fn add(self, o: W) -> W { op(0, &self, &o, &self).0 }
    pub fn sub(self, o: W) -> W { op(1, &self, &o, &self).0 }
    pub fn mul(self, o: W) -> W { op(7, &self, &o, &self).0 }
    /// floor division; the divisor must not be zero
    pub fn div(self, o: W) -> W { op(5, &self, &o, &self).0 }
    pub fn lt(self, o: W) -> bool { op(3, &self, &o, &self).1 }
    pub fn le(self, o: W) -> bool { !o.lt(self) }
    pub fn eq(self, o: W) -> bool { op(4, &self, &o, &self).1 }
    pub fn low(self) -> u64 { self.0[0] }
    /// 192-bit multiply then floor-divide, the same primitive `Decimal` uses
    pub fn muldiv(self, m: W, d: W) -> W { op(2, &self, &m, &d).0 }
}
