//! Stand-in for the `decimal` crate (aldrin-exchange/solana-decimal 0.4.0),
//! whose sources are not available offline.  192-bit fixed-point numbers with
//! 18 decimal places.  Every operation is exact on a wide intermediate and
//! rounds down; results which do not fit 192 bits are errors.  The arithmetic
//! itself is done by `sx_wide`, which the symbolic executor encodes directly
//! and the native replay runtime implements with big integers.
use anchor_lang::prelude::*;
use std::cmp::Ordering;

pub const SCALE: u32 = 18;
pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = WAD / 2;

#[error_code]
pub enum ErrorCode {
    #[msg("Math operation overflow")]
    MathOverflow,
}

mod native;
use native::sx_wide;
#[cfg(any())]
extern "C" {
    fn sx_wide(op: u64, limbs: u64, a: *const u64, b: *const u64, c: *const u64, o: *mut u64) -> u64;
}
const ADD: u64 = 0;
const SUB: u64 = 1;
const MULDIV: u64 = 2;
const LT: u64 = 3;
const EQ: u64 = 4;
const MULDIVCEIL: u64 = 6;
const SQRTMUL: u64 = 8;

#[derive(Clone, Copy, Default)]
pub struct U192(pub [u64; 3]);

fn op(o: u64, a: &U192, b: &U192, c: &U192) -> Result<U192> {
    let mut r = U192([0; 3]);
    if unsafe { sx_wide(o, 3, a.0.as_ptr(), b.0.as_ptr(), c.0.as_ptr(), r.0.as_mut_ptr()) } == 0 {
        return Err(error!(ErrorCode::MathOverflow));
    }
    Ok(r)
}
fn rel(o: u64, a: &U192, b: &U192) -> bool {
    let mut r = [0u64; 3];
    unsafe { sx_wide(o, 3, a.0.as_ptr(), b.0.as_ptr(), a.0.as_ptr(), r.as_mut_ptr()) != 0 }
}

impl PartialEq for U192 { fn eq(&self, o: &Self) -> bool { rel(EQ, self, o) } }
impl Eq for U192 {}
impl PartialOrd for U192 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Self) -> bool { rel(LT, self, o) }
    fn gt(&self, o: &Self) -> bool { rel(LT, o, self) }
    fn le(&self, o: &Self) -> bool { !rel(LT, o, self) }
    fn ge(&self, o: &Self) -> bool { !rel(LT, self, o) }
}
impl Ord for U192 {
    fn cmp(&self, o: &Self) -> Ordering {
        if rel(LT, self, o) { Ordering::Less } else if rel(EQ, self, o) { Ordering::Equal } else { Ordering::Greater }
    }
}
impl std::fmt::Debug for U192 { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl From<u64> for U192 { fn from(x: u64) -> Self { U192([x, 0, 0]) } }
impl From<u128> for U192 { fn from(x: u128) -> Self { U192([x as u64, (x >> 64) as u64, 0]) } }

#[derive(Clone, Copy, Default, Debug)]
pub struct Decimal(pub U192);
impl PartialEq for Decimal { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Eq for Decimal {}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.0.cmp(&o.0)) }
    fn lt(&self, o: &Self) -> bool { self.0 < o.0 }
    fn gt(&self, o: &Self) -> bool { self.0 > o.0 }
    fn le(&self, o: &Self) -> bool { self.0 <= o.0 }
    fn ge(&self, o: &Self) -> bool { self.0 >= o.0 }
}
impl Ord for Decimal { fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) } }
impl std::fmt::Display for Decimal { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }

const ONE: U192 = U192([1, 0, 0]);
const W: U192 = U192([WAD, 0, 0]);

impl Decimal {
    pub fn one() -> Self { Decimal(W) }
    pub fn zero() -> Self { Decimal(U192([0; 3])) }
    pub fn from_percent(p: u64) -> Self { Decimal(U192::from(p as u128 * (WAD / 100) as u128)) }
    pub fn from_permillion(p: u64) -> Self { Decimal(U192::from(p as u128 * (WAD / 1_000_000) as u128)) }
    pub fn from_scaled_val(v: u128) -> Self { Decimal(U192::from(v)) }
    pub fn to_scaled_val(&self) -> Result<u128> {
        if self.0 .0[2] != 0 { return Err(error!(ErrorCode::MathOverflow)); }
        Ok(self.0 .0[0] as u128 | (self.0 .0[1] as u128) << 64)
    }
    pub fn is_zero(&self) -> bool { *self == Self::zero() }
}
impl From<u64> for Decimal {
    fn from(v: u64) -> Self { Decimal(op(MULDIV, &v.into(), &W, &ONE).unwrap()) }
}
impl From<u128> for Decimal {
    fn from(v: u128) -> Self { Decimal(op(MULDIV, &v.into(), &W, &ONE).unwrap()) }
}

pub trait TryAdd: Sized { fn try_add(self, r: Self) -> Result<Self>; }
pub trait TrySub: Sized { fn try_sub(self, r: Self) -> Result<Self>; }
pub trait TryMul<R>: Sized { fn try_mul(self, r: R) -> Result<Self>; }
pub trait TryDiv<R>: Sized { fn try_div(self, r: R) -> Result<Self>; }
pub trait TryPow<R>: Sized { fn try_pow(self, r: R) -> Result<Self>; }
pub trait TrySqrt: Sized { fn try_sqrt(self) -> Result<Self>; }
pub trait TryRound<T> {
    fn try_floor(&self) -> Result<T>;
    fn try_ceil(&self) -> Result<T>;
    fn try_round(&self) -> Result<T>;
}
pub trait AlmostEq { fn almost_eq(&self, o: &Self, precision: u128) -> bool; }
pub trait ScaledVal { fn to_scaled(&self) -> Result<u128>; }
pub trait LargeDecimal {}

impl TryAdd for Decimal { fn try_add(self, r: Self) -> Result<Self> { Ok(Decimal(op(ADD, &self.0, &r.0, &ONE)?)) } }
impl TrySub for Decimal { fn try_sub(self, r: Self) -> Result<Self> { Ok(Decimal(op(SUB, &self.0, &r.0, &ONE)?)) } }
impl TryMul<Decimal> for Decimal { fn try_mul(self, r: Self) -> Result<Self> { Ok(Decimal(op(MULDIV, &self.0, &r.0, &W)?)) } }
impl TryMul<u64> for Decimal { fn try_mul(self, r: u64) -> Result<Self> { Ok(Decimal(op(MULDIV, &self.0, &r.into(), &ONE)?)) } }
impl TryDiv<Decimal> for Decimal {
    fn try_div(self, r: Self) -> Result<Self> {
        if r.0 == U192([0; 3]) { return Err(error!(ErrorCode::MathOverflow)); }
        Ok(Decimal(op(MULDIV, &self.0, &W, &r.0)?))
    }
}
impl TryDiv<u64> for Decimal {
    fn try_div(self, r: u64) -> Result<Self> {
        if r == 0 { return Err(error!(ErrorCode::MathOverflow)); }
        Ok(Decimal(op(MULDIV, &self.0, &ONE, &r.into())?))
    }
}
impl TryPow<u64> for Decimal {
    fn try_pow(self, mut e: u64) -> Result<Self> {
        let mut base = self;
        let mut ret = if e % 2 != 0 { base } else { Self::one() };
        loop {
            e /= 2;
            if e == 0 { return Ok(ret); }
            base = base.try_mul(base)?;
            if e % 2 != 0 { ret = ret.try_mul(base)?; }
        }
    }
}
impl TrySqrt for Decimal {
    // floor(sqrt(value * 10^18)) in scaled representation
    fn try_sqrt(self) -> Result<Self> { Ok(Decimal(op(SQRTMUL, &self.0, &W, &ONE)?)) }
}
fn small(v: U192) -> Result<u64> {
    if v > U192([u64::MAX, 0, 0]) { return Err(error!(ErrorCode::MathOverflow)); }
    Ok(v.0[0])
}
impl TryRound<u64> for Decimal {
    fn try_floor(&self) -> Result<u64> { small(op(MULDIV, &self.0, &ONE, &W)?) }
    fn try_ceil(&self) -> Result<u64> { small(op(MULDIVCEIL, &self.0, &ONE, &W)?) }
    fn try_round(&self) -> Result<u64> { small(op(MULDIV, &op(ADD, &self.0, &U192([HALF_WAD, 0, 0]), &ONE)?, &ONE, &W)?) }
}
impl AlmostEq for Decimal {
    fn almost_eq(&self, o: &Self, precision: u128) -> bool {
        let d = if self > o { self.try_sub(*o) } else { o.try_sub(*self) };
        d.map(|d| d <= Decimal::from_scaled_val(precision)).unwrap_or(false)
    }
}
