//! A user-defined coordinate type: an f64 that counts the arithmetic operations and comparisons made with it.
use crate::adapt::Co;
use magog::Coordinate;
use num_traits::{Bounded, Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
}
#[inline]
fn tick() {
    OPS.with(|o| o.set(o.get() + 1))
}
/// How many operations on coordinates `f` makes.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    OPS.with(|o| o.set(0));
    let r = f();
    (r, OPS.with(|o| o.get()))
}

#[derive(Clone, Copy, Debug)]
pub struct Cnt(pub f64);

impl PartialEq for Cnt {
    #[inline]
    fn eq(&self, o: &Cnt) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Cnt {
    #[inline]
    fn partial_cmp(&self, o: &Cnt) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
macro_rules! bin {
    ($($t:ident $f:ident),*) => { $(impl $t for Cnt {
        type Output = Cnt;
        #[inline]
        fn $f(self, o: Cnt) -> Cnt { tick(); Cnt($t::$f(self.0, o.0)) }
    })* };
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem);
impl Neg for Cnt {
    type Output = Cnt;
    fn neg(self) -> Cnt {
        tick();
        Cnt(-self.0)
    }
}
impl Zero for Cnt {
    fn zero() -> Cnt {
        Cnt(0.)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0.
    }
}
impl One for Cnt {
    fn one() -> Cnt {
        Cnt(1.)
    }
}
impl Num for Cnt {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Cnt, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Cnt)
    }
}
impl Bounded for Cnt {
    fn min_value() -> Cnt {
        Cnt(f64::MIN)
    }
    fn max_value() -> Cnt {
        Cnt(f64::MAX)
    }
}
impl Sum for Cnt {
    fn sum<I: Iterator<Item = Cnt>>(it: I) -> Cnt {
        it.fold(Cnt(0.), |a, b| a + b)
    }
}
impl ToPrimitive for Cnt {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        self.0.to_f32()
    }
}
impl NumCast for Cnt {
    fn from<T: ToPrimitive>(n: T) -> Option<Cnt> {
        n.to_f64().map(Cnt)
    }
}
impl Signed for Cnt {
    fn abs(&self) -> Cnt {
        tick();
        Cnt(self.0.abs())
    }
    fn abs_sub(&self, o: &Cnt) -> Cnt {
        tick();
        Cnt(if self.0 <= o.0 { 0. } else { self.0 - o.0 })
    }
    fn signum(&self) -> Cnt {
        tick();
        Cnt(Signed::signum(&self.0))
    }
    fn is_positive(&self) -> bool {
        tick();
        Signed::is_positive(&self.0)
    }
    fn is_negative(&self) -> bool {
        tick();
        Signed::is_negative(&self.0)
    }
}
macro_rules! consts { ($($f:ident),*) => { $(fn $f() -> Cnt { Cnt(<f64 as Float>::$f()) })* }; }
macro_rules! asks { ($($f:ident),*) => { $(fn $f(self) -> bool { tick(); self.0.$f() })* }; }
macro_rules! unary { ($($f:ident),*) => { $(fn $f(self) -> Cnt { tick(); Cnt(Float::$f(self.0)) })* }; }
macro_rules! binary { ($($f:ident),*) => { $(fn $f(self, o: Cnt) -> Cnt { tick(); Cnt(Float::$f(self.0, o.0)) })* }; }
impl Float for Cnt {
    consts!(nan, infinity, neg_infinity, neg_zero, min_value, min_positive_value, max_value, epsilon);
    asks!(is_nan, is_infinite, is_finite, is_normal, is_sign_positive, is_sign_negative);
    unary!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    binary!(powf, log, max, min, hypot, atan2);
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    fn mul_add(self, a: Cnt, b: Cnt) -> Cnt {
        tick();
        Cnt(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Cnt {
        tick();
        Cnt(self.0.powi(n))
    }
    fn abs_sub(self, o: Cnt) -> Cnt {
        Signed::abs_sub(&self, &o)
    }
    fn sin_cos(self) -> (Cnt, Cnt) {
        tick();
        let (s, c) = self.0.sin_cos();
        (Cnt(s), Cnt(c))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
impl Co for Cnt {
    const NAME: &'static str = "user type";
    const EPS: f64 = f64::EPSILON;
    const SINGLE: bool = false;
    fn of(v: f64) -> Cnt {
        Cnt(v)
    }
    fn f(self) -> f64 {
        self.0
    }
}
fn _is_coordinate<C: Coordinate>() {}
const _: fn() = _is_coordinate::<Cnt>;
