//! C29: monoruby/src/value/rvalue/rational.rs over a stand-in BigInt (128-bit).
#![allow(dead_code, unused_imports, non_snake_case)]
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins for the num crates -----------------------------------------------------------------
pub mod num {
    pub use self::bigint::BigInt;
    pub use self::traits::{FromPrimitive, One, Signed, ToPrimitive, Zero};
    pub mod bigint {
        #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub struct BigInt(pub i128);
        impl BigInt {
            pub const ZERO: BigInt = BigInt(0);
            pub fn pow(&self, n: u32) -> BigInt {
                BigInt(self.0.checked_pow(n).expect("stand-in overflow"))
            }
            pub fn bits(&self) -> u64 {
                128 - self.0.unsigned_abs().leading_zeros() as u64
            }
        }
        impl std::fmt::Display for BigInt {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        macro_rules! from { ($($t:ty)*) => { $( impl From<$t> for BigInt { fn from(i: $t) -> BigInt { BigInt(i as i128) } } )* }; }
        from!(i32 u32 i64 u64);
        impl TryFrom<&BigInt> for i64 {
            type Error = ();
            fn try_from(b: &BigInt) -> Result<i64, ()> {
                i64::try_from(b.0).map_err(|_| ())
            }
        }
        macro_rules! ops {
            ($($t:ident $f:ident $c:ident $ta:ident $fa:ident),*) => { $(
                impl std::ops::$t<&BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0.$c(o.0).expect("stand-in overflow")) } }
                impl std::ops::$t<&BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { (&self).$f(o) } }
                impl std::ops::$t<BigInt> for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { (&self).$f(&o) } }
                impl std::ops::$t<BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { self.$f(&o) } }
                impl std::ops::$t<i32> for BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { (&self).$f(&BigInt::from(o)) } }
                impl std::ops::$t<i32> for &BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { self.$f(&BigInt::from(o)) } }
                impl std::ops::$t<u32> for BigInt { type Output = BigInt; fn $f(self, o: u32) -> BigInt { (&self).$f(&BigInt::from(o)) } }
                impl std::ops::$t<u32> for &BigInt { type Output = BigInt; fn $f(self, o: u32) -> BigInt { self.$f(&BigInt::from(o)) } }
                impl std::ops::$ta<u32> for BigInt { fn $fa(&mut self, o: u32) { *self = (&*self).$f(&BigInt::from(o)) } }
                impl std::ops::$ta<&BigInt> for BigInt { fn $fa(&mut self, o: &BigInt) { *self = (&*self).$f(o) } }
                impl std::ops::$ta<BigInt> for BigInt { fn $fa(&mut self, o: BigInt) { *self = (&*self).$f(&o) } }
            )* };
        }
        use std::ops::{Add, Div, Mul, Neg, Rem, Shl, Shr, Sub};
        ops!(Add add checked_add AddAssign add_assign, Sub sub checked_sub SubAssign sub_assign, Mul mul checked_mul MulAssign mul_assign, Div div checked_div DivAssign div_assign, Rem rem checked_rem RemAssign rem_assign);
        impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(-self.0) } }
        impl Neg for &BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(-self.0) } }
        impl Shl<u32> for BigInt { type Output = BigInt; fn shl(self, n: u32) -> BigInt { assert!(self.bits() + (n as u64) < 126, "stand-in overflow"); BigInt(self.0 << n) } }
        impl Shr<usize> for BigInt { type Output = BigInt; fn shr(self, n: usize) -> BigInt { BigInt(self.0 >> n) } }
    }
    pub mod traits {
        use super::bigint::BigInt;
        pub trait Zero { fn is_zero(&self) -> bool; fn zero() -> Self; }
        impl Zero for BigInt { fn is_zero(&self) -> bool { self.0 == 0 } fn zero() -> Self { BigInt(0) } }
        pub trait One { fn is_one(&self) -> bool; fn one() -> Self; }
        impl One for BigInt { fn is_one(&self) -> bool { self.0 == 1 } fn one() -> Self { BigInt(1) } }
        pub trait Signed { fn abs(&self) -> Self; fn is_negative(&self) -> bool; fn is_positive(&self) -> bool; }
        impl Signed for BigInt { fn abs(&self) -> Self { BigInt(self.0.abs()) } fn is_negative(&self) -> bool { self.0 < 0 } fn is_positive(&self) -> bool { self.0 > 0 } }
        pub trait ToPrimitive { fn to_f64(&self) -> Option<f64>; fn to_i64(&self) -> Option<i64>; }
        impl ToPrimitive for BigInt { fn to_f64(&self) -> Option<f64> { Some(self.0 as f64) } fn to_i64(&self) -> Option<i64> { i64::try_from(self.0).ok() } }
        pub trait FromPrimitive: Sized { fn from_f64(f: f64) -> Option<Self>; }
        impl FromPrimitive for BigInt { fn from_f64(f: f64) -> Option<Self> { if f.is_finite() && f.abs() < 1e37 { Some(BigInt(f as i128)) } else { None } } }
    }
    pub mod integer {
        use super::bigint::BigInt;
        pub trait Integer: Sized {
            fn div_rem(&self, o: &Self) -> (Self, Self);
            fn div_floor(&self, o: &Self) -> Self;
            fn mod_floor(&self, o: &Self) -> Self;
            fn div_mod_floor(&self, o: &Self) -> (Self, Self) { (self.div_floor(o), self.mod_floor(o)) }
            fn div_ceil(&self, o: &Self) -> Self;
            fn gcd(&self, o: &Self) -> Self;
            fn is_even(&self) -> bool;
            fn is_odd(&self) -> bool { !self.is_even() }
        }
        impl Integer for BigInt {
            fn div_rem(&self, o: &Self) -> (Self, Self) { (self / o, self % o) }
            fn div_floor(&self, o: &Self) -> Self {
                let (q, r) = (self.0 / o.0, self.0 % o.0);
                BigInt(if r != 0 && (r < 0) != (o.0 < 0) { q - 1 } else { q })
            }
            fn mod_floor(&self, o: &Self) -> Self { self - &(&self.div_floor(o) * o) }
            fn div_ceil(&self, o: &Self) -> Self { BigInt(-(BigInt(-self.0).div_floor(o)).0) }
            fn gcd(&self, o: &Self) -> Self {
                let (mut a, mut b) = (self.0.abs(), o.0.abs());
                while b != 0 { (a, b) = (b, a % b); }
                BigInt(a)
            }
            fn is_even(&self) -> bool { self.0 % 2 == 0 }
        }
    }
}
pub mod value {
    //@item monoruby/src/value.rs enum RoundHalf
}
#[derive(Debug)]
pub struct MonorubyErr;
impl MonorubyErr {
    pub fn divide_by_zero() -> Self {
        MonorubyErr
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub struct Value(BigIntV);
type BigIntV = num::BigInt;
impl Value {
    pub fn integer(i: i64) -> Value {
        Value(num::BigInt::from(i))
    }
    pub fn bigint(b: num::BigInt) -> Value {
        Value(b)
    }
}
pub mod rat {
    use super::*;
    pub use super::num::bigint::BigInt;
    pub use super::num::traits::{One, Zero};
    pub use super::num::{FromPrimitive, Signed, ToPrimitive};
    pub struct RValue;
    pub struct Allocator<T>(T);
    pub trait GC<T> { fn mark(&self, alloc: &mut Allocator<T>); }
    // ---- sliced from the repository -------------------------------------------------------------------
    //@file monoruby/src/value/rvalue/rational.rs nouse
}
use num::BigInt;
use rat::{RationalFloorResult, RationalInner};
use std::result::Result as R;

// ---- contract: a fraction is a pair of integers; a/b against c/d by cross multiplication --------------------------
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}
/// lowest terms, and the value n/d
fn is(what: &str, r: &RationalInner, n: i128, d: i128) -> R<(), String> {
    let (a, b) = (r.num().0, r.den().0);
    if b <= 0 || gcd(a, b) != 1 {
        return Err(format!("{what}: {a}/{b} is not in lowest terms with a positive denominator"));
    }
    if a * d != n * b {
        return Err(format!("{what}: {a}/{b}, expected {n}/{d}"));
    }
    Ok(())
}
fn floor(n: i128, d: i128) -> i128 {
    n.div_euclid(d) - if d < 0 && n.rem_euclid(d) != 0 { 1 } else { 0 }
}
fn arith(g: &mut Gen) -> R<(), String> {
    let big = g.choose(4) == 0;
    let int = |g: &mut Gen| -> i64 { if big { g.choose(2_000_000_000) as i64 - 1_000_000_000 } else { g.choose(25) as i64 - 12 } };
    let (a, b, c, d) = (int(g), int(g), int(g), int(g));
    if b == 0 || d == 0 {
        return Ok(());
    }
    g.log(|| format!("{a}/{b} and {c}/{d}"));
    let (x, y) = (RationalInner::new(a, b), RationalInner::new(c, d));
    let (a, b, c, d) = (a as i128, b as i128, c as i128, d as i128);
    is("new", &x, a, b)?;
    is("new", &y, c, d)?;
    is("sum", &x.add(&y), a * d + c * b, b * d)?;
    is("difference", &x.sub(&y), a * d - c * b, b * d)?;
    is("product", &x.mul(&y), a * c, b * d)?;
    is("negation", &x.neg(), -a, b)?;
    is("magnitude", &x.abs(), a.abs(), b.abs())?;
    match x.div(&y) {
        Ok(q) if c != 0 => is("quotient", &q, a * d, b * c)?,
        Err(_) if c == 0 => {}
        r => return Err(format!("quotient: {} by {c}/{d}", r.is_ok())),
    }
    let s = if (b < 0) != (d < 0) { -1 } else { 1 };
    let want = (s * a * d).cmp(&(s * c * b));
    if x.cmp(&y) != want || x.eq(&y) != (want == std::cmp::Ordering::Equal) || (x == y) != (want == std::cmp::Ordering::Equal) {
        return Err(format!("comparison: {:?} {} expected {want:?}", x.cmp(&y), x.eq(&y)));
    }
    if x.to_i().0 != a / b || x.is_zero() != (a == 0) || x.is_negative() != (a != 0 && (a < 0) != (b < 0)) {
        return Err("truncation or sign".into());
    }
    if x.num_as_value().0 != *x.num() || x.den_as_value().0 != *x.den() {
        return Err("numerator or denominator as a value".into());
    }
    Ok(())
}
fn rounding(g: &mut Gen) -> R<(), String> {
    let (n, d): (i64, i64) = match g.choose(4) {
        0 => (g.choose(2_000_000) as i64 - 1_000_000, 1 + g.choose(1000) as i64),
        1 => (g.choose(401) as i64 - 200, g.pick(&[1i64, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 125, 200, 1000, 3, 7, 30])),
        2 => (5 * (g.choose(2001) as i64 - 1000), g.pick(&[1i64, 10, 100, 1000])),
        _ => (g.choose(41) as i64 - 20, 1 + g.choose(12) as i64),
    };
    let nd = g.choose(11) as i64 - 5;
    let half = g.choose(4);
    g.log(|| format!("{n}/{d} digits {nd} half {half}"));
    check(n, d, nd, half)
}
fn small(g: &mut Gen) -> R<(), String> {
    let (n, d, nd, half) = (g.choose(81) as i64 - 40, 1 + g.choose(20) as i64, g.choose(5) as i64 - 2, g.choose(4));
    g.log(|| format!("{n}/{d} digits {nd} half {half}"));
    check(n, d, nd, half)
}
fn check(n: i64, d: i64, nd: i64, half: u32) -> R<(), String> {
    let x = RationalInner::new(n, d);
    let (n, d) = (n as i128, d as i128);
    // x * 10^nd = p / q
    let ten = 10i128.pow(nd.unsigned_abs() as u32);
    let (p, q) = if nd >= 0 { (n * ten, d) } else { (n, d * ten) };
    let show = |k: &str| format!("{k} of {n}/{d} to {nd} digits (half mode {half})");
    // the result k stands for k / 10^nd
    let same = |k: &str, r: RationalFloorResult, want: i128| -> R<(), String> {
        match r {
            RationalFloorResult::Integer(i) if nd <= 0 => {
                if i.0 != want * ten { Err(format!("{} = {}, expected {}", show(k), i.0, want * ten)) } else { Ok(()) }
            }
            RationalFloorResult::Rational(r) if nd > 0 => is(&show(k), &r, want, ten),
            _ => Err(format!("{}: integer or rational mixed up", show(k))),
        }
    };
    let fl = floor(p, q);
    same("floor", x.rational_floor(nd), fl)?;
    same("ceil", x.rational_ceil(nd), -floor(-p, q))?;
    same("truncation", x.rational_truncate(nd), p / q)?;
    // nearest; twice the distance from the floor against one
    let twice = 2 * (p - fl * q);
    let away = |k: i128| if p >= 0 { k + 1 } else { k };
    let near = if twice < q {
        fl
    } else if twice > q {
        fl + 1
    } else {
        match half {
            2 => if p >= 0 { fl } else { fl + 1 },
            3 => if fl % 2 == 0 { fl } else { fl + 1 },
            _ => away(fl),
        }
    };
    let h = [None, Some(value::RoundHalf::Up), Some(value::RoundHalf::Down), Some(value::RoundHalf::Even)][half as usize];
    same("rounding", x.rational_round(nd, h), near)
}
fn floats(g: &mut Gen) -> R<(), String> {
    // floats with a short binary fraction convert exactly
    let (m, e) = (g.choose(1 << 30) as i64 - (1 << 29), g.choose(60));
    g.log(|| format!("{m} * 2^-{e}"));
    let f = m as f64 / (1u64 << e) as f64;
    is("from_f64", &RationalInner::from_f64(f), m as i128, 1 << e)?;
    let (n, d) = (g.choose(2000) as i64 - 1000, 1 + g.choose(300) as i64);
    if RationalInner::new(n, d).to_f() != n as f64 / d as f64 {
        return Err(format!("{n}/{d} as a float"));
    }
    Ok(())
}
fn main() {
    drv::main_with(&[
        Plan { name: "C29_arith", f: arith, exhaustive: Some((1, 100000)), random: &[(1, 300000)] },
        Plan { name: "C29_small", f: small, exhaustive: Some((1, 50000)), random: &[] },
        Plan { name: "C29_round", f: rounding, exhaustive: None, random: &[(1, 400000)] },
        Plan { name: "C29_float", f: floats, exhaustive: None, random: &[(1, 30000)] },
    ]);
}
