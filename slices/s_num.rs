//! C19: integer division and modulo through RealKind, over a stand-in BigInt (128-bit).
#![allow(dead_code, unused_imports, non_snake_case)]
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins for the num crates -----------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigInt(pub i128);
impl BigInt {
    pub fn zero() -> BigInt {
        BigInt(0)
    }
}
impl From<i64> for BigInt {
    fn from(i: i64) -> BigInt {
        BigInt(i as i128)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident $op:tt),*) => { $(
        impl std::ops::$t<&BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0 $op o.0) } }
        impl std::ops::$t<&BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0 $op o.0) } }
        impl std::ops::$t<BigInt> for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt(self.0 $op o.0) } }
        impl std::ops::$t<BigInt> for &BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt(self.0 $op o.0) } }
        impl std::ops::$t<i32> for &BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { BigInt(self.0 $op o as i128) } }
        impl std::ops::$t<i32> for BigInt { type Output = BigInt; fn $f(self, o: i32) -> BigInt { BigInt(self.0 $op o as i128) } }
    )* };
}
ops!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
pub trait Integer: Sized {
    fn div_rem(&self, o: &Self) -> (Self, Self);
    fn div_mod_floor(&self, o: &Self) -> (Self, Self);
    fn div_floor(&self, o: &Self) -> Self {
        self.div_mod_floor(o).0
    }
    fn mod_floor(&self, o: &Self) -> Self {
        self.div_mod_floor(o).1
    }
}
macro_rules! integer {
    ($t:ty, $w:expr, $g:expr) => {
        impl Integer for $t {
            fn div_rem(&self, o: &Self) -> (Self, Self) {
                ($w($g(self) / $g(o)), $w($g(self) % $g(o)))
            }
            fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
                let (q, r) = ($g(self) / $g(o), $g(self) % $g(o));
                if (r > 0 && $g(o) < 0) || (r < 0 && $g(o) > 0) { ($w(q - 1), $w(r + $g(o))) } else { ($w(q), $w(r)) }
            }
        }
    };
}
integer!(i64, |x: i64| x, |x: &i64| *x);
integer!(BigInt, BigInt, |x: &BigInt| x.0);
pub trait ToPrimitive {
    fn to_f64(&self) -> Option<f64>;
}
impl ToPrimitive for BigInt {
    fn to_f64(&self) -> Option<f64> {
        Some(self.0 as f64)
    }
}
impl ToPrimitive for i64 {
    fn to_f64(&self) -> Option<f64> {
        Some(*self as f64)
    }
}
pub trait Zero {
    fn is_zero(&self) -> bool;
}
impl Zero for i64 {
    fn is_zero(&self) -> bool {
        *self == 0
    }
}
impl Zero for BigInt {
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
// ---- sliced from the repository -------------------------------------------------------------------
//@item monoruby/src/value/numeric.rs enum RealKind
//@item monoruby/src/value/numeric.rs trait RubyDivMod
//@item monoruby/src/value/numeric.rs trait RubyDiv
//@item monoruby/src/value/numeric.rs trait RubyMod
//@impl monoruby/src/value/numeric.rs impl RubyDivMod for i64
//@impl monoruby/src/value/numeric.rs impl RubyDivMod for f64
//@impl monoruby/src/value/numeric.rs impl RubyDivMod for BigInt
//@impl monoruby/src/value/numeric.rs impl RubyDivMod for RealKind
//@impl monoruby/src/value/numeric.rs impl RubyDiv for i64
//@impl monoruby/src/value/numeric.rs impl RubyDiv for f64
//@impl monoruby/src/value/numeric.rs impl RubyDiv for BigInt
//@impl monoruby/src/value/numeric.rs impl RubyDiv for RealKind
//@impl monoruby/src/value/numeric.rs impl RubyMod for i64
//@impl monoruby/src/value/numeric.rs impl RubyMod for f64
//@impl monoruby/src/value/numeric.rs impl RubyMod for BigInt
//@impl monoruby/src/value/numeric.rs impl RubyMod for RealKind
//@fns monoruby/src/value/numeric.rs impl RealKind :: check_zero_div

// ---- the contract ---------------------------------------------------------------------------------
fn int(k: RealKind) -> Result<i128, String> {
    match k {
        RealKind::Integer(i) => Ok(i as i128),
        RealKind::BigInt(b) => Ok(b.0),
        RealKind::Float(_) => Err("an integer operation gave a float".to_string()),
    }
}
fn one(x: i128, y: i128, xb: bool, yb: bool) -> Result<(), String> {
    let mk = |v: i128, big: bool| if big || v != v as i64 as i128 { RealKind::BigInt(BigInt(v)) } else { RealKind::Integer(v as i64) };
    if mk(y, yb).check_zero_div() != (y == 0) {
        return Err(format!("the zero test of {y} is wrong"));
    }
    if y == 0 || (x == i64::MIN as i128 && y == -1 && !xb && !yb) {
        return Ok(());
    }
    let (q, m) = (x.div_euclid(y), x.rem_euclid(y));
    // from Euclid's pair to the floor pair
    let (q, m) = if y < 0 && m != 0 { (q - 1, m + y) } else { (q, m) };
    let (a, b) = (mk(x, xb), mk(y, yb));
    let d = int(a.ruby_div(&b))?;
    let r = int(a.ruby_mod(&b))?;
    let (d2, r2) = a.ruby_div_mod(&b);
    let (d2, r2) = (int(d2)?, int(r2)?);
    if d != q || r != m || d2 != q || r2 != m {
        return Err(format!("{x} divided by {y} (big: {xb}, {yb}): expected {q} rest {m}, got {d} rest {r}, pair {d2} rest {r2}"));
    }
    Ok(())
}
fn edge(g: &mut Gen) -> i128 {
    const K: &[i128] = &[0, 1, 2, 3, 5, 7, 10, 64, 1 << 31, 1 << 32, 1 << 61, 1 << 62, (1 << 63) - 1];
    let b = g.pick(K);
    let s = g.choose(3) as i128 - 1;
    let v = b + s;
    let v = if g.flag() { -v } else { v };
    v.clamp(i64::MIN as i128, i64::MAX as i128)
}
fn edges(g: &mut Gen) -> Result<(), String> {
    let (x, y, f) = (edge(g), edge(g), g.choose(4));
    g.log(|| format!("{x} by {y}, form {f}"));
    one(x, y, f & 1 == 1, f & 2 == 2)
}
fn wide(g: &mut Gen) -> i128 {
    let w = g.choose(4);
    let r = ((g.choose(1 << 30) as i128) << 30 | g.choose(1 << 30) as i128) << 6 | g.choose(64) as i128;
    let r = r >> g.choose(66);
    let r = if w == 3 { r << 20 } else { r.min(i64::MAX as i128) };
    if g.flag() { -r } else { r }
}
fn any(g: &mut Gen) -> Result<(), String> {
    let n = if g.small { 1 } else { 4 };
    for _ in 0..n {
        let (x, y, f) = if g.small { (g.choose(23) as i128 - 11, g.choose(23) as i128 - 11, g.choose(4)) } else { (wide(g), wide(g), g.choose(4)) };
        g.log(|| format!("{x} by {y}, form {f}"));
        one(x, y, f & 1 == 1, f & 2 == 2)?;
    }
    Ok(())
}
fn main() {
    drv::main_with(&[
        Plan { name: "C19_edges", f: edges, exhaustive: Some((1, 60000)), random: &[] },
        Plan { name: "C19_any", f: any, exhaustive: Some((1, 60000)), random: &[(1, 200000)] },
    ]);
}
