@verbatim
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::power::*;
/// truncated division, as num-bigint's `/` and `%`
pub open spec fn tdiv(a: int, b: int) -> int { if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) } }
pub open spec fn tmod(a: int, b: int) -> int { if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) } }
pub open spec fn divides(k: int, a: int) -> bool { k != 0 && a % k == 0 }
// num_bigint::BigInt: the integer it stands for, and its operations (assumed)
#[verifier::external_body]
pub struct BigInt { p: usize }
pub trait Int {
    spec fn z(&self) -> int;
}
impl Int for BigInt { open spec fn z(&self) -> int { self.v() } }
impl<T: Int> Int for &T { open spec fn z(&self) -> int { (**self).z() } }
impl Int for i32 { open spec fn z(&self) -> int { *self as int } }
impl Int for u32 { open spec fn z(&self) -> int { *self as int } }
impl Int for i64 { open spec fn z(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn bi_add<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) ensures r.v() == a.z() + b.z() { unimplemented!() }
#[verifier::external_body]
pub fn bi_sub<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) ensures r.v() == a.z() - b.z() { unimplemented!() }
#[verifier::external_body]
pub fn bi_mul<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) ensures r.v() == a.z() * b.z() { unimplemented!() }
#[verifier::external_body]
pub fn bi_div<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) requires b.z() != 0 ensures r.v() == tdiv(a.z(), b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_rem<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) requires b.z() != 0 ensures r.v() == tmod(a.z(), b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_neg<A: Int>(a: &A) -> (r: BigInt) ensures r.v() == -a.z() { unimplemented!() }
#[verifier::external_body]
pub fn bi_lt<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() < b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_gt<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() > b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_le<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() <= b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_ge<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() >= b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_eq<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() == b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_ne<A: Int, B: Int>(a: &A, b: &B) -> (r: bool) ensures r == (a.z() != b.z()) { unimplemented!() }
/// rounded toward minus infinity
#[verifier::external_body]
pub fn bi_div_floor<A: Int, B: Int>(a: &A, b: &B) -> (r: BigInt) requires b.z() != 0 ensures r.v() == (if b.z() > 0 { a.z() / b.z() } else { (-a.z()) / (-b.z()) }) { unimplemented!() }
#[verifier::external_body]
pub fn bi_div_rem<A: Int, B: Int>(a: &A, b: &B) -> (r: (BigInt, BigInt)) requires b.z() != 0 ensures r.0.v() == tdiv(a.z(), b.z()), r.1.v() == tmod(a.z(), b.z()) { unimplemented!() }
#[verifier::external_body]
pub fn bi_from<A: Int>(a: A) -> (r: BigInt) ensures r.v() == a.z() { unimplemented!() }
impl BigInt {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: BigInt) ensures r.v() == self.v(), r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self.v() == 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_negative(&self) -> (r: bool) ensures r == (self.v() < 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_positive(&self) -> (r: bool) ensures r == (self.v() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self) -> (r: BigInt) ensures r.v() == (if self.v() < 0 { -self.v() } else { self.v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn pow(&self, n: u32) -> (r: BigInt) ensures r.v() == pow(self.v(), n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp(&self, o: &BigInt) -> (r: std::cmp::Ordering)
        ensures r is Less <==> self.v() < o.v(), r is Equal <==> self.v() == o.v(), r is Greater <==> self.v() > o.v() { unimplemented!() }
    /// the greatest common divisor
    #[verifier::external_body]
    pub fn gcd(&self, o: &BigInt) -> (r: BigInt)
        ensures r.v() >= 0, (self.v() != 0 || o.v() != 0) ==> r.v() > 0 && divides(r.v(), self.v()) && divides(r.v(), o.v()),
            forall|k: int| k > 0 && divides(k, self.v()) && divides(k, o.v()) ==> #[trigger] divides(k, r.v())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn big_zero() -> (r: BigInt) ensures r.v() == 0 { unimplemented!() }
pub fn vmax_i(a: i64, b: i64) -> (r: i64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
@end
