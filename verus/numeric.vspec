// Floor division: monoruby/src/value/numeric.rs
@verbatim
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
/// floor quotient and remainder: the mathematical definition (q is the floor of a/b, the rest has the sign of b)
pub open spec fn floor_pair(a: int, b: int, q: int, m: int) -> bool {
    a == q * b + m && (if b > 0 { 0 <= m < b } else { b < m <= 0 })
}
/// truncated quotient and remainder (what the machine and num::Integer::div_rem give)
pub open spec fn trunc_pair(a: int, b: int, q: int, m: int) -> bool {
    a == q * b + m && (a == 0 ==> q == 0 && m == 0) && (if a >= 0 { 0 <= m && (m < b || m < -b) } else { m <= 0 && (-m < b || -m < -b) })
}
proof fn from_trunc(a: int, b: int, s: int, t: int, q: int, m: int)
    requires b != 0, trunc_pair(s, b, q, m),
        (a > 0 && b < 0) ==> s == a - 1, (a < 0 && b > 0) ==> s == a + 1, !((a > 0 && b < 0) || (a < 0 && b > 0)) ==> s == a,
        t == q - (if (a > 0 && b < 0) || (a < 0 && b > 0) { 1int } else { 0 }),
    ensures (a > 0 && b < 0) ==> floor_pair(a, b, t, m + b + 1), (a < 0 && b > 0) ==> floor_pair(a, b, t, m + b - 1),
        !((a > 0 && b < 0) || (a < 0 && b > 0)) ==> floor_pair(a, b, t, m),
{
    assert((q - 1) * b == q * b - b) by (nonlinear_arith);
}
/// there is only one floor pair
pub proof fn floor_unique(a: int, b: int, q: int, m: int, q2: int, m2: int)
    requires b != 0, floor_pair(a, b, q, m), floor_pair(a, b, q2, m2)
    ensures q == q2, m == m2
{
    assert((q - q2) * b == m2 - m) by (nonlinear_arith) requires q * b + m == q2 * b + m2;
    if q > q2 { assert((q - q2) * b >= b || (q - q2) * b <= b) by (nonlinear_arith); assert((b > 0 ==> (q - q2) * b >= b) && (b < 0 ==> (q - q2) * b <= b)) by (nonlinear_arith) requires q - q2 >= 1; }
    if q < q2 { assert((b > 0 ==> (q - q2) * b <= -b) && (b < 0 ==> (q - q2) * b >= -b)) by (nonlinear_arith) requires q - q2 <= -1; }
}
/// the quotient fits the machine word unless it is MIN / -1
proof fn quotient_fits(a: int, b: int, q: int, m: int)
    requires b != 0, trunc_pair(a, b, q, m), -0x8000_0000_0000_0000 <= a < 0x8000_0000_0000_0000, -0x8000_0000_0000_0000 <= b < 0x8000_0000_0000_0000, !(a == -0x8000_0000_0000_0000 && b == -1)
    ensures -0x8000_0000_0000_0000 <= q < 0x8000_0000_0000_0000,
        (b != 1 && b != -1) ==> -0x4000_0000_0000_0000 <= q <= 0x4000_0000_0000_0000,
        (a >= 0 && b < 0) ==> q <= 0, (a <= 0 && b > 0) ==> q <= 0, b == 1 ==> q == a, b == -1 ==> q == -a,
{
    if b == 1 || b == -1 {
        assert(m == 0);
        assert(b == 1 ==> q * b == q) by (nonlinear_arith);
        assert(b == -1 ==> q * b == -q) by (nonlinear_arith);
    } else {
        assert(q > 0x4000_0000_0000_0000 ==> (b > 0 ==> q * b >= 2 * q) && (b < 0 ==> q * b <= -2 * q)) by (nonlinear_arith) requires b >= 2 || b <= -2;
        assert(q < -0x4000_0000_0000_0000 ==> (b > 0 ==> q * b <= 2 * q) && (b < 0 ==> q * b >= -2 * q)) by (nonlinear_arith) requires b >= 2 || b <= -2;
    }
    assert((a >= 0 && b < 0) ==> q <= 0) by (nonlinear_arith) requires b != 0, trunc_pair(a, b, q, m);
    assert((a <= 0 && b > 0) ==> q <= 0) by (nonlinear_arith) requires b != 0, trunc_pair(a, b, q, m);
}
pub open spec fn tdiv(a: int, b: int) -> int { if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) } }
pub open spec fn tmod(a: int, b: int) -> int { if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) } }
proof fn machine_pair(a: int, b: int)
    requires b != 0
    ensures trunc_pair(a, b, tdiv(a, b), tmod(a, b))
{
    let x = if a >= 0 { a } else { -a };
    lemma_fundamental_div_mod(x, b);
    if b > 0 { lemma_mod_bound(x, b); }
    assert(0 <= x % b && (x % b < b || x % b < -b));
    assert(b * (x / b) == (x / b) * b) by (nonlinear_arith);
    assert((-(x / b)) * b == -((x / b) * b)) by (nonlinear_arith);
}
/// everything the machine division of s by b gives, s being a shifted by one towards zero when the signs differ
proof fn divide(a: int, b: int)
    requires b != 0, -0x8000_0000_0000_0000 <= a < 0x8000_0000_0000_0000, -0x8000_0000_0000_0000 <= b < 0x8000_0000_0000_0000, !(a == -0x8000_0000_0000_0000 && b == -1)
    ensures ({
        let s = if a > 0 && b < 0 { a - 1 } else if a < 0 && b > 0 { a + 1 } else { a };
        let q = tdiv(s, b); let m = tmod(s, b);
        &&& -0x8000_0000_0000_0000 <= q < 0x8000_0000_0000_0000
        &&& -0x8000_0000_0000_0000 <= m < 0x8000_0000_0000_0000
        &&& (a > 0 && b < 0) ==> q > -0x8000_0000_0000_0000 && b <= m + b <= 0 && floor_pair(a, b, q - 1, m + b + 1)
        &&& (a < 0 && b > 0) ==> q > -0x8000_0000_0000_0000 && 0 <= m + b <= b && floor_pair(a, b, q - 1, m + b - 1)
        &&& !((a > 0 && b < 0) || (a < 0 && b > 0)) ==> floor_pair(a, b, q, m)
    })
{
    let s = if a > 0 && b < 0 { a - 1 } else if a < 0 && b > 0 { a + 1 } else { a };
    machine_pair(s, b);
    quotient_fits(s, b, tdiv(s, b), tmod(s, b));
    from_trunc(a, b, s, tdiv(s, b) - (if (a > 0 && b < 0) || (a < 0 && b > 0) { 1int } else { 0 }), tdiv(s, b), tmod(s, b));
}
/// num::Integer::div_rem on i64, as that crate defines it
pub fn i64_div_rem(a: i64, b: &i64) -> (r: (i64, i64))
    requires *b != 0, !(a == i64::MIN && *b == -1)
    ensures r.0 == tdiv(a as int, *b as int), r.1 == tmod(a as int, *b as int)
{
    proof { machine_pair(a as int, *b as int); quotient_fits(a as int, *b as int, tdiv(a as int, *b as int), tmod(a as int, *b as int)); }
    (a / *b, a % *b)
}
pub struct I64;
// num_bigint::BigInt: the integer it stands for, and the operations used here (assumed)
#[verifier::external_body]
pub struct BigInt { p: usize }
impl BigInt {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body]
    pub fn gt0(&self) -> (r: bool) ensures r == (self.v() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn lt0(&self) -> (r: bool) ensures r == (self.v() < 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn plus(&self, o: &BigInt) -> (r: BigInt) ensures r.v() == self.v() + o.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn plus_i(&self, o: i32) -> (r: BigInt) ensures r.v() == self.v() + o { unimplemented!() }
    #[verifier::external_body]
    pub fn minus_i(&self, o: i32) -> (r: BigInt) ensures r.v() == self.v() - o { unimplemented!() }
    #[verifier::external_body]
    pub fn div_rem(&self, o: &BigInt) -> (r: (BigInt, BigInt)) requires o.v() != 0 ensures r.0.v() == tdiv(self.v(), o.v()), r.1.v() == tmod(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn quot(&self, o: &BigInt) -> (r: BigInt) requires o.v() != 0 ensures r.v() == tdiv(self.v(), o.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn rest(&self, o: &BigInt) -> (r: BigInt) requires o.v() != 0 ensures r.v() == tmod(self.v(), o.v()) { unimplemented!() }
}
proof fn divide_big(a: int, b: int)
    requires b != 0
    ensures ({
        let s = if a > 0 && b < 0 { a - 1 } else if a < 0 && b > 0 { a + 1 } else { a };
        let q = tdiv(s, b); let m = tmod(s, b);
        &&& (a > 0 && b < 0) ==> floor_pair(a, b, q - 1, m + b + 1)
        &&& (a < 0 && b > 0) ==> floor_pair(a, b, q - 1, m + b - 1)
        &&& !((a > 0 && b < 0) || (a < 0 && b > 0)) ==> floor_pair(a, b, q, m)
    })
{
    let s = if a > 0 && b < 0 { a - 1 } else if a < 0 && b > 0 { a + 1 } else { a };
    machine_pair(s, b);
    from_trunc(a, b, s, tdiv(s, b) - (if (a > 0 && b < 0) || (a < 0 && b > 0) { 1int } else { 0 }), tdiv(s, b), tmod(s, b));
}
pub open spec fn is_quot(a: int, b: int, q: int) -> bool { exists|m: int| floor_pair(a, b, q, m) }
pub open spec fn is_rest(a: int, b: int, m: int) -> bool { exists|q: int| floor_pair(a, b, q, m) }
@end
@file monoruby/src/value/numeric.rs
@impl impl RubyDivMod for i64 => impl I64
@fn ruby_div_mod id=i64::ruby_div_mod
    requires *rhs != 0, !(*me == i64::MIN && *rhs == -1)
    ensures floor_pair(*me as int, *rhs as int, r.0 as int, r.1 as int)
@sub ( & self , ==> (me: &i64,
@sub self ==> me
@sub Self :: Output ==> (i64, i64)
@sub ( $a ) . div_rem ( rhs ) ==> i64_div_rem($a, rhs)
@optsub me . div_rem ( rhs ) ==> i64_div_rem(*me, rhs)
@sub + rhs ==> + *rhs
@enter
    proof { divide(*me as int, *rhs as int); }
@endimpl
@impl impl RubyDiv for i64 => impl I64
@fn ruby_div id=i64::ruby_div
    requires *rhs != 0, !(*me == i64::MIN && *rhs == -1)
    ensures is_quot(*me as int, *rhs as int, r as int)
@sub ( & self , ==> (me: &i64,
@sub self ==> me
@sub Self :: Output ==> i64
@enter
    proof { divide(*me as int, *rhs as int); }
@endimpl
@impl impl RubyMod for i64 => impl I64
@fn ruby_mod id=i64::ruby_mod
    requires *rhs != 0, !(*me == i64::MIN && *rhs == -1)
    ensures is_rest(*me as int, *rhs as int, r as int)
@sub ( & self , ==> (me: &i64,
@sub self ==> me
@sub Self :: Output ==> i64
@enter
    proof { divide(*me as int, *rhs as int); }
@endimpl
@impl impl RubyDivMod for BigInt => impl BigInt
@fn ruby_div_mod id=BigInt::ruby_div_mod
    requires rhs.v() != 0
    ensures floor_pair(self.v(), rhs.v(), r.0.v(), r.1.v())
@sub Self :: Output ==> (BigInt, BigInt)
@sub $x > & BigInt :: zero ( ) ==> $x.gt0()
@sub $x < & BigInt :: zero ( ) ==> $x.lt0()
@sub ( self - 1i32 ) ==> self.minus_i(1)
@sub ( self + 1i32 ) ==> self.plus_i(1)
@sub div - 1 ==> div.minus_i(1)
@sub modulo + rhs + 1 ==> modulo.plus(rhs).plus_i(1)
@sub modulo + rhs - 1 ==> modulo.plus(rhs).minus_i(1)
@enter
    proof { divide_big(self.v(), rhs.v()); }
@endimpl
@impl impl RubyDiv for BigInt => impl BigInt
@fn ruby_div id=BigInt::ruby_div
    requires rhs.v() != 0
    ensures is_quot(self.v(), rhs.v(), r.v())
@sub Self :: Output ==> BigInt
@sub $x > & BigInt :: zero ( ) ==> $x.gt0()
@sub $x < & BigInt :: zero ( ) ==> $x.lt0()
@sub ( ( self - 1 ) / rhs ) - 1 ==> self.minus_i(1).quot(rhs).minus_i(1)
@sub ( ( self + 1 ) / rhs ) - 1 ==> self.plus_i(1).quot(rhs).minus_i(1)
@sub self / rhs ==> self.quot(rhs)
@enter
    proof { divide_big(self.v(), rhs.v()); }
@endimpl
@impl impl RubyMod for BigInt => impl BigInt
@fn ruby_mod id=BigInt::ruby_mod
    requires rhs.v() != 0
    ensures is_rest(self.v(), rhs.v(), r.v())
@sub Self :: Output ==> BigInt
@sub $x > & BigInt :: zero ( ) ==> $x.gt0()
@sub $x < & BigInt :: zero ( ) ==> $x.lt0()
@sub ( ( self - 1 ) % rhs ) + rhs + 1 ==> self.minus_i(1).rest(rhs).plus(rhs).plus_i(1)
@sub ( ( self + 1 ) % rhs ) + rhs - 1 ==> self.plus_i(1).rest(rhs).plus(rhs).minus_i(1)
@sub self % rhs ==> self.rest(rhs)
@enter
    proof { divide_big(self.v(), rhs.v()); }
@endimpl
@verbatim
/// floats are opaque here: what the float arms compute is left to the replay
pub struct Flo { p: usize }
#[verifier::external_body]
pub fn any_float() -> RealKind { unimplemented!() }
#[verifier::external_body]
pub fn any_pair<A, B>() -> (A, B) { unimplemented!() }
#[verifier::external_body]
pub fn big_of(a: i64) -> (r: BigInt) ensures r.v() == a { unimplemented!() }
impl BigInt {
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0) { unimplemented!() }
}
pub open spec fn whole(k: RealKind) -> Option<int> { match k { RealKind::Integer(i) => Some(i as int), RealKind::BigInt(b) => Some(b.v()), RealKind::Float(f) => None } }
pub open spec fn divides(a: RealKind, b: RealKind) -> bool { whole(b) != Some(0int) && !(a == RealKind::Integer(i64::MIN) && b == RealKind::Integer((-1) as i64)) }
pub open spec fn both_whole(a: RealKind, b: RealKind) -> bool { whole(a) is Some && whole(b) is Some }
@end
@item enum RealKind
@sub Float ( f64 ) ==> Float(Flo)
@impl impl RealKind
@fn check_zero_div
    ensures r == (whole(*self) == Some(0int))
@sub RealKind :: Integer ( i ) => i . is_zero ( ) ==> RealKind::Integer(i) => *i == 0
@endimpl
@impl impl RubyDivMod for RealKind => impl RealKind
@fn ruby_div_mod id=RealKind::ruby_div_mod
    requires divides(*self, *other)
    ensures both_whole(*self, *other) ==> both_whole(r.0, r.1) && floor_pair(whole(*self)->0, whole(*other)->0, whole(r.0)->0, whole(r.1)->0)
@sub Self :: Output ==> (RealKind, RealKind)
@sub let ( d , m ) = ( $x ) ; ==> let (d, m) = any_pair();
@sub = a . ruby_div_mod ( b ) ==> = I64::ruby_div_mod(a, b)
@sub BigInt :: from ==> big_of
@sub ruby_div_mod ( & b ) ==> ruby_div_mod(b)
@endimpl
@impl impl RubyDiv for RealKind => impl RealKind
@fn ruby_div id=RealKind::ruby_div
    requires divides(*self, *other)
    ensures both_whole(*self, *other) ==> whole(r) is Some && is_quot(whole(*self)->0, whole(*other)->0, whole(r)->0)
@sub Self :: Output ==> RealKind
@sub => RealKind :: Float ( $x ) ==> => any_float()
@sub { RealKind :: Float ( $x ) } ==> { any_float() }
@sub RealKind :: Integer ( a . ruby_div ( & b ) ) ==> RealKind::Integer(I64::ruby_div(a, b))
@sub BigInt :: from ==> big_of
@sub ruby_div ( & b ) ==> ruby_div(b)
@endimpl
@impl impl RubyMod for RealKind => impl RealKind
@fn ruby_mod id=RealKind::ruby_mod
    requires divides(*self, *other)
    ensures both_whole(*self, *other) ==> whole(r) is Some && is_rest(whole(*self)->0, whole(*other)->0, whole(r)->0)
@sub Self :: Output ==> RealKind
@sub => RealKind :: Float ( $x ) ==> => any_float()
@sub { RealKind :: Float ( $x ) } ==> { any_float() }
@sub RealKind :: Integer ( a . ruby_mod ( & b ) ) ==> RealKind::Integer(I64::ruby_mod(a, b))
@sub BigInt :: from ==> big_of
@sub ruby_mod ( & b ) ==> ruby_mod(b)
@endimpl
