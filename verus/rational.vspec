// Rational numbers: monoruby/src/value/rvalue/rational.rs
@include base.inc
@include big.inc
@gsub BigInt :: ZERO ==> big_zero()
@gsub use num :: integer :: Integer ; ==> 
@gsub num :: integer :: Integer :: div_floor ( $a , $b ) ==> bi_div_floor(&($a), &($b))
@gsub num :: integer :: Integer :: div_rem ( $a , $b ) ==> bi_div_rem(&($a), &($b))
@gsub BigInt :: from ( $a ) ==> bi_from($a)
@gsub crate :: value :: RoundHalf ==> RoundHalf
@file monoruby/src/value/rvalue/rational.rs
@item enum RationalFloorResult
@item struct RationalInner
@file monoruby/src/value.rs
@item enum RoundHalf
@verbatim
// ---- lowest terms ---------------------------------------------------------------------------------------
/// no common factor
pub open spec fn coprime(a: int, b: int) -> bool { forall|k: int| k > 1 && #[trigger] divides(k, a) && divides(k, b) ==> false }
impl RationalInner {
    pub open spec fn n(&self) -> int { self.num.v() }
    pub open spec fn d(&self) -> int { self.den.v() }
    /// positive denominator, lowest terms
    pub open spec fn wf(&self) -> bool { self.d() > 0 && coprime(self.n(), self.d()) }
    /// the number a/b
    pub open spec fn is(&self, a: int, b: int) -> bool { self.n() * b == a * self.d() }
}
proof fn exact(g: int, a: int)
    requires g > 0, divides(g, a)
    ensures a == g * tdiv(a, g), (a > 0 ==> tdiv(a, g) > 0)
{
    lemma_fundamental_div_mod(a, g);
    lemma_fundamental_div_mod(-a, g);
    if a < 0 {
        neg_mod(a, g);
        assert(g * (-((-a) / g)) == -(g * ((-a) / g))) by (nonlinear_arith);
    }
    if a > 0 {
        assert(a / g > 0) by (nonlinear_arith) requires g > 0, a > 0, a == g * (a / g);
    }
}
proof fn neg_mod(a: int, g: int)
    requires g > 0, a % g == 0
    ensures (-a) % g == 0
{
    lemma_fundamental_div_mod(a, g);
    assert((-(a / g)) * g == -(g * (a / g))) by (nonlinear_arith);
    lemma_mod_multiples_basic(-(a / g), g);
}
/// dividing out the greatest common divisor leaves lowest terms
proof fn reduced(a: int, b: int, g: int, x: int, y: int)
    requires g > 0, divides(g, a), divides(g, b), forall|k: int| k > 0 && divides(k, a) && divides(k, b) ==> #[trigger] divides(k, g),
        a == g * x, b == g * y
    ensures coprime(x, y)
{
    assert forall|k: int| k > 1 && #[trigger] divides(k, x) && divides(k, y) implies false by {
        lemma_fundamental_div_mod(x, k);
        lemma_fundamental_div_mod(y, k);
        assert(a == (x / k) * (g * k)) by (nonlinear_arith) requires a == g * x, x == k * (x / k);
        assert(b == (y / k) * (g * k)) by (nonlinear_arith) requires b == g * y, y == k * (y / k);
        assert(g * k > g) by (nonlinear_arith) requires g > 0, k > 1;
        lemma_mod_multiples_basic(x / k, g * k);
        lemma_mod_multiples_basic(y / k, g * k);
        assert(divides(g * k, a) && divides(g * k, b));
        assert(divides(g * k, g));
        lemma_small_mod(g as nat, (g * k) as nat);
    }
}
proof fn cancel(a: int, b: int, g: int, x: int, y: int)
    requires a == g * x, b == g * y
    ensures x * b == a * y
{
    assert(x * (g * y) == (g * x) * y) by (nonlinear_arith);
}
/// Bezout
proof fn bezout(a: int, b: int) -> (r: (int, int, int))
    requires a >= 0, b >= 0, a > 0 || b > 0
    ensures a * r.0 + b * r.1 == r.2, r.2 > 0, divides(r.2, a), divides(r.2, b)
    decreases b
{
    if b == 0 {
        lemma_mod_self_0(a);
        assert(a * 1 + b * 0 == a);
        lemma_small_mod(0, a as nat);
        (1, 0, a)
    } else {
        lemma_mod_bound(a, b);
        let (x, y, g) = bezout(b, a % b);
        // b x + (a - (a/b) b) y = g
        lemma_fundamental_div_mod(a, b);
        assert(a * y + b * (x - (a / b) * y) == b * x + (a % b) * y) by (nonlinear_arith) requires a == b * (a / b) + a % b;
        lemma_fundamental_div_mod(b, g);
        lemma_fundamental_div_mod(a % b, g);
        let (u, w) = (b / g, (a % b) / g);
        assert(a == (u * (a / b) + w) * g) by (nonlinear_arith) requires a == b * (a / b) + a % b, b == g * u, a % b == g * w;
        lemma_mod_multiples_basic(u * (a / b) + w, g);
        (y, x - (a / b) * y, g)
    }
}
/// fractions in lowest terms are equal only when they are the same
proof fn unique(a: int, b: int, c: int, d: int)
    requires b > 0, d > 0, coprime(a, b), coprime(c, d), a * d == c * b
    ensures a == c, b == d
{
    one_way(a, b, c, d);
    assert(c * b == a * d);
    one_way(c, d, a, b);
    // b | d and d | b
    lemma_fundamental_div_mod(d, b);
    lemma_fundamental_div_mod(b, d);
    let (x, y) = (d / b, b / d);
    assert(x >= 1) by (nonlinear_arith) requires d == b * x, d > 0, b > 0;
    assert(y >= 1) by (nonlinear_arith) requires b == d * y, d > 0, b > 0;
    assert(d >= b) by (nonlinear_arith) requires d == b * x, x >= 1, b > 0;
    assert(b >= d) by (nonlinear_arith) requires b == d * y, y >= 1, d > 0;
    assert(a == c) by (nonlinear_arith) requires a * d == c * b, b == d, d > 0;
}
proof fn one_way(a: int, b: int, c: int, d: int)
    requires b > 0, d > 0, coprime(a, b), a * d == c * b
    ensures d % b == 0
{
    let p = if a < 0 { -a } else { a };
    let (x0, y, g) = bezout(p, b);
    let x = if a < 0 { -x0 } else { x0 };
    assert(a * x == p * x0) by (nonlinear_arith) requires (a < 0 && p == -a && x == -x0) || (p == a && x == x0);
    if a < 0 { neg_mod(p, g); }
    assert(divides(g, a) && divides(g, b));
    assert(g == 1);
    assert(d == (c * x + d * y) * b) by (nonlinear_arith) requires a * x + b * y == 1, a * d == c * b;
    lemma_mod_multiples_basic(c * x + d * y, b);
}
proof fn coprime_neg(a: int, b: int)
    requires coprime(a, b)
    ensures coprime(-a, b)
{
    assert forall|k: int| k > 1 && #[trigger] divides(k, -a) && divides(k, b) implies false by {
        neg_mod(-a, k);
        assert(divides(k, a));
    }
}
// ---- rounding -----------------------------------------------------------------------------------------------
pub open spec fn tens(nd: int) -> int { if nd >= 0 { pow(10, nd as nat) } else { pow(10, (-nd) as nat) } }
/// the number times 10^nd is top / bottom
pub open spec fn top(x: RationalInner, nd: int) -> int { if nd >= 0 { x.n() * tens(nd) } else { x.n() } }
pub open spec fn bottom(x: RationalInner, nd: int) -> int { if nd >= 0 { x.d() } else { x.d() * tens(nd) } }
/// the result stands for k / 10^nd: an integer for no digits or fewer, a rational in lowest terms otherwise
pub open spec fn stands(r: RationalFloorResult, nd: int, k: int) -> bool {
    match r {
        RationalFloorResult::Integer(i) => nd <= 0 && i.v() == k * tens(nd),
        RationalFloorResult::Rational(x) => nd > 0 && x.wf() && x.is(k, tens(nd)),
    }
}
pub open spec fn is_floor(p: int, q: int, k: int) -> bool { k * q <= p < (k + 1) * q }
pub open spec fn is_ceil(p: int, q: int, k: int) -> bool { (k - 1) * q < p <= k * q }
pub open spec fn is_trunc(p: int, q: int, k: int) -> bool { if p >= 0 { is_floor(p, q, k) } else { is_ceil(p, q, k) } }
/// nearest; a tie goes away from zero unless another mode is asked for
pub open spec fn is_round(p: int, q: int, half: Option<RoundHalf>, k: int) -> bool {
    let off = 2 * p - 2 * (k * q);
    &&& -q <= off <= q
    &&& (off == q || off == -q) ==> match half {
        Some(RoundHalf::Down) => if p >= 0 { off == q } else { off == -q },
        Some(RoundHalf::Even) => k % 2 == 0,
        _ => if p >= 0 { off == -q } else { off == q },
    }
}
pub open spec fn floor_of(p: int, q: int) -> int { p / q }
pub open spec fn ceil_of(p: int, q: int) -> int { -((-p) / q) }
pub open spec fn trunc_of(p: int, q: int) -> int { tdiv(p, q) }
pub open spec fn round_of(p: int, q: int, half: Option<RoundHalf>) -> int {
    let f = p / q;
    let off = 2 * p - 2 * (f * q);
    if off < q { f } else if off > q { f + 1 } else {
        match half {
            Some(RoundHalf::Down) => if p >= 0 { f } else { f + 1 },
            Some(RoundHalf::Even) => if f % 2 == 0 { f } else { f + 1 },
            _ => if p >= 0 { f + 1 } else { f },
        }
    }
}
/// these are the floor, the ceiling, the truncation and the nearest integer
proof fn meaning(p: int, q: int, half: Option<RoundHalf>)
    requires q > 0
    ensures is_floor(p, q, floor_of(p, q)), is_ceil(p, q, ceil_of(p, q)), is_trunc(p, q, trunc_of(p, q)), is_round(p, q, half, round_of(p, q, half))
{
    floor_div(p, q);
    floor_div(-p, q);
    trunc_div(p, q);
    let f = p / q;
    assert((f + 1) * q == f * q + q) by (nonlinear_arith);
}
/// truncated and floored quotients
proof fn both(p: int, q: int)
    requires q > 0
    ensures p >= 0 || tmod(p, q) == 0 ==> tdiv(p, q) == p / q, p < 0 && tmod(p, q) != 0 ==> tdiv(p, q) == p / q + 1,
        p == tdiv(p, q) * q + tmod(p, q), p >= 0 ==> 0 <= tmod(p, q) < q, p <= 0 ==> -q < tmod(p, q) <= 0,
        tdiv(p, q) == p / q ==> (p / q) * q == tdiv(p, q) * q, tdiv(p, q) == p / q + 1 ==> (p / q) * q == tdiv(p, q) * q - q
{
    trunc_div(p, q);
    floor_div(p, q);
    let (f, t) = (p / q, tdiv(p, q));
    assert((f + 1) * q == f * q + q) by (nonlinear_arith);
    assert(f < t - 1 ==> (f + 1) * q <= (t - 1) * q) by (nonlinear_arith) requires q > 0;
    assert(f > t ==> f * q >= (t + 1) * q) by (nonlinear_arith) requires q > 0;
    assert((t + 1) * q == t * q + q) by (nonlinear_arith);
    assert((t - 1) * q == t * q - q) by (nonlinear_arith);
}
/// rounding depends on the ratio only
proof fn ratio(a: int, b: int, p: int, q: int, half: Option<RoundHalf>)
    requires b > 0, q > 0, a * q == p * b
    ensures round_of(a, b, half) == round_of(p, q, half)
{
    floor_div(a, b);
    floor_div(p, q);
    let (f, g) = (a / b, p / q);
    // f b q <= a q = p b < (g + 1) q b
    assert(f < g + 1) by (nonlinear_arith) requires f * b <= a, p < (g + 1) * q, a * q == p * b, b > 0, q > 0;
    assert(g < f + 1) by (nonlinear_arith) requires g * q <= p, a < (f + 1) * b, a * q == p * b, b > 0, q > 0;
    let (u, w) = (2 * a - 2 * (f * b), 2 * p - 2 * (f * q));
    assert(u * q == w * b) by (nonlinear_arith) requires u == 2 * a - 2 * (f * b), w == 2 * p - 2 * (f * q), a * q == p * b;
    assert((u < b) == (w < q) && (u > b) == (w > q)) by (nonlinear_arith) requires u * q == w * b, b > 0, q > 0;
    assert((a >= 0) == (p >= 0)) by (nonlinear_arith) requires a * q == p * b, b > 0, q > 0;
}
/// a multiple of the step is its own rounding
proof fn whole(p: int, q: int, k: int)
    requires q > 0, p == k * q
    ensures p / q == k, ceil_of(p, q) == k, tdiv(p, q) == k, forall|h: Option<RoundHalf>| #[trigger] round_of(p, q, h) == k
{
    lemma_div_multiples_vanish(k, q);
    assert(p == q * k && -p == q * (-k)) by (nonlinear_arith) requires p == k * q;
    lemma_div_multiples_vanish(-k, q);
    assert(p == 0 ==> k == 0) by (nonlinear_arith) requires p == k * q, q > 0;
    assert(2 * p - 2 * (k * q) == 0);
}
/// what every rounding function starts from
proof fn start(x: RationalInner, nd: int)
    requires x.wf()
    ensures tens(nd) > 0, bottom(x, nd) > 0, nd == 0 ==> tens(nd) == 1 && top(x, nd) == x.n(),
        decimal(x, nd) && nd > 0 ==> ({ let k = floor_of(top(x, nd), bottom(x, nd)); top(x, nd) == k * bottom(x, nd) && ceil_of(top(x, nd), bottom(x, nd)) == k && trunc_of(top(x, nd), bottom(x, nd)) == k
            && forall|h: Option<RoundHalf>| #[trigger] round_of(top(x, nd), bottom(x, nd), h) == k })
{
    tens_pos(nd);
    if nd < 0 { assert(x.d() * tens(nd) > 0) by (nonlinear_arith) requires x.d() > 0, tens(nd) > 0; }
    if decimal(x, nd) && nd > 0 {
        let k = choose|k: int| x.n() * tens(nd) == #[trigger] (k * x.d());
        whole(top(x, nd), bottom(x, nd), k);
    }
    assert(x.n() * 1 == x.n());
}
proof fn floor_div(p: int, q: int)
    requires q > 0
    ensures is_floor(p, q, p / q), is_ceil(-p, q, -(p / q)), (p % q == 0) ==> p == (p / q) * q
{
    lemma_fundamental_div_mod(p, q);
    lemma_mod_bound(p, q);
    assert((p / q) * q == q * (p / q)) by (nonlinear_arith);
    assert((p / q + 1) * q == q * (p / q) + q) by (nonlinear_arith);
    assert((-(p / q)) * q == -(q * (p / q))) by (nonlinear_arith);
    assert((-(p / q) - 1) * q == -(q * (p / q)) - q) by (nonlinear_arith);
}
proof fn trunc_div(p: int, q: int)
    requires q > 0
    ensures is_trunc(p, q, tdiv(p, q)), p == tdiv(p, q) * q + tmod(p, q), p >= 0 ==> 0 <= tmod(p, q) < q, p <= 0 ==> -q < tmod(p, q) <= 0, p >= 0 ==> tdiv(p, q) >= 0, p <= 0 ==> tdiv(p, q) <= 0
{
    floor_div(p, q);
    floor_div(-p, q);
    lemma_fundamental_div_mod(p, q);
    lemma_fundamental_div_mod(-p, q);
    lemma_mod_bound(p, q);
    lemma_mod_bound(-p, q);
    assert((p / q) * q == q * (p / q)) by (nonlinear_arith);
    assert((-((-p) / q)) * q == -(q * ((-p) / q))) by (nonlinear_arith);
    if p >= 0 { lemma_div_pos_is_pos(p, q); } else { lemma_div_pos_is_pos(-p, q); }
    if p == 0 { assert(0 * q == 0 && 1 * q == q) by (nonlinear_arith); }
}
/// truncating twice truncates
proof fn trunc_twice(n: int, d: int, t: int)
    requires d > 0, t > 0
    ensures tdiv(tdiv(n, d), t) == tdiv(n, d * t), d * t > 0
{
    assert(d * t > 0) by (nonlinear_arith) requires d > 0, t > 0;
    if n >= 0 { lemma_div_denominator(n, d, t); if n > 0 { lemma_div_pos_is_pos(n, d); } } else { lemma_div_denominator(-n, d, t); lemma_div_pos_is_pos(-n, d); }
    assert(0int / t == 0 && 0int / (d * t) == 0) by { lemma_basic_div(0, t); lemma_basic_div(0, d * t); }
}
proof fn tens_pos(nd: int)
    ensures tens(nd) > 0, nd == 0 ==> tens(nd) == 1
{
    reveal(pow);
    if nd >= 0 { lemma_pow_positive(10, nd as nat); } else { lemma_pow_positive(10, (-nd) as nat); }
    if nd == 0 { lemma_pow0(10); }
}
// ---- terminating decimals -----------------------------------------------------------------------------------
/// what is left of t when the factor p is taken out
pub open spec fn strip(t: int, p: int) -> int
    decreases t
{
    if t > 0 && p > 1 && t % p == 0 && t / p < t && t / p > 0 { strip(t / p, p) } else { t }
}
proof fn strip_step(t: int, p: int)
    requires t > 0, p > 1
    ensures t % p == 0 ==> strip(t, p) == strip(t / p, p) && 0 < t / p < t && t == p * (t / p) && tdiv(t, p) == t / p,
        t % p != 0 ==> strip(t, p) == t, tmod(t, p) == t % p
{
    if t % p == 0 {
        lemma_fundamental_div_mod(t, p);
        let q = t / p;
        assert(0 < q < t) by (nonlinear_arith) requires t == p * q, t > 0, p > 1;
    }
}
proof fn pow_add(b: int, n: nat)
    ensures pow(b, n + 1) == b * pow(b, n)
{
    reveal(pow);
}
/// a denominator that fits in memory
pub open spec fn fits(x: RationalInner) -> bool { x.d() < pow(2, 0x4000_0000_0000_0000) }
proof fn few(b: int, n: nat, rest: int, d: int)
    requires b == 2 || b == 5, rest > 0, d == rest * pow(b, n), d < pow(2, 0x4000_0000_0000_0000)
    ensures n < 0x4000_0000_0000_0000
{
    powers(n);
    lemma_pow_positive(2, n);
    let (x, y) = (pow(b, n), pow(2, n));
    assert(d >= y) by (nonlinear_arith) requires d == rest * x, rest > 0, x >= y, y > 0;
    if n >= 0x4000_0000_0000_0000 { lemma_pow_increases(2, 0x4000_0000_0000_0000, n); }
}
proof fn powers(n: nat)
    ensures pow(5, n) >= pow(2, n) > 0
    decreases n
{
    reveal(pow);
    if n > 0 { powers((n - 1) as nat); }
}
/// 10^nd is a multiple of 2^a 5^b for a, b up to nd
proof fn enough(a: nat, b: nat, nd: nat) -> (m: int)
    requires a <= nd, b <= nd
    ensures pow(10, nd) == m * (pow(2, a) * pow(5, b))
{
    lemma_pow_distributes(2, 5, nd);
    assert(2int * 5 == 10);
    lemma_pow_adds(2, (nd - a) as nat, a);
    lemma_pow_adds(5, (nd - b) as nat, b);
    let (x, y, u, w) = (pow(2, (nd - a) as nat), pow(5, (nd - b) as nat), pow(2, a), pow(5, b));
    assert((x * u) * (y * w) == (x * y) * (u * w)) by (nonlinear_arith);
    x * y
}
/// x is a multiple of 10^-nd
pub open spec fn decimal(x: RationalInner, nd: int) -> bool { exists|k: int| x.n() * tens(nd) == #[trigger] (k * x.d()) }
impl RationalInner {
    /// the derived clone
    pub fn clone(&self) -> (r: RationalInner) ensures r.n() == self.n(), r.d() == self.d() { RationalInner { num: self.num.clone(), den: self.den.clone() } }
}
@end
@file monoruby/src/value/rvalue/rational.rs
@impl impl RationalInner
@fn normalize bigops
    requires old(den).v() != 0
    ensures final(den).v() > 0, coprime(final(num).v(), final(den).v()), final(num).v() * old(den).v() == old(num).v() * final(den).v()
@enter
    let ghost (n0, d0) = (num.v(), den.v());
@before let g = num . gcd ( den ) ;
    let ghost (a, b) = (num.v(), den.v());
    proof {
        assert(a * d0 == n0 * b) by (nonlinear_arith) requires (a == n0 && b == d0) || (a == -n0 && b == -d0);
    }
@after let g = num . gcd ( den ) ;
    proof {
        exact(g.v(), a);
        exact(g.v(), b);
        reduced(a, b, g.v(), tdiv(a, g.v()), tdiv(b, g.v()));
        cancel(a, b, g.v(), tdiv(a, g.v()), tdiv(b, g.v()));
        let (x, y) = (tdiv(a, g.v()), tdiv(b, g.v()));
        if g.v() == 1 { assert(1 * x == x && 1 * y == y) by (nonlinear_arith); }
        assert(x * d0 == n0 * y) by (nonlinear_arith) requires a == g.v() * x, b == g.v() * y, a * d0 == n0 * b, g.v() > 0;
    }
@fn new
    requires den.v() != 0
    ensures r.wf(), r.is(num.v(), den.v())
@sub impl Into < BigInt > ==> BigInt
@sub num . into ( ) ==> num
@sub den . into ( ) ==> den
@fn num
    ensures r.v() == self.n()
@fn den
    ensures r.v() == self.d()
@fn to_i bigops
    requires self.wf()
    ensures is_trunc(self.n(), self.d(), r.v())
@enter
    proof { trunc_div(self.n(), self.d()); }
@fn is_zero
    ensures r == (self.n() == 0)
@fn is_negative bigops
    ensures r == (self.n() < 0)
@fn neg bigops
    requires self.wf()
    ensures r.wf(), r.is(-self.n(), self.d())
@enter
    proof { coprime_neg(self.n(), self.d()); }
@fn abs bigops
    requires self.wf()
    ensures r.wf(), r.is(if self.n() < 0 { -self.n() } else { self.n() }, self.d())
@enter
    proof { coprime_neg(self.n(), self.d()); }
@fn add bigops
    requires self.wf(), other.wf()
    ensures r.wf(), r.is(self.n() * other.d() + other.n() * self.d(), self.d() * other.d())
@enter
    proof { assert(self.d() * other.d() != 0) by (nonlinear_arith) requires self.d() > 0, other.d() > 0; }
@fn sub bigops
    requires self.wf(), other.wf()
    ensures r.wf(), r.is(self.n() * other.d() - other.n() * self.d(), self.d() * other.d())
@enter
    proof { assert(self.d() * other.d() != 0) by (nonlinear_arith) requires self.d() > 0, other.d() > 0; }
@fn mul bigops
    requires self.wf(), other.wf()
    ensures r.wf(), r.is(self.n() * other.n(), self.d() * other.d())
@enter
    proof { assert(self.d() * other.d() != 0) by (nonlinear_arith) requires self.d() > 0, other.d() > 0; }
@fn div bigops
    requires self.wf(), other.wf()
    ensures r is Err <==> other.n() == 0, r matches Ok(x) ==> x.wf() && x.is(self.n() * other.d(), self.d() * other.n())
@sub Result < Self > ==> Result<Self, ()>
@sub MonorubyErr :: divide_by_zero ( ) ==> ()
@enter
    proof { if other.n() != 0 { assert(self.d() * other.n() != 0) by (nonlinear_arith) requires self.d() > 0, other.n() != 0; } }
@fn cmp bigops
    requires self.wf(), other.wf()
    ensures r is Less <==> self.n() * other.d() < other.n() * self.d(), r is Equal <==> self.n() * other.d() == other.n() * self.d(), r is Greater <==> self.n() * other.d() > other.n() * self.d()
@fn eq bigops
    requires self.wf(), other.wf()
    ensures r == (self.n() * other.d() == other.n() * self.d())
@enter
    proof { if self.n() * other.d() == other.n() * self.d() { unique(self.n(), self.d(), other.n(), other.d()); } }
@fn ndigits_sufficient bigops
    requires self.wf(), fits(*self), ndigits > 0
    ensures r ==> decimal(*self, ndigits as int)
@sub t /= 2u32 ==> t = t / 2u32
@sub t /= 5u32 ==> t = t / 5u32
@sub d2 . max ( d5 ) ==> vmax_i(d2, d5)
@enter
    proof {
        tens_pos(ndigits as int);
        if self.d() == 1 { assert(self.n() * tens(ndigits as int) == (self.n() * tens(ndigits as int)) * self.d()) by (nonlinear_arith) requires self.d() == 1; }
        lemma_pow0(2); lemma_pow0(5);
    }
@loop 1
    invariant t.v() > 0, strip(t.v(), 2) == strip(self.d(), 2)
    decreases t.v()
@loopenter 1
    proof { strip_step(t.v(), 2); }
@loopexit 1
    proof { strip_step(t.v(), 2); }
@loop 2
    invariant t.v() > 0, strip(t.v(), 5) == strip(strip(self.d(), 2), 5)
    decreases t.v()
@loopenter 2
    proof { strip_step(t.v(), 5); }
@loopexit 2
    proof { strip_step(t.v(), 5); }
@loop 3
    invariant fits(*self), t.v() > 0, d2 >= 0, strip(t.v(), 2) == strip(self.d(), 2), self.d() == t.v() * pow(2, d2 as nat)
    decreases t.v()
@loopenter 3
    proof { strip_step(t.v(), 2); pow_add(2, d2 as nat); few(2, d2 as nat, t.v(), self.d()); }
    let ghost t0 = t.v();
@loopend 3
    proof { let q = t0 / 2; assert(self.d() == q * (2 * pow(2, (d2 - 1) as nat))) by (nonlinear_arith) requires self.d() == t0 * pow(2, (d2 - 1) as nat), t0 == 2 * q; }
@loopexit 3
    proof { strip_step(t.v(), 2); assert(t.v() * 1 == t.v()); }
    let ghost p2 = pow(2, d2 as nat);
    proof { powers(d2 as nat); }
@loop 4
    invariant fits(*self), p2 > 0, t.v() > 0, d5 >= 0, strip(t.v(), 5) == strip(strip(self.d(), 2), 5), self.d() == t.v() * pow(5, d5 as nat) * p2
    decreases t.v()
@loopenter 4
    proof {
        strip_step(t.v(), 5); pow_add(5, d5 as nat);
        let p5 = pow(5, d5 as nat);
        let a = t.v();
        assert(a * p5 * p2 == (a * p2) * p5 && a * p2 > 0) by (nonlinear_arith) requires a > 0, p2 > 0;
        few(5, d5 as nat, a * p2, self.d());
    }
    let ghost t0 = t.v();
@loopend 4
    proof { let q = t0 / 5; assert(self.d() == q * (5 * pow(5, (d5 - 1) as nat)) * p2) by (nonlinear_arith) requires self.d() == t0 * pow(5, (d5 - 1) as nat) * p2, t0 == 5 * q; }
@loopexit 4
    proof {
        strip_step(t.v(), 5);
        assert(t.v() == 1);
        if d2 <= ndigits && d5 <= ndigits {
            let m = enough(d2 as nat, d5 as nat, ndigits as nat);
            let p5 = pow(5, d5 as nat);
            assert(self.n() * (m * (p2 * p5)) == (self.n() * m) * self.d()) by (nonlinear_arith) requires self.d() == 1 * p5 * p2;
        }
    }
@fn rational_floor bigops
    requires self.wf(), -0xffff_ffff <= ndigits <= 0xffff_ffff, ndigits > 0 ==> fits(*self)
    ensures stands(r, ndigits as int, floor_of(top(*self, ndigits as int), bottom(*self, ndigits as int)))
@enter
    proof { start(*self, ndigits as int); }
@fn rational_ceil bigops
    requires self.wf(), -0xffff_ffff <= ndigits <= 0xffff_ffff, ndigits > 0 ==> fits(*self)
    ensures stands(r, ndigits as int, ceil_of(top(*self, ndigits as int), bottom(*self, ndigits as int)))
@enter
    proof { start(*self, ndigits as int); }
@fn rational_truncate bigops
    requires self.wf(), -0xffff_ffff <= ndigits <= 0xffff_ffff, ndigits > 0 ==> fits(*self)
    ensures stands(r, ndigits as int, trunc_of(top(*self, ndigits as int), bottom(*self, ndigits as int)))
@enter
    proof { start(*self, ndigits as int); trunc_twice(self.n(), self.d(), tens(ndigits as int)); }
@fn rational_round bigops
    requires self.wf(), -0xffff_ffff <= ndigits <= 0xffff_ffff, ndigits > 0 ==> fits(*self)
    ensures stands(r, ndigits as int, round_of(top(*self, ndigits as int), bottom(*self, ndigits as int), half))
    decreases (if ndigits == 0 { 0int } else { 1 })
@enter
    proof {
        let nd = ndigits as int;
        start(*self, nd);
        both(self.n(), self.d());
        if self.d() == 1 { assert(self.n() * 1 == self.n()); whole(self.n(), 1, self.n()); }
        tens_pos(0);
        assert forall|x: RationalInner| x.wf() && #[trigger] x.is(top(*self, nd), bottom(*self, nd)) implies round_of(top(x, 0), bottom(x, 0), half) == round_of(top(*self, nd), bottom(*self, nd), half) by {
            assert(x.n() * 1 == x.n());
            ratio(x.n(), x.d(), top(*self, nd), bottom(*self, nd), half);
        }
    }
@endimpl
