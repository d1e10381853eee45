// Mersenne Twister: monoruby/src/globals/prng.rs
@include base.inc
@verbatim
pub open spec fn wm(a: u32, b: u32) -> u32 { ((a * b) % 0x1_0000_0000) as u32 }
pub open spec fn wa(a: u32, b: u32) -> u32 { ((a + b) % 0x1_0000_0000) as u32 }
pub open spec fn ws(a: u32, b: u32) -> u32 { ((a - b) % 0x1_0000_0000) as u32 }
// ---- MT19937 as published: the recurrence on the infinite sequence of words --------------------------
/// c, stirred by the upper bit of a and the lower 31 bits of b
pub open spec fn tw(c: u32, a: u32, b: u32) -> u32 {
    let y = (a & 0x8000_0000) | (b & 0x7fff_ffff);
    c ^ (y >> 1) ^ (if y & 1 != 0 { 0x9908_b0dfu32 } else { 0 })
}
/// x[k+624] = x[k+397] stirred by x[k] and x[k+1]
pub open spec fn x(s: Seq<u32>, k: int) -> u32
    decreases k
{
    if k < 624 { s[k] } else { tw(x(s, k - 624 + 397), x(s, k - 624), x(s, k - 623)) }
}
proof fn x_step(s: Seq<u32>, k: int)
    requires 0 <= k
    ensures x(s, 624 + k) == tw(x(s, k + 397), x(s, k), x(s, k + 1)), k < 227 ==> x(s, k + 397) == s[k + 397], k < 624 ==> x(s, k) == s[k], k < 623 ==> x(s, k + 1) == s[k + 1]
{}
pub open spec fn temper(y0: u32) -> u32 {
    let y1 = y0 ^ (y0 >> 11);
    let y2 = y1 ^ ((y1 << 7) & 0x9d2c_5680);
    let y3 = y2 ^ ((y2 << 15) & 0xefc6_0000);
    y3 ^ (y3 >> 18)
}
/// seeding by one word
pub open spec fn seeded(seed: u32, i: int) -> u32
    decreases i
{
    if i <= 0 { seed } else { let p = seeded(seed, i - 1); wa(wm(1_812_433_253, p ^ (p >> 30)), i as u32) }
}
/// seeding by a key: the words and the two running positions after n steps of the first pass
pub open spec fn key1(key: Seq<u32>, n: int) -> (Seq<u32>, int, int)
    decreases n
{
    if n <= 0 { (Seq::new(624, |i: int| seeded(19_650_218, i)), 1, 0) } else {
        let (s, i, j) = key1(key, n - 1);
        let s1 = s.update(i, wa(wa(s[i] ^ wm(s[i - 1] ^ (s[i - 1] >> 30), 1_664_525), key[j]), j as u32));
        let s2 = if i + 1 >= 624 { s1.update(0, s1[623]) } else { s1 };
        (s2, if i + 1 >= 624 { 1 } else { i + 1 }, if j + 1 >= key.len() { 0 } else { j + 1 })
    }
}
/// after n steps of the second pass, which follows max(624, key length) steps of the first
pub open spec fn key2(key: Seq<u32>, n: int) -> (Seq<u32>, int)
    decreases n
{
    if n <= 0 { let a = key1(key, if key.len() > 624 { key.len() as int } else { 624 }); (a.0, a.1) } else {
        let (s, i) = key2(key, n - 1);
        let s1 = s.update(i, ws(s[i] ^ wm(s[i - 1] ^ (s[i - 1] >> 30), 1_566_083_941), i as u32));
        let s2 = if i + 1 >= 624 { s1.update(0, s1[623]) } else { s1 };
        (s2, if i + 1 >= 624 { 1 } else { i + 1 })
    }
}
pub open spec fn keyed(key: Seq<u32>) -> Seq<u32> { key2(key, 623).0.update(0, 0x8000_0000) }
// ---- the generator as a stream ------------------------------------------------------------------------
impl Mt {
    pub open spec fn wf(&self) -> bool { self.mti <= 624 }
    /// the k-th number still to come
    pub open spec fn stream(&self, k: int) -> u32 { temper(x(self.mt@, self.mti + k)) }
    /// other continues exactly n draws further on
    pub open spec fn ahead(&self, other: &Mt, n: int) -> bool { forall|k: int| 0 <= k ==> #[trigger] other.stream(k) == self.stream(k + n) }
}
pub open spec fn regen(s: Seq<u32>) -> Seq<u32> { Seq::new(624, |i: int| x(s, 624 + i)) }
proof fn regen_shift(s: Seq<u32>, k: int)
    requires 0 <= k, s.len() == 624
    ensures x(regen(s), k) == x(s, 624 + k)
    decreases k
{
    if k >= 624 { regen_shift(s, k - 624 + 397); regen_shift(s, k - 624); regen_shift(s, k - 623); }
}
proof fn ahead_trans(a: &Mt, b: &Mt, c: &Mt, n: int, m: int)
    requires a.ahead(b, n), b.ahead(c, m), 0 <= n, 0 <= m
    ensures a.ahead(c, n + m)
{
    assert forall|k: int| 0 <= k implies #[trigger] c.stream(k) == a.stream(k + (n + m)) by { assert(c.stream(k) == b.stream(k + m)); assert(b.stream(k + m) == a.stream((k + m) + n)); assert((k + m) + n == k + (n + m)); }
}
#[verifier::external_body]
pub struct Value { _p: u64 }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
impl Copy for Value {}
// ---- integers and their digits (num::BigInt and Value are outside the crate's verified part) ----------------
#[verifier::external_body]
pub struct BigInt { _p: u64 }
impl BigInt { pub uninterp spec fn v(&self) -> int; }
pub enum RV<'a> { Fixnum(i64), BigInt(&'a BigInt), Other }
/// the integer a value is, 0 if it is none
pub uninterp spec fn int_of(v: Value) -> int;
impl Value {
    #[verifier::external_body]
    pub fn unpack(&self) -> (r: RV<'_>) ensures int_of(*self) == (match r { RV::Fixnum(i) => i as int, RV::BigInt(b) => b.v(), RV::Other => 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn bigint(b: BigInt) -> (r: Value) ensures int_of(r) == b.v() { unimplemented!() }
}
#[verifier::external_body]
pub fn big_from(i: i64) -> (r: BigInt) ensures r.v() == i { unimplemented!() }
#[verifier::external_body]
pub fn big_clone(b: &BigInt) -> (r: BigInt) ensures r.v() == b.v() { unimplemented!() }
#[verifier::external_body]
pub fn big_abs(b: &BigInt) -> (r: BigInt) ensures r.v() == (if b.v() < 0 { -b.v() } else { b.v() }) { unimplemented!() }
#[verifier::external_body]
pub fn big_less(b: &BigInt, d: u32) -> (r: BigInt) ensures r.v() == b.v() - d { unimplemented!() }
/// the magnitude in as few bytes as it takes, at least one
#[verifier::external_body]
pub fn big_bytes(b: &BigInt) -> (r: (u8, Vec<u8>)) ensures bv(r.1@) == (if b.v() < 0 { -b.v() } else { b.v() }), r.1@.len() > 0, r.1@.len() == 1 || r.1@.last() != 0 { unimplemented!() }
#[verifier::external_body]
pub fn big_from_bytes(b: &Vec<u8>) -> (r: BigInt) ensures r.v() == bv(b@) { unimplemented!() }
/// the integer written by little-endian bytes
pub open spec fn bv(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { s[0] + 256 * bv(s.drop_first()) } }
pub open spec fn piece(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(4 * i, if 4 * i + 4 <= s.len() { 4 * i + 4 } else { s.len() as int }) }
/// the magnitude of an integer in little-endian words, no leading zero word, at least one word
pub open spec fn words(n: int) -> Seq<u32> decreases n { if n < 0x1_0000_0000 { seq![n as u32] } else { seq![(n % 0x1_0000_0000) as u32] + words(n / 0x1_0000_0000) } }
pub open spec fn words_of(v: Value) -> Seq<u32> { words(if int_of(v) < 0 { -int_of(v) } else { int_of(v) }) }
pub open spec fn byte_of(x: u32, j: int) -> u8 { if j == 0 { (x & 0xff) as u8 } else if j == 1 { ((x >> 8) & 0xff) as u8 } else if j == 2 { ((x >> 16) & 0xff) as u8 } else { ((x >> 24) & 0xff) as u8 } }
/// byte k of the numbers to come, low byte of each first
pub open spec fn kth_byte(m: &Mt, k: int) -> u8 { byte_of(m.stream(k / 4), k % 4) }
proof fn of_word(m: &Mt, i: int, j: int)
    requires 0 <= j < 4, 0 <= i
    ensures kth_byte(m, 4 * i + j) == byte_of(m.stream(i), j)
{ assert((4 * i + j) / 4 == i && (4 * i + j) % 4 == j); }
#[verifier::external_body]
pub fn le_bytes(x: u32) -> (r: [u8; 4]) ensures forall|j: int| 0 <= j < 4 ==> #[trigger] r@[j] == byte_of(x, j) { x.to_le_bytes() }
#[verifier::external_body]
pub fn from_le(w: [u8; 4]) -> (r: u32) ensures r == w@[0] + 0x100 * w@[1] + 0x1_0000 * w@[2] + 0x100_0000 * w@[3] { u32::from_le_bytes(w) }
/// w[..c.len()].copy_from_slice(c)
#[verifier::external_body]
pub fn put(w: &mut [u8; 4], c: &[u8]) requires c@.len() <= 4 ensures final(w)@ == c@ + old(w)@.subrange(c@.len() as int, 4) { w[..c.len()].copy_from_slice(c) }
/// dest[at..at + n].copy_from_slice(&b[..n])
#[verifier::external_body]
pub fn put_at(dest: &mut [u8], at: usize, b: &[u8; 4], n: usize)
    requires n <= 4, at + n <= old(dest)@.len()
    ensures final(dest)@.len() == old(dest)@.len(), forall|k: int| 0 <= k < old(dest)@.len() ==> #[trigger] final(dest)@[k] == (if at <= k < at + n { b@[k - at] } else { old(dest)@[k] })
{ dest[at..at + n].copy_from_slice(&b[..n]) }
#[verifier::external_body]
pub fn extend4(v: &mut Vec<u8>, b: &[u8; 4]) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b) }
pub open spec fn gave<F: Fn(&[u8]) -> u32>(f: F, s: Seq<u8>, o: u32) -> bool { exists|c: &[u8]| c@ == s && #[trigger] f.ensures((c,), o) }
/// b.chunks(4).map(f).collect()
#[verifier::external_body]
pub fn chunked<F: Fn(&[u8]) -> u32>(b: &Vec<u8>, n: usize, f: F) -> (r: Vec<u32>)
    requires n == 4, forall|c: &[u8]| 1 <= c@.len() <= 4 ==> #[trigger] f.requires((c,))
    ensures r@.len() == (b@.len() + 3) / 4, forall|i: int| 0 <= i < r@.len() ==> gave(f, piece(b@, i), #[trigger] r@[i])
{ b.chunks(n).map(f).collect() }
proof fn bv_pad(c: Seq<u8>, w: Seq<u8>)
    requires 1 <= c.len() <= 4, w.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] w[i] == (if i < c.len() { c[i] } else { 0 })
    ensures bv(c) == w[0] + 0x100 * w[1] + 0x1_0000 * w[2] + 0x100_0000 * w[3]
{
    reveal_with_fuel(bv, 6);
    let c1 = c.drop_first();
    if c.len() > 1 { assert(c1[0] == c[1]); let c2 = c1.drop_first(); if c.len() > 2 { assert(c2[0] == c[2]); let c3 = c2.drop_first(); if c.len() > 3 { assert(c3[0] == c[3]); } } }
}
proof fn bv_split(s: Seq<u8>)
    requires s.len() >= 4
    ensures bv(s) == bv(s.subrange(0, 4)) + 0x1_0000_0000 * bv(s.subrange(4, s.len() as int))
{
    let a = s.subrange(0, 4);
    bv_pad(a, a);
    let s1 = s.drop_first(); let s2 = s1.drop_first(); let s3 = s2.drop_first(); let s4 = s3.drop_first();
    assert(s1[0] == s[1] && s2[0] == s[2] && s3[0] == s[3]);
    assert(s4 =~= s.subrange(4, s.len() as int));
    assert(bv(s) == s[0] + 256 * bv(s1));
    assert(bv(s1) == s[1] + 256 * bv(s2));
    assert(bv(s2) == s[2] + 256 * bv(s3));
    assert(bv(s3) == s[3] + 256 * bv(s4));
}
proof fn bv_zero(s: Seq<u8>)
    ensures bv(s) >= 0, s.len() > 0 && s.last() != 0 ==> bv(s) > 0
    decreases s.len()
{
    if s.len() > 0 { bv_zero(s.drop_first()); if s.len() > 1 { assert(s.drop_first().last() == s.last()); } }
}
proof fn val_low(d: Seq<u32>)
    requires d.len() > 0
    ensures val(d) == d[0] + 0x1_0000_0000 * val(d.drop_first())
    decreases d.len()
{
    if d.len() == 1 { reveal_with_fuel(val, 3); reveal_with_fuel(pow32, 3); } else {
        let l = d.drop_last();
        val_low(l);
        assert(l.drop_first() =~= d.drop_first().drop_last());
        assert(d.drop_first().last() == d.last());
        let (p, q, z) = (pow32(d.len() - 1), pow32(d.len() - 2), d.last() as int);
        assert(p == 0x1_0000_0000 * q);
        assert(p * z == 0x1_0000_0000 * (q * z)) by (nonlinear_arith) requires p == 0x1_0000_0000 * q;
    }
}
/// digits made four bytes at a time write the same integer
proof fn by_fours(b: Seq<u8>, w: Seq<u32>)
    requires w.len() == (b.len() + 3) / 4, forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == bv(piece(b, i))
    ensures val(w) == bv(b)
    decreases b.len()
{
    if b.len() == 0 { } else {
        val_low(w);
        let w1 = w.drop_first();
        if b.len() <= 4 {
            assert(piece(b, 0) =~= b);
            assert(w[0] == bv(piece(b, 0)));
            assert(w1.len() == 0);
        } else {
            let b1 = b.subrange(4, b.len() as int);
            bv_split(b);
            assert(piece(b, 0) =~= b.subrange(0, 4));
            assert(w[0] == bv(piece(b, 0)));
            assert forall|i: int| 0 <= i < w1.len() implies #[trigger] w1[i] == bv(piece(b1, i)) by { assert(w[i + 1] == bv(piece(b, i + 1))); assert(piece(b1, i) =~= piece(b, i + 1)); }
            by_fours(b1, w1);
        }
    }
}
/// digits without a leading zero are the digits of what they write
proof fn only_words(w: Seq<u32>)
    requires w.len() > 0, w.len() == 1 || w.last() != 0
    ensures words(val(w)) == w
    decreases w.len()
{
    val_low(w);
    let r = w.drop_first();
    if w.len() == 1 { assert(val(r) == 0); assert(words(val(w)) =~= w); } else {
        only_words(r);
        assert(r.last() == w.last());
        val_bound(r.drop_last());
        pow_pos(r.len() - 1);
        let (p, z) = (pow32(r.len() - 1), r.last() as int);
        assert(p * z > 0) by (nonlinear_arith) requires p > 0, z > 0;
        let n = val(w);
        assert(n % 0x1_0000_0000 == w[0] && n / 0x1_0000_0000 == val(r));
        assert(words(n) =~= w);
    }
}
/// and every magnitude is written by its digits
proof fn words_val(n: int)
    requires n >= 0
    ensures val(words(n)) == n, words(n).len() > 0
    decreases n
{
    val_low(words(n));
    if n < 0x1_0000_0000 { assert(words(n).drop_first() =~= Seq::<u32>::empty()); } else { words_val(n / 0x1_0000_0000); assert(words(n).drop_first() =~= words(n / 0x1_0000_0000)); }
}
proof fn made_of(b: Seq<u8>, w: Seq<u32>)
    requires b.len() > 0, b.len() == 1 || b.last() != 0, w.len() == (b.len() + 3) / 4, forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == bv(piece(b, i))
    ensures w == words(bv(b)), w.len() > 0
{
    by_fours(b, w);
    if w.len() > 1 {
        let l = piece(b, w.len() - 1);
        assert(l.last() == b.last());
        bv_zero(l);
        assert(w[w.len() - 1] == bv(l));
    }
    only_words(w);
}
proof fn le_value(x: u32, b: Seq<u8>)
    requires b.len() == 4, forall|j: int| 0 <= j < 4 ==> #[trigger] b[j] == byte_of(x, j)
    ensures bv(b) == x
{
    bv_pad(b, b);
    assert(b[0] == byte_of(x, 0) && b[1] == byte_of(x, 1) && b[2] == byte_of(x, 2) && b[3] == byte_of(x, 3));
    assert(x == (((x & 0xff) as u8) as u32) + 0x100 * ((((x >> 8) & 0xff) as u8) as u32) + 0x1_0000 * ((((x >> 16) & 0xff) as u8) as u32) + 0x100_0000 * ((((x >> 24) & 0xff) as u8) as u32)) by (bit_vector);
}
pub open spec fn fresh(m: &Mt, seed: Value) -> bool {
    m.wf() && m.mti == 624 && (words_of(seed).len() == 1 ==> m.mt@ =~= Seq::new(624, |i: int| seeded(words_of(seed)[0], i))) && (words_of(seed).len() > 1 ==> m.mt@ == keyed(words_of(seed)))
}
fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == if a > b { a } else { b } { if a > b { a } else { b } }
/// 2^64 draws do not happen
#[verifier::external_body]
pub fn inc(c: u64) -> (r: u64) ensures r == c + 1 { c + 1 }
// ---- bounded draws ----------------------------------------------------------------------------------------
/// every bit below the highest set one
pub open spec fn smear(v: u32) -> u32 {
    let a = v | (v >> 1);
    let b = a | (a >> 2);
    let c = b | (b >> 4);
    let d = c | (c >> 8);
    d | (d >> 16)
}
/// it is the smallest 2^k - 1 that is at least v
proof fn smear_is_mask(v: u32)
    ensures v <= smear(v), smear(v) & add(smear(v), 1) == 0, v == 0 ==> smear(v) == 0, v > 0 ==> (smear(v) >> 1) < v
{
    let a = v | (v >> 1);
    let b = a | (a >> 2);
    let c = b | (b >> 4);
    let d = c | (c >> 8);
    let e = d | (d >> 16);
    assert(v <= e && e & add(e, 1) == 0 && (v == 0 ==> e == 0) && (v > 0 ==> (e >> 1) < v)) by (bit_vector)
        requires a == v | (v >> 1), b == a | (a >> 2), c == b | (b >> 4), d == c | (c >> 8), e == d | (d >> 16);
}
/// one pass of the reference draw over the lowest i digits of the limit, most significant first, taking numbers from
/// position pos on: (not rejected, the digits, the position after)
pub open spec fn pass(limit: Seq<u32>, m: &Mt, i: int, mask: u32, boundary: bool, pos: int) -> (bool, Seq<u32>, int)
    decreases i
{
    if i <= 0 { (true, Seq::empty(), pos) } else {
        let lim = limit[i - 1];
        let mask2 = if mask != 0 { 0xffff_ffffu32 } else { smear(lim) };
        if mask2 == 0 { let t = pass(limit, m, i - 1, mask2, boundary, pos); (t.0, t.1.push(0), t.2) } else {
            let r = m.stream(pos) & mask2;
            if boundary && lim < r { (false, Seq::empty(), pos + 1) } else {
                let t = pass(limit, m, i - 1, mask2, boundary && !(r < lim), pos + 1);
                (t.0, t.1.push(r), t.2)
            }
        }
    }
}
pub open spec fn whole(limit: Seq<u32>, m: &Mt, pos: int) -> (bool, Seq<u32>, int) { pass(limit, m, limit.len() as int, 0, true, pos) }
/// where pass number k starts when every earlier one is rejected (-1 if one is accepted)
pub open spec fn start(limit: Seq<u32>, m: &Mt, k: nat) -> int
    decreases k
{
    if k == 0 { 0 } else { let p = start(limit, m, (k - 1) as nat); if p < 0 || whole(limit, m, p).0 { -1 } else { whole(limit, m, p).2 } }
}
/// d is what the reference draws, consuming n numbers: the first pass that is not rejected
pub open spec fn drawn(limit: Seq<u32>, m: &Mt, d: Seq<u32>, n: int) -> bool {
    exists|k: nat| #[trigger] start(limit, m, k) >= 0 && whole(limit, m, start(limit, m, k)) == (true, d, n)
}
/// the integer written by little-endian digits
pub open spec fn val(d: Seq<u32>) -> int
    decreases d.len()
{
    if d.len() == 0 { 0 } else { val(d.drop_last()) + pow32(d.len() - 1) * d.last() }
}
pub open spec fn pow32(n: int) -> int decreases n { if n <= 0 { 1 } else { 0x1_0000_0000 * pow32(n - 1) } }
proof fn val12(d: Seq<u32>)
    requires 1 <= d.len() <= 2
    ensures val(d) == d[0] + (if d.len() == 2 { 0x1_0000_0000 * d[1] } else { 0 })
{
    reveal_with_fuel(val, 4);
    reveal_with_fuel(pow32, 3);
    if d.len() == 2 { assert(d.drop_last()[0] == d[0]); }
}
proof fn pow_pos(n: int) ensures pow32(n) > 0 decreases n { if n > 0 { pow_pos(n - 1); } }
proof fn val_bound(d: Seq<u32>)
    ensures 0 <= val(d) < pow32(d.len() as int)
    decreases d.len()
{
    if d.len() > 0 {
        val_bound(d.drop_last());
        let p = pow32(d.len() - 1);
        let l = d.last() as int;
        assert(p * l <= p * 0xffff_ffff && p * l >= 0) by (nonlinear_arith) requires 0 <= l <= 0xffff_ffff, p > 0;
    }
}
proof fn pass_le(limit: Seq<u32>, m: &Mt, i: int, mask: u32, boundary: bool, pos: int)
    requires 0 <= i <= limit.len(), pass(limit, m, i, mask, boundary, pos).0
    ensures pass(limit, m, i, mask, boundary, pos).1.len() == i, boundary ==> val(pass(limit, m, i, mask, boundary, pos).1) <= val(limit.subrange(0, i)),
        pass(limit, m, i, mask, boundary, pos).2 >= pos
    decreases i
{
    if i > 0 {
        let lim = limit[i - 1];
        let mask2 = if mask != 0 { 0xffff_ffffu32 } else { smear(lim) };
        smear_is_mask(lim);
        let low = limit.subrange(0, i);
        assert(low.drop_last() =~= limit.subrange(0, i - 1));
        let p = pow32(i - 1);
        pow_pos(i - 1);
        val_bound(limit.subrange(0, i - 1));
        if mask2 == 0 {
            pass_le(limit, m, i - 1, mask2, boundary, pos);
            let t = pass(limit, m, i - 1, mask2, boundary, pos);
            assert(t.1.push(0).drop_last() =~= t.1);
            assert(p * lim >= 0) by (nonlinear_arith) requires p > 0, lim >= 0;
            assert(p * 0 == 0);
        } else {
            let r = m.stream(pos) & mask2;
            let b2 = boundary && !(r < lim);
            pass_le(limit, m, i - 1, mask2, b2, pos + 1);
            let t = pass(limit, m, i - 1, mask2, b2, pos + 1);
            assert(t.1.push(r).drop_last() =~= t.1);
            val_bound(t.1);
            if boundary && r < lim {
                assert(p * r + p <= p * lim) by (nonlinear_arith) requires p > 0, r + 1 <= lim;
            }
        }
    }
}
/// the digits of a 64-bit limit, without a leading zero digit
pub open spec fn digits_of(m: u64) -> Seq<u32> { if m <= 0xffff_ffff { seq![m as u32] } else { seq![(m & 0xffff_ffff) as u32, (m >> 32) as u32] } }
#[verifier::external_body]
pub fn low(d: &[u32; 2], len: usize) -> (r: &[u32]) requires len <= 2 ensures r@ == d@.subrange(0, len as int) { &d[..len] }
#[verifier::external_body]
pub fn low_mut(d: &mut [u32; 2], len: usize) -> (r: &mut [u32])
    requires len <= 2
    ensures r@ == old(d)@.subrange(0, len as int), final(r)@ == final(d)@.subrange(0, len as int), final(d)@.subrange(len as int, 2) == old(d)@.subrange(len as int, 2)
{ &mut d[..len] }
@end
@file monoruby/src/globals/prng.rs
@item struct Mt
@item const MT_N
@item const MT_M
@item const MT_MATRIX_A
@item const MT_UPPER
@item const MT_LOWER
@impl impl Mt
@fn init_genrand
    ensures r.wf(), r.mti == 624, r.mt@ =~= Seq::new(624, |i: int| seeded(seed, i))
@loop 1
    invariant mt@.len() == 624, forall|j: int| 0 <= j < i ==> #[trigger] mt@[j] == seeded(seed, j)
@fn new_with_key
    requires key@.len() > 0
    ensures r.wf(), r.mti == 624, r.mt@ == keyed(key@)
@sub MT_N . max ( key . len ( ) ) ==> max_usize(MT_N, key.len())
@enter
    let ghost kl = if key@.len() > 624 { key@.len() as int } else { 624 };
@loop 1
    invariant mt@.len() == 624, key@.len() > 0, 0 <= k <= kl, kl == (if key@.len() > 624 { key@.len() as int } else { 624 }), 1 <= i < 624, 0 <= j < key@.len(),
        mt@ == key1(key@, kl - k).0, i == key1(key@, kl - k).1, j == key1(key@, kl - k).2
    decreases k
@loop 2
    invariant mt@.len() == 624, k <= 623, 1 <= i < 624, mt@ == key2(key@, 623 - k).0, i == key2(key@, 623 - k).1
    decreases k
@fn next_u32
    requires old(self).wf()
    ensures final(self).wf(), r == old(self).stream(0), old(self).ahead(final(self), 1)
@enter
    let ghost s0 = self.mt@;
    let ghost m0 = self.mti;
@loop 1
    invariant mt@.len() == 624, s0.len() == 624, forall|j: int| 0 <= j < kk ==> #[trigger] mt@[j] == x(s0, 624 + j), forall|j: int| kk <= j < 624 ==> #[trigger] mt@[j] == s0[j]
@loopenter 1
    proof { x_step(s0, kk as int); }
@loopenter 2
    proof { x_step(s0, kk as int); }
@before let y = ( mt [ MT_N - 1 ]
    proof { x_step(s0, 623); }
@loop 2
    invariant mt@.len() == 624, s0.len() == 624, forall|j: int| 0 <= j < kk ==> #[trigger] mt@[j] == x(s0, 624 + j), forall|j: int| kk <= j < 624 ==> #[trigger] mt@[j] == s0[j]
@before let mut y = self . mt
    let ghost s1 = self.mt@;
    let ghost m1 = self.mti;
    proof {
        if m0 >= 624 { assert(s1 =~= regen(s0)); }
        assert forall|k: int| 0 <= k implies #[trigger] x(s1, m1 + k) == x(s0, m0 + k) by { if m0 >= 624 { regen_shift(s0, k); } }
        assert(x(s1, m1 + 0) == x(s0, m0 + 0));
    }
@lastbefore y
    proof {
        assert forall|k: int| 0 <= k implies #[trigger] self.stream(k) == old(self).stream(k + 1) by { assert(x(s1, m1 + (k + 1)) == x(s0, m0 + (k + 1))); }
    }
@fn fill_bytes
    requires old(self).wf()
    ensures final(self).wf(), final(dest)@.len() == old(dest)@.len(), old(self).ahead(final(self), (old(dest)@.len() + 3) as int / 4),
        forall|k: int| 0 <= k < final(dest)@.len() ==> #[trigger] final(dest)@[k] == kth_byte(old(self), k)
@sub let mut chunks = dest . chunks_exact_mut ( $n ) ; ==> let wide_: usize = $n; let full_ = dest.len() / wide_;
@sub for c in & mut chunks ==> for j_ in 0..full_
@sub c . copy_from_slice ( & self . next_u32 ( ) . to_le_bytes ( ) ) ==> put_at(dest, wide_ * j_, &le_bytes(self.next_u32()), wide_)
@sub let rem = chunks . into_remainder ( ) ; ==> let rem = dest.len() % wide_;
@sub ! rem . is_empty ( ) ==> rem != 0
@sub self . next_u32 ( ) . to_le_bytes ( ) ==> le_bytes(self.next_u32())
@sub rem . copy_from_slice ( & b [ .. rem . len ( ) ] ) ==> put_at(dest, wide_ * full_, &b, rem)
@enter
    hide(x); hide(temper); hide(kth_byte); hide(byte_of);
    let ghost m0 = *self;
    let ghost d0 = dest@;
    proof { assert forall|k: int| 0 <= k implies #[trigger] self.stream(k) == m0.stream(k + 0) by {} }
@loop 1
    invariant wide_ == 4, d0.len() <= usize::MAX, full_ == d0.len() / 4, d0.len() == dest@.len(), self.wf(), m0.wf(), m0.ahead(self, j_ as int), forall|k: int| 0 <= k < 4 * j_ ==> #[trigger] dest@[k] == kth_byte(&m0, k)
@loopenter 1
    let ghost mb = *self;
    proof { assert(mb.stream(0) == m0.stream(0 + j_)); assert(4 * j_ + 4 <= d0.len()); of_word(&m0, j_ as int, 0); of_word(&m0, j_ as int, 1); of_word(&m0, j_ as int, 2); of_word(&m0, j_ as int, 3); }
@loopend 1
    proof {
        ahead_trans(&m0, &mb, self, j_ as int, 1);
        assert forall|k: int| 0 <= k < 4 * (j_ + 1) implies #[trigger] dest@[k] == kth_byte(&m0, k) by { if k >= 4 * j_ { let j = k - 4 * j_; assert(j == 0 || j == 1 || j == 2 || j == 3); } }
    }
@before let rem =
    let ghost mb = *self;
    proof { assert(mb.stream(0) == m0.stream(0 + full_)); of_word(&m0, full_ as int, 0); of_word(&m0, full_ as int, 1); of_word(&m0, full_ as int, 2); }
@after put_at ( dest , wide_ * full_ , & b , rem ) ;
    proof {
        ahead_trans(&m0, &mb, self, full_ as int, 1);
        assert forall|k: int| 0 <= k < d0.len() implies #[trigger] dest@[k] == kth_byte(&m0, k) by { if k >= 4 * full_ { let j = k - 4 * full_; assert(j == 0 || j == 1 || j == 2); } }
    }
@endimpl
@fn seed_words
    ensures r@ == words_of(seed), r@.len() > 0
@sub use num :: Signed ; ==> ;
@gsub num :: BigInt :: from ( ==> big_from(
@sub b . clone ( ) ==> big_clone(b)
@sub big . abs ( ) . to_bytes_le ( ) ==> big_bytes(&big_abs(&big))
@sub bytes . chunks ( $n ) . map ( $f ) . collect ( ) ==> chunked(&bytes, $n, $f)
@sub w [ .. c . len ( ) ] . copy_from_slice ( c ) ==> put(&mut w, c)
@sub u32 :: from_le_bytes ( w ) ==> from_le(w)
@closure 1 (&[u8]) -> (o: u32)
    requires 1 <= c@.len() <= 4
    ensures o == bv(c@)
@before from_le ( w )
    proof { bv_pad(c@, w@); }
@before if words . is_empty ( )
    proof { assert forall|i: int| 0 <= i < words@.len() implies #[trigger] words@[i] == bv(piece(bytes@, i)) by {} made_of(bytes@, words@); }
@fn make_mask
    ensures r == smear(x)
@fn limited_rand_into
    requires old(mt).wf(), limit@.len() == old(digits)@.len()
    ensures final(mt).wf(), final(digits)@.len() == limit@.len(), drawn(limit@, old(mt), final(digits)@, *final(cnt) - *old(cnt)), old(mt).ahead(final(mt), *final(cnt) - *old(cnt)),
        val(final(digits)@) <= val(limit@)
@attr #[verifier::exec_allows_no_decreases_clause]
@sub * cnt += 1 ==> *cnt = inc(*cnt)
@enter
    let ghost m0 = *mt;
    let ghost c0 = *cnt;
    let ghost mut tries: nat = 0;
    proof { assert forall|k: int| 0 <= k implies #[trigger] mt.stream(k) == m0.stream(k + 0) by {} }
@loop 1
    invariant m0 == *old(mt), c0 == *old(cnt), m0.wf(), mt.wf(), len == limit@.len(), len == digits@.len(), m0.ahead(mt, *cnt - c0), *cnt >= c0, start(limit@, &m0, tries) == *cnt - c0
@loopenter 1
    let ghost p0 = *cnt - c0;
    let ghost all = whole(limit@, &m0, p0);
@loop 2
    invariant_except_break !retry,
        ({ let t = pass(limit@, &m0, len - _k2, mask, boundary, *cnt - c0); all.0 == t.0 && all.2 == t.2 && (all.0 ==> all.1 == t.1 + digits@.subrange(len - _k2, len as int)) })
    invariant m0 == *old(mt), c0 == *old(cnt), m0.wf(), mt.wf(), len == limit@.len(), len == digits@.len(), _n2 == len, m0.ahead(mt, *cnt - c0), *cnt >= c0,
        all == whole(limit@, &m0, p0),
    ensures all.0 == !retry, all.2 == *cnt - c0, !retry ==> all.1 == digits@
@loopenter 2
    let ghost mb = *mt;
    let ghost cb = *cnt - c0;
    let ghost db = digits@;
    let ghost t = pass(limit@, &m0, len - _k2, mask, boundary, *cnt - c0);
@after let r = mt . next_u32 ( ) & mask ;
    proof { ahead_trans(&m0, &mb, mt, cb, 1); assert(r == m0.stream(cb) & mask) by { assert(mb.stream(0) == m0.stream(0 + cb)); } }
@loopend 2
    proof {
        let rest = digits@.subrange(len - (_k2 + 1), len as int);
        assert(digits@.subrange(len - _k2, len as int) =~= db.subrange(len - _k2, len as int));
        assert(rest =~= seq![rnd] + db.subrange(len - _k2, len as int));
        let t2 = pass(limit@, &m0, len - (_k2 + 1), mask, boundary, *cnt - c0);
        if all.0 { assert(t.1 =~= t2.1.push(rnd)); assert(t.1 + db.subrange(len - _k2, len as int) =~= t2.1 + rest); }
    }
@before if ! retry
    proof { if !retry { assert(start(limit@, &m0, tries) >= 0 && whole(limit@, &m0, start(limit@, &m0, tries)) == (true, digits@, *cnt - c0)); pass_le(limit@, &m0, len as int, 0, true, p0); assert(limit@.subrange(0, len as int) =~= limit@); } }
@loopend 1
    proof { tries = tries + 1; }
@fn ulong_limited
    requires old(mt).wf()
    ensures final(mt).wf(), r <= max, old(mt).ahead(final(mt), *final(cnt) - *old(cnt)), max == 0 ==> *final(cnt) == *old(cnt),
        max > 0 ==> exists|d: Seq<u32>| drawn(digits_of(max), old(mt), d, *final(cnt) - *old(cnt)) && #[trigger] val(d) == r
@sub & limit [ .. len ] ==> low(&limit, len)
@sub & mut digits [ .. len ] ==> low_mut(&mut digits, len)
@after let mut digits = [ 0u32 ; 2 ] ;
    let ghost lims = limit@.subrange(0, len as int);
    proof {
        assert((max & 0xffff_ffff) as u32 == max as u32) by (bit_vector);
        assert(max <= 0xffff_ffff ==> max & 0xffff_ffff == max && (max >> 32) == 0) by (bit_vector);
        assert(max > 0xffff_ffff ==> (max >> 32) as u32 != 0) by (bit_vector);
        assert(max == (max & 0xffff_ffff) + 0x1_0000_0000 * (max >> 32) && (max >> 32) <= 0xffff_ffff && (max & 0xffff_ffff) <= 0xffff_ffff) by (bit_vector);
        assert(lims =~= digits_of(max));
        val12(lims);
    }
@after limited_rand_into ( mt , cnt , low ( & limit , len ) , low_mut ( & mut digits , len ) ) ;
    proof {
        let d = digits@.subrange(0, len as int);
        val12(d);
        assert(len == 1 ==> digits@[1] == digits@.subrange(1, 2)[0] && digits@.subrange(1, 2)[0] == 0);
        let (d0, d1) = (digits@[0] as u64, digits@[1] as u64);
        assert(d0 | (d1 << 32) == d0 + 0x1_0000_0000 * d1) by (bit_vector) requires d0 <= 0xffff_ffff, d1 <= 0xffff_ffff;
    }
@fn limited_rand
    requires old(mt).wf()
    ensures final(mt).wf(), r@.len() == limit@.len(), drawn(limit@, old(mt), r@, *final(cnt) - *old(cnt)), old(mt).ahead(final(mt), *final(cnt) - *old(cnt)), val(r@) <= val(limit@)
@sub & mut digits ==> digits.as_mut_slice()
@fn to_le_digits
    requires big.v() >= 0
    ensures r@ == words(big.v()), r@.len() > 0
@sub big : & num :: BigInt ==> big: &BigInt
@sub big . to_bytes_le ( ) ==> big_bytes(big)
@sub bytes . chunks ( $n ) . map ( $f ) . collect ( ) ==> chunked(&bytes, $n, $f)
@sub w [ .. c . len ( ) ] . copy_from_slice ( c ) ==> put(&mut w, c)
@sub u32 :: from_le_bytes ( w ) ==> from_le(w)
@closure 1 (&[u8]) -> (o: u32)
    requires 1 <= c@.len() <= 4
    ensures o == bv(c@)
@before from_le ( w )
    proof { bv_pad(c@, w@); }
@before if d . is_empty ( )
    proof { assert forall|i: int| 0 <= i < d@.len() implies #[trigger] d@[i] == bv(piece(bytes@, i)) by {} made_of(bytes@, d@); }
@fn digits_to_value
    ensures int_of(r) == val(digits@)
@sub Vec :: with_capacity ( $n ) ==> Vec::<u8>::new()
@sub bytes . extend_from_slice ( & w . to_le_bytes ( ) ) ==> extend4(&mut bytes, &le_bytes(*w))
@sub num :: BigInt :: from_bytes_le ( num :: bigint :: Sign :: Plus , & bytes ) ==> big_from_bytes(&bytes)
@loop 1
    invariant _n1 == digits@.len(), bytes@.len() == 4 * _k1, forall|i: int, j: int| 0 <= i < _k1 && 0 <= j < 4 ==> bytes@[4 * i + j] == #[trigger] byte_of(digits@[i], j)
@before let big =
    proof {
        assert forall|i: int| 0 <= i < digits@.len() implies #[trigger] digits@[i] == bv(piece(bytes@, i)) by {
            let b = piece(bytes@, i);
            assert forall|j: int| 0 <= j < 4 implies #[trigger] b[j] == byte_of(digits@[i], j) by { assert(b[j] == bytes@[4 * i + j]); }
            le_value(digits@[i], b);
        }
        by_fours(bytes@, digits@);
    }
@fn rand_int
    requires old(mt).wf(), max.v() > 0
    ensures final(mt).wf(), 0 <= int_of(r) < max.v(), old(mt).ahead(final(mt), *final(cnt) - *old(cnt)),
        exists|d: Seq<u32>| drawn(words(max.v() - 1), old(mt), d, *final(cnt) - *old(cnt)) && #[trigger] val(d) == int_of(r)
@sub max : & num :: BigInt ==> max: &BigInt
@sub max - 1u32 ==> big_less(max, 1u32)
@sub & to_le_digits ( & limit ) ==> to_le_digits(&limit).as_slice()
@before digits_to_value (
    proof { words_val(max.v() - 1); val_bound(digits@); }
@fn build_mt
    ensures fresh(&r, seed)
@item struct Prng
@impl impl Prng
@fn new id=Prng::new
    ensures r.mt.wf(), r.mt.mti == 624, r.mt.mt@ =~= Seq::new(624, |i: int| seeded(0, i))
@fn seed_value
    ensures fresh(&final(self).mt, seed)
@fn rand_int id=Prng::rand_int
    requires old(self).mt.wf(), max.v() > 0
    ensures final(self).mt.wf(), 0 <= int_of(r) < max.v(), exists|n: int, d: Seq<u32>| #[trigger] old(self).mt.ahead(&final(self).mt, n) && #[trigger] drawn(words(max.v() - 1), &old(self).mt, d, n) && val(d) == int_of(r)
@sub max : & num :: BigInt ==> max: &BigInt
@sub rand_int ( & mut self . mt , & mut cnt , max ) ==> { let r = rand_int(&mut self.mt, &mut cnt, max); proof { assert(old(self).mt.ahead(&self.mt, cnt - 0)); } r }
@fn fill_bytes id=Prng::fill_bytes
    requires old(self).mt.wf()
    ensures final(self).mt.wf(), final(dest)@.len() == old(dest)@.len(), old(self).mt.ahead(&final(self).mt, (old(dest)@.len() + 3) as int / 4),
        forall|k: int| 0 <= k < final(dest)@.len() ==> #[trigger] final(dest)@[k] == kth_byte(&old(self).mt, k)
@fn ulong_limited id=Prng::ulong_limited
    requires old(self).mt.wf()
    ensures final(self).mt.wf(), r <= max, exists|n: int| #[trigger] old(self).mt.ahead(&final(self).mt, n) && (max == 0 ==> n == 0) && (max > 0 ==> exists|d: Seq<u32>| drawn(digits_of(max), &old(self).mt, d, n) && #[trigger] val(d) == r)
@sub ulong_limited ( & mut self . mt , & mut cnt , max ) ==> { let r = ulong_limited(&mut self.mt, &mut cnt, max); proof { assert(old(self).mt.ahead(&self.mt, cnt - 0)); } r }
@endimpl
@file monoruby/src/builtins/random.rs
@fn mt_at
    ensures r.wf(), exists|m: Mt| fresh(&m, seed) && #[trigger] m.ahead(&r, cnt as int)
@sub for _ in 0 ==> for _i in 0
@after let mut mt = build_mt ( seed ) ;
    let ghost m0 = mt;
    proof { assert forall|k: int| 0 <= k implies #[trigger] mt.stream(k) == m0.stream(k + 0) by {} }
@loop 1
    invariant mt.wf(), m0.ahead(&mt, _i as int)
@loopenter 1
    let ghost mb = mt;
@loopend 1
    proof { ahead_trans(&m0, &mb, &mt, _i as int, 1); }
