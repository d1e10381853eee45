// BER compressed integers and the byte cursor: monoruby/src/value/rvalue/string/pack.rs
@include base.inc
@verbatim
use vstd::slice::slice_subrange;
pub struct MonorubyErr { pub e: bool }
impl MonorubyErr { pub fn refused() -> MonorubyErr { MonorubyErr { e: true } } }
#[verifier::external_body]
pub struct BigInt { _p: u64 }
impl BigInt { pub uninterp spec fn v(&self) -> int; }
#[verifier::external_body]
pub struct Value { _p: u64 }
/// the integer a value is or counts as
pub uninterp spec fn int_of(v: Value) -> int;
pub enum RV<'a> { BigInt(&'a BigInt), Other }
pub struct Executor;
pub struct Globals;
impl Value {
    #[verifier::external_body]
    pub fn unpack(&self) -> (r: RV<'_>) ensures r matches RV::BigInt(b) ==> int_of(*self) == b.v() { unimplemented!() }
    /// to_int may run any code and fail; what it answers is what the value counts as
    #[verifier::external_body]
    pub fn coerce_to_int_i64(&self, vm: &mut Executor, globals: &mut Globals) -> (r: Result<i64, MonorubyErr>) ensures r matches Ok(i) ==> int_of(*self) == i { unimplemented!() }
    #[verifier::external_body]
    pub fn bigint(b: BigInt) -> (r: Value) ensures int_of(r) == b.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn integer_from_u64(n: u64) -> (r: Value) ensures int_of(r) == n { unimplemented!() }
}
#[verifier::external_body]
pub fn big_of8(n: u8) -> (r: BigInt) ensures r.v() == n { unimplemented!() }
#[verifier::external_body]
pub fn big_of64(n: u64) -> (r: BigInt) ensures r.v() == n { unimplemented!() }
#[verifier::external_body]
pub fn big_clone(b: &BigInt) -> (r: BigInt) ensures r.v() == b.v() { unimplemented!() }
#[verifier::external_body]
pub fn big_is_negative(b: &BigInt) -> (r: bool) ensures r == (b.v() < 0) { unimplemented!() }
#[verifier::external_body]
pub fn big_is_zero(b: &BigInt) -> (r: bool) ensures r == (b.v() == 0) { unimplemented!() }
/// the low byte of a & b, defined here for masks of the form 2^k - 1
#[verifier::external_body]
pub fn big_low(a: &BigInt, b: &BigInt) -> (r: u8) requires a.v() >= 0, b.v() == 0x7f ensures r == a.v() % 128 { unimplemented!() }
/// a >>= d
#[verifier::external_body]
pub fn big_drop(a: &mut BigInt, d: u32) requires old(a).v() >= 0 ensures final(a).v() == old(a).v() / p2(d as int) { unimplemented!() }
/// (a << d) | b where b lies below
#[verifier::external_body]
pub fn big_join(a: BigInt, d: u32, b: BigInt) -> (r: BigInt) requires a.v() >= 0, 0 <= b.v() < p2(d as int) ensures r.v() == a.v() * p2(d as int) + b.v() { unimplemented!() }
#[verifier::external_body]
pub fn turn(v: &mut Vec<u8>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body]
pub fn append(v: &mut Vec<u8>, b: &Vec<u8>) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b) }
pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
/// the groups of seven bits above the last one, most significant first, each marked as continued
pub open spec fn high(m: int) -> Seq<u8> decreases m { if m <= 0 { Seq::empty() } else { high(m / 128).push((m % 128 + 128) as u8) } }
/// the encoding of n
pub open spec fn ber(n: int) -> Seq<u8> { high(n / 128).push((n % 128) as u8) }
/// the integer the front of s denotes when acc has been read, and what follows it
pub open spec fn readber(s: Seq<u8>, acc: int) -> Option<(int, Seq<u8>)>
    decreases s.len()
{
    if s.len() == 0 { None } else if s[0] < 128 { Some((acc * 128 + s[0], s.drop_first())) } else { readber(s.drop_first(), acc * 128 + (s[0] - 128)) }
}
proof fn read_high(m: int, t: Seq<u8>)
    requires m >= 0
    ensures readber(high(m) + t, 0) == readber(t, m)
    decreases m
{
    if m == 0 { assert(high(m) + t =~= t); } else {
        let x = (m % 128 + 128) as u8;
        let u = seq![x] + t;
        assert(high(m) + t =~= high(m / 128) + u);
        read_high(m / 128, u);
        assert(u.drop_first() =~= t);
        assert((m / 128) * 128 + (x - 128) == m);
    }
}
/// what is written is read back, and nothing of what follows is touched
pub proof fn ber_reads_back(n: int, t: Seq<u8>)
    requires n >= 0
    ensures readber(ber(n) + t, 0) == Some((n, t))
{
    let x = (n % 128) as u8;
    let u = seq![x] + t;
    assert(ber(n) + t =~= high(n / 128) + u);
    read_high(n / 128, u);
    assert(u.drop_first() =~= t);
}
/// it starts with no idle group, so it is the shortest
pub proof fn ber_starts(n: int)
    requires n >= 0
    ensures ber(n).len() > 0, ber(n).len() > 1 ==> ber(n)[0] > 128, forall|i: int| 0 <= i < ber(n).len() ==> (#[trigger] ber(n)[i] < 128 <==> i == ber(n).len() - 1)
{ high_starts(n / 128); }
proof fn high_starts(m: int)
    requires m >= 0
    ensures high(m).len() > 0 ==> high(m)[0] > 128, forall|i: int| 0 <= i < high(m).len() ==> #[trigger] high(m)[i] >= 128
    decreases m
{ if m > 0 { high_starts(m / 128); } }
proof fn low7(v: u64)
    ensures v & 0x7f == v % 128, v >> 7 == v / 128, ((v & 0x7f) as u8) | 0x80 == (v % 128 + 128) as u8, (v & 0x7f) as u8 == (v % 128) as u8
{
    assert(v & 0x7f == v % 128 && v >> 7 == v / 128 && ((v & 0x7f) as u8) | 0x80 == add((v & 0x7f) as u8, 128) && (v & 0x7f) as u8 <= 127) by (bit_vector);
}
pub open spec fn so_far(big: Option<BigInt>, val: u64) -> int { match big { Some(b) => b.v(), None => val as int } }
proof fn rev_push(a: Seq<u8>, x: u8) ensures a.push(x).reverse() == seq![x] + a.reverse() { assert(a.push(x).reverse() =~= seq![x] + a.reverse()); }
impl<'a> ByteIter<'a> {
    pub open spec fn wf(&self) -> bool { self.i <= self.slice@.len() }
    /// the bytes still to come
    pub open spec fn rest(&self) -> Seq<u8> { self.slice@.subrange(self.i as int, self.slice@.len() as int) }
}
@end
@file monoruby/src/value/rvalue/string/pack.rs
@item struct ByteIter
@impl impl < 'a > ByteIter < 'a >
@fn new id=ByteIter::new
    ensures r.wf(), r.rest() == slice@, r.slice == slice
@enter
    proof { assert(slice@.subrange(0, slice@.len() as int) =~= slice@); }
@fn next id=ByteIter::next
    requires old(self).wf()
    ensures final(self).wf(), final(self).slice == old(self).slice,
        match r { Some(b) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).i == old(self).i }
@fn is_empty id=ByteIter::is_empty
    requires self.wf()
    ensures r == (self.rest().len() == 0)
@fn remaining id=ByteIter::remaining
    requires self.wf()
    ensures r@ == self.rest()
@fn advance id=ByteIter::advance
    requires old(self).wf(), old(self).i + n <= usize::MAX
    ensures final(self).wf(), final(self).slice == old(self).slice, final(self).rest() == old(self).rest().skip(if n <= old(self).rest().len() { n as int } else { old(self).rest().len() as int })
@fn take id=ByteIter::take
    requires old(self).wf(), old(self).i + n <= usize::MAX
    ensures final(self).wf(), final(self).slice == old(self).slice, r@ + final(self).rest() == old(self).rest(), r@.len() == (if n <= old(self).rest().len() { n as int } else { old(self).rest().len() as int })
@fn back id=ByteIter::back
    requires old(self).wf()
    ensures final(self).wf(), final(self).slice == old(self).slice, r is Some <==> old(self).i > 0, r is None ==> final(self).i == old(self).i, r is Some ==> final(self).i == old(self).i - 1
@endimpl
@fn ber_encode_bigint
    requires val.v() >= 0
    ensures final(buf)@ == old(buf)@ + ber(val.v())
@sub val : & num :: BigInt ==> val: &BigInt
@sub use num :: { ToPrimitive , Zero } ; ==> ;
@sub num :: BigInt :: from ( 0x7Fu8 ) ==> big_of8(0x7Fu8)
@sub val . clone ( ) ==> big_clone(val)
@gsub ( & v & & mask ) . to_u8 ( ) . unwrap ( ) ==> big_low(&v, &mask)
@gsub v >>= 7u32 ==> big_drop(&mut v, 7u32)
@sub v . is_zero ( ) ==> big_is_zero(&v)
@sub tmp . reverse ( ) ==> turn(&mut tmp)
@sub buf . extend_from_slice ( & tmp ) ==> append(buf, &tmp)
@enter
    proof { reveal_with_fuel(p2, 9); }
@loop 1
    invariant v.v() >= 0, mask.v() == 0x7f, p2(7) == 128, high(v.v()) + tmp@.reverse() == ber(val.v())
    decreases v.v()
@loopenter 1
    let ghost (v0, t0) = (v.v(), tmp@);
@loopend 1
    proof {
        let x = (v0 % 128) as u8;
        assert(x | 0x80 == add(x, 128)) by (bit_vector) requires x < 128;
        rev_push(t0, (v0 % 128 + 128) as u8);
        assert(high(v0 / 128).push((v0 % 128 + 128) as u8) + t0.reverse() =~= high(v0 / 128) + (seq![(v0 % 128 + 128) as u8] + t0.reverse()));
    }
@lastbefore while
    proof { assert(tmp@.reverse() =~= seq![(val.v() % 128) as u8]); assert(high(v.v()) + tmp@.reverse() =~= ber(val.v())); }
@before turn (
    proof { assert(high(0) + tmp@.reverse() =~= tmp@.reverse()); }
@fn ber_encode
    ensures final(buf)@ == old(buf)@ + ber(val as int)
@sub tmp . reverse ( ) ==> turn(&mut tmp)
@sub buf . extend_from_slice ( & tmp ) ==> append(buf, &tmp)
@enter
    let ghost n0 = val;
    proof { low7(val); assert(val == 0 ==> ber(0) =~= seq![0u8]); assert(val == 0 ==> old(buf)@.push(0) =~= old(buf)@ + seq![0u8]); }
@loop 1
    invariant high(val as int) + tmp@.reverse() == ber(n0 as int)
    decreases val
@loopenter 1
    let ghost (v0, t0) = (val, tmp@);
    proof { low7(val); }
@loopend 1
    proof {
        rev_push(t0, (v0 % 128 + 128) as u8);
        assert(high(v0 as int / 128).push((v0 % 128 + 128) as u8) + t0.reverse() =~= high(v0 as int / 128) + (seq![(v0 % 128 + 128) as u8] + t0.reverse()));
    }
@lastbefore while
    proof { assert(tmp@.reverse() =~= seq![(n0 % 128) as u8]); assert(high(val as int) + tmp@.reverse() =~= ber(n0 as int)); }
@before turn (
    proof { assert(high(0) + tmp@.reverse() =~= tmp@.reverse()); }
@fn ber_decode
    requires old(b).wf()
    ensures final(b).wf(), final(b).slice == old(b).slice,
        match r { Ok(v) => readber(old(b).rest(), 0) == Some((int_of(v), final(b).rest())), Err(_) => readber(old(b).rest(), 0) is None && final(b).rest().len() == 0 }
@gsub MonorubyErr :: argumenterr ( $s ) ==> MonorubyErr::refused()
@gsub -> Result < $t > ==> -> Result<$t, MonorubyErr>
@sub Option < num :: BigInt > ==> Option<BigInt>
@sub ( v << $d ) | num :: BigInt :: from ( bits ) ==> big_join(v, $d, big_of8(bits))
@sub ( num :: BigInt :: from ( val ) << $d ) | num :: BigInt :: from ( bits ) ==> big_join(big_of64(val), $d, big_of8(bits))
@enter
    proof { reveal_with_fuel(p2, 9); }
@loop 1
    invariant b.wf(), b.slice == old(b).slice, p2(7) == 128, readber(old(b).rest(), 0) == readber(b.rest(), so_far(big, val)), so_far(big, val) >= 0
    decreases b.rest().len()
@loopenter 1
    let ghost a0 = so_far(big, val);
@after let bits = byte & 0x7F ;
    proof {
        assert((byte & 0x7f) == byte % 128 && (byte & 0x80 == 0 <==> byte < 128)) by (bit_vector);
        assert(val >> 57 == 0 ==> ((val << 7) | (bits as u64)) == add(mul(val, 128), bits as u64) && val < 0x200_0000_0000_0000) by (bit_vector) requires bits < 128;
    }
@fn ber_encode_value
    ensures match r { Ok(_) => int_of(value) >= 0 && final(buf)@ == old(buf)@ + ber(int_of(value)), Err(_) => final(buf)@ == old(buf)@ }
@sub use num :: Signed ; ==> ;
@sub big . is_negative ( ) ==> big_is_negative(big)
