@include base.inc
@file monoruby/src/builtins/marshal.rs
@verbatim
use vstd::slice::slice_subrange;
pub struct MonorubyErr { pub e: bool }
impl MonorubyErr { pub fn refused() -> MonorubyErr { MonorubyErr { e: true } } }
/// the two fields the reading of integers uses
pub struct MarshalReader<'a> { pub data: &'a [u8], pub pos: usize }

pub open spec fn signed(b: u8) -> int { if b < 128 { b as int } else { b - 256 } }
pub proof fn signed_is(b: u8) ensures (b as i8) as int == signed(b) { assert(b as i8 == if b < 128 { b as int } else { b - 256 }) by (bit_vector); }
pub open spec fn pow256(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 0x100 } else if n == 2 { 0x10000 } else if n == 3 { 0x1000000 } else { 0x100000000 } }
/// little-endian
pub open spec fn le(d: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { le(d, n - 1) + d[n - 1] * pow256(n - 1) } }
/// the integer the bytes at the front of `d` denote and how many they are, or None when cut short
pub open spec fn denoted(d: Seq<u8>) -> Option<(int, int)> {
    if d.len() == 0 { None } else {
        let b = signed(d[0]);
        if b == 0 { Some((0int, 1int)) } else if b > 4 { Some((b - 5, 1int)) } else if b < -4 { Some((b + 5, 1int)) }
        else {
            let n = if b > 0 { b } else { -b };
            if d.len() < n + 1 { None } else { Some((le(d.skip(1), n) - (if b > 0 { 0 } else { pow256(n) }), n + 1)) }
        }
    }
}
pub open spec fn cut(v: int, i: int) -> u8 { ((v / pow256(i)) % 256) as u8 }
pub open spec fn size(n: int) -> int {
    if -0x100 <= n <= 0xff { 1 } else if -0x10000 <= n <= 0xffff { 2 } else if -0x1000000 <= n <= 0xffffff { 3 } else { 4 }
}
/// the one encoding of `n`
pub open spec fn written(n: i32) -> Seq<u8> {
    if n == 0 { seq![0u8] } else if 0 < n <= 122 { seq![(n + 5) as u8] } else if -123 <= n < 0 { seq![(n - 5 + 256) as u8] }
    else {
        let v: int = if n > 0 { n as int } else { n + 0x100000000 };
        seq![(if n > 0 { size(n as int) } else { 256 - size(n as int) }) as u8] + Seq::new(size(n as int) as nat, |i: int| cut(v, i))
    }
}
pub proof fn le_eq(a: Seq<u8>, b: Seq<u8>, n: int)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures le(a, n) == le(b, n)
    decreases n
{ if n > 0 { le_eq(a, b, n - 1); } }
/// what is written is read back whatever follows, consuming all of it and no more
pub proof fn reads_back(n: i32, t: Seq<u8>)
    ensures denoted(written(n) + t) == Some((n as int, written(n).len() as int)), 1 <= written(n).len() <= 5
{
    let w = written(n);
    let d = w + t;
    if n == 0 || -123 <= n <= 122 {
        assert(d[0] == w[0]);
    } else {
        let v: int = if n > 0 { n as int } else { n + 0x100000000 };
        let k = size(n as int);
        let s = Seq::new(k as nat, |i: int| cut(v, i));
        assert(d[0] == w[0]);
        assert forall|i: int| 0 <= i < k implies d.skip(1)[i] == s[i] by {}
        le_eq(d.skip(1), s, k);
        reveal_with_fuel(le, 5);
        assert(s[0] == cut(v, 0));
        if k > 1 { assert(s[1] == cut(v, 1)); }
        if k > 2 { assert(s[2] == cut(v, 2)); }
        if k > 3 { assert(s[3] == cut(v, 3)); }
    }
}
/// no shorter bytes denote it
pub proof fn shortest(n: i32, d: Seq<u8>)
    requires denoted(d) matches Some((v, k)) && v == n
    ensures denoted(d) matches Some((v, k)) && written(n).len() <= k
{
    reveal_with_fuel(le, 5);
}
pub proof fn or_byte(r: u32, b: u8, i: u32)
    requires i < 4, r < pow256(i as int)
    ensures (r | ((b as u32) << ((i * 8) as usize))) == r + b * pow256(i as int), r + b * pow256(i as int) < pow256(i + 1)
{
    let x = b as u32;
    if i == 0 { assert(r | (x << 0usize) == r + x) by (bit_vector) requires r < 1, x < 256; }
    else if i == 1 { assert(r | (x << 8usize) == r + x * 0x100) by (bit_vector) requires r < 0x100, x < 256; }
    else if i == 2 { assert(r | (x << 16usize) == r + x * 0x10000) by (bit_vector) requires r < 0x10000, x < 256; }
    else { assert(r | (x << 24usize) == r + x * 0x1000000) by (bit_vector) requires r < 0x1000000, x < 256; }
}
/// the same over bytes of ones
pub proof fn set_byte(r: u32, b: u8, i: u32)
    requires i < 4, r >= 0x100000000 - pow256(i as int)
    ensures ((r & !(0xffu32 << ((i * 8) as usize))) | ((b as u32) << ((i * 8) as usize))) == r + b * pow256(i as int) - 255 * pow256(i as int),
        r + b * pow256(i as int) - 255 * pow256(i as int) >= 0x100000000 - pow256(i + 1)
{
    let x = b as u32;
    if i == 0 { assert(((r & !(0xffu32 << 0usize)) | (x << 0usize)) == r - 255 + x) by (bit_vector) requires r == 0xffffffff, x < 256; }
    else if i == 1 { assert(((r & !(0xffu32 << 8usize)) | (x << 8usize)) == r - 0xff00 + x * 0x100) by (bit_vector) requires r >= 0xffffff00, x < 256; }
    else if i == 2 { assert(((r & !(0xffu32 << 16usize)) | (x << 16usize)) == r - 0xff0000 + x * 0x10000) by (bit_vector) requires r >= 0xffff0000, x < 256; }
    else { assert(((r & !(0xffu32 << 24usize)) | (x << 24usize)) == r - 0xff000000 + x * 0x1000000) by (bit_vector) requires r >= 0xff000000, x < 256; }
}
/// `i32::try_from`
pub fn to_i32(x: u32) -> (r: Result<i32, MonorubyErr>) ensures x <= i32::MAX ==> r == Ok::<i32, MonorubyErr>(x as i32), x > i32::MAX ==> r is Err {
    if x <= 0x7fffffff { Ok(x as i32) } else { Err(MonorubyErr::refused()) }
}
/// `n.to_le_bytes()`
pub fn le_bytes(n: i32) -> (r: Vec<u8>) ensures r@.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] r@[i] == cut(if n >= 0 { n as int } else { n + 0x100000000 }, i) {
    let v = n as u32;
    assert(v as int == if n >= 0 { n as int } else { n + 0x100000000 }) by { assert(n as u32 == if n >= 0 { n as int } else { n + 0x100000000 }) by (bit_vector); }
    let mut r: Vec<u8> = Vec::new();
    r.push((v % 256) as u8); r.push((v / 0x100 % 256) as u8); r.push((v / 0x10000 % 256) as u8); r.push((v / 0x1000000 % 256) as u8);
    r
}
/// `buf.extend_from_slice(&bytes[..n])`
pub fn put_first(buf: &mut Vec<u8>, b: &Vec<u8>, n: usize) requires n <= b@.len() ensures final(buf)@ == old(buf)@ + b@.take(n as int) {
    let ghost a0 = buf@;
    let mut i: usize = 0;
    while i < n invariant i <= n <= b@.len(), buf@ == a0 + b@.take(i as int) decreases n - i {
        buf.push(b[i]);
        i = i + 1;
        proof { assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1])); assert(buf@ =~= a0 + b@.take(i as int)); }
    }
}
@end
@gsub MonorubyErr :: argumenterr ( $x ) ==> MonorubyErr::refused()
@gsub -> Result < $t > ==> -> Result<$t, MonorubyErr>

@impl impl < 'a > MarshalReader < 'a > => impl<'a> MarshalReader<'a>
@fn read_byte
    requires old(self).pos <= old(self).data@.len()
    ensures final(self).data == old(self).data, final(self).pos <= final(self).data@.len(),
        old(self).pos < old(self).data@.len() ==> r == Ok::<u8, MonorubyErr>(old(self).data@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
        old(self).pos == old(self).data@.len() ==> r is Err && final(self).pos == old(self).pos

@fn read_bytes
    requires old(self).pos <= old(self).data@.len()
    ensures final(self).data == old(self).data, final(self).pos <= final(self).data@.len(),
        n <= old(self).data@.len() - old(self).pos ==> r is Ok && (r->Ok_0)@ == old(self).data@.subrange(old(self).pos as int, old(self).pos + n) && final(self).pos == old(self).pos + n,
        n > old(self).data@.len() - old(self).pos ==> r is Err && final(self).pos == old(self).pos
@sub & self . data [ self . pos .. self . pos + n ] ==> slice_subrange(self.data, self.pos, self.pos + n)

@fn read_fixnum
    requires old(self).pos <= old(self).data@.len()
    ensures final(self).data == old(self).data, old(self).pos <= final(self).pos <= final(self).data@.len(),
        match denoted(old(self).data@.skip(old(self).pos as int)) {
            None => r is Err,
            Some((v, n)) => if i32::MIN <= v <= i32::MAX { r is Ok && r->Ok_0 == v && final(self).pos == old(self).pos + n } else { r is Err },
        }
@attr #[verifier::loop_isolation(false)]
@sub i32 :: try_from ( result ) . map_err ( $f ) ==> to_i32(result)
@sub ! ( 0xff << ( i * 8 ) ) ==> !(0xffu32 << (i * 8))
@enter
    let ghost d = self.data@.skip(self.pos as int);
    let ghost p0 = self.pos as int;
    proof { if d.len() > 0 { signed_is(d[0]); assert(d[0] == self.data@[p0]); } }
@loop 1
    invariant nbytes <= 4, bytes@.len() == nbytes, result == le(bytes@, i as int), result < pow256(i as int)
@loopenter 1
    proof { or_byte(result, bytes@[i as int], i as u32); }
@loopexit 1
    proof { assert forall|j: int| 0 <= j < nbytes implies bytes@[j] == d.skip(1)[j] by {} le_eq(bytes@, d.skip(1), nbytes as int); }
@loop 2
    invariant nbytes <= 4, bytes@.len() == nbytes, result == le(bytes@, i as int) + 0x100000000 - pow256(i as int), result >= 0x100000000 - pow256(i as int)
@loopenter 2
    proof { set_byte(result, bytes@[i as int], i as u32); }
@loopexit 2
    proof {
        assert forall|j: int| 0 <= j < nbytes implies bytes@[j] == d.skip(1)[j] by {} le_eq(bytes@, d.skip(1), nbytes as int);
        assert(result as i32 == if result < 0x80000000 { result as int } else { result - 0x100000000 }) by (bit_vector);
    }
@endimpl

@fn marshal_write_fixnum
    ensures final(buf)@ == old(buf)@ + written(n), forall|t: Seq<u8>| denoted(#[trigger] (written(n) + t)) == Some((n as int, written(n).len() as int))
@sub n . to_le_bytes ( ) ==> le_bytes(n)
@sub buf . extend_from_slice ( & bytes [ .. len as usize ] ) ==> put_first(buf, &bytes, len as usize)
@enter
    let ghost b0 = buf@;
    proof { assert forall|t: Seq<u8>| denoted(#[trigger] (written(n) + t)) == Some((n as int, written(n).len() as int)) by { reads_back(n, t); }
        let x = (n - 5) as i32; assert(-128 <= x < 0 ==> x as u8 == (x + 256) as u8) by (bit_vector); }
@before buf . push ( ( - len ) as u8 ) ;
    proof { let y = (-len) as i32; assert(-128 <= y < 0 ==> y as u8 == (y + 256) as u8) by (bit_vector); }
@exit
    proof { assert(buf@ =~= b0 + written(n)); }
