// The open-addressing table underneath: hashbrown/src/raw/mod.rs (RawTableInner), hashbrown/src/control/tag.rs.
// Control memory is a list of tags instead of a raw pointer; the elements, with the hash each was filed
// under, are a ghost list.  Group and BitMask carry the contracts proved for the scanning code (C13).
@include base.inc
@verbatim
use vstd::arithmetic::power2::*;
use vstd::multiset::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
global size_of usize == 8;
/// 1, 2, 4, 8, …
pub open spec fn p2(n: int) -> bool { exists|k: nat| n == pow2(k) }
pub proof fn mask_mod(x: usize, n: usize)
    requires p2(n as int)
    ensures n > 0, (x & (n - 1) as usize) == x % n, (x & (n - 1) as usize) < n
{
    let k = choose|k: nat| n == pow2(k);
    lemma_pow2_pos(k);
    if k >= 64 { if k > 64 { lemma_pow2_strictly_increases(64, k); } lemma2_to64_rest(); assert(pow2(64) == 0x1_0000_0000_0000_0000); assert(false); }
    vstd::bits::lemma_usize_low_bits_mask_is_mod(x, k);
}
pub open spec fn tri(k: nat) -> nat decreases k { if k == 0 { 0 } else { tri((k - 1) as nat) + k } }
pub proof fn tri2(k: nat) ensures 2 * tri(k) == k * (k + 1) decreases k
{ if k > 0 { tri2((k - 1) as nat); assert(2 * tri(k) == (k - 1) * k + 2 * k); assert((k - 1) * k + 2 * k == k * (k + 1)) by (nonlinear_arith); } else { assert(0nat * (0nat + 1) == 0) by (nonlinear_arith); } }
/// a power of two dividing an odd multiple divides the other factor
pub proof fn odd_cancel(a: int, b: int, e: nat)
    requires a >= 0, b % 2 == 1, (a * b) % (pow2(e) as int) == 0
    ensures a % (pow2(e) as int) == 0
    decreases e
{
    lemma_pow2_pos(e);
    if e == 0 { lemma2_to64(); } else {
        let m = pow2((e - 1) as nat) as int;
        lemma_pow2_unfold(e);
        lemma_pow2_pos((e - 1) as nat);
        let q = (a * b) / (2 * m);
        lemma_fundamental_div_mod(a * b, 2 * m);
        assert(a * b == 2 * (m * q)) by { lemma_mul_is_associative(2, m, q); };
        // a is even
        let hb = b / 2;
        assert(b == 2 * hb + 1);
        assert(a * b == 2 * (a * hb) + a) by (nonlinear_arith) requires b == 2 * hb + 1;
        assert(a % 2 == 0);
        let ha = a / 2;
        assert(a == 2 * ha);
        assert(a * b == 2 * (ha * b)) by (nonlinear_arith) requires a == 2 * ha;
        assert(ha * b == m * q);
        assert((m * q) % m == 0) by { lemma_mod_multiples_basic(q, m); lemma_mul_is_commutative(m, q); };
        odd_cancel(ha, b, (e - 1) as nat);
        let z = ha / m;
        lemma_fundamental_div_mod(ha, m);
        assert(a == (2 * m) * z) by (nonlinear_arith) requires a == 2 * ha, ha == m * z;
        lemma_mod_multiples_basic(z, 2 * m);
        lemma_mul_is_commutative(z, 2 * m);
    }
}
/// triangular numbers below m are distinct modulo m
pub proof fn tri_distinct(i: nat, j: nat, e: nat)
    requires i < j < pow2(e), tri(i) % pow2(e) == tri(j) % pow2(e)
    ensures false
{
    lemma_pow2_pos(e);
    let m = pow2(e) as int;
    tri2(i); tri2(j);
    let d = (j - i) as int;
    let s = (j + i + 1) as int;
    assert(d * s == 2 * (tri(j) - tri(i))) by (nonlinear_arith) requires d == j - i, s == j + i + 1, 2 * tri(i) == i * (i + 1), 2 * tri(j) == j * (j + 1);
    let qi = tri(i) as int / m; let qj = tri(j) as int / m;
    lemma_fundamental_div_mod(tri(i) as int, m);
    lemma_fundamental_div_mod(tri(j) as int, m);
    assert(tri(j) - tri(i) == m * (qj - qi)) by { lemma_mul_is_distributive_sub(m, qj, qi); };
    assert(d * s == (2 * m) * (qj - qi)) by (nonlinear_arith) requires d * s == 2 * (tri(j) - tri(i)), tri(j) - tri(i) == m * (qj - qi);
    lemma_pow2_unfold(e + 1);
    assert(pow2(e + 1) == 2 * m);
    assert((d * s) % (2 * m) == 0) by { lemma_mul_is_commutative(2 * m, qj - qi); lemma_mod_multiples_basic(qj - qi, 2 * m); };
    if d % 2 == 0 {
        assert(s % 2 == 1);
        odd_cancel(d, s, e + 1);
        lemma_small_mod(d as nat, (2 * m) as nat);
    } else {
        lemma_mul_is_commutative(d, s);
        odd_cancel(s, d, e + 1);
        lemma_small_mod(s as nat, (2 * m) as nat);
    }
}
/// an injective sequence of m residues below m hits every one
pub proof fn onto(s: Seq<int>, m: nat, g: int)
    requires s.len() == m, forall|i: int| 0 <= i < m ==> 0 <= #[trigger] s[i] < m, forall|i: int, j: int| 0 <= i < j < m ==> s[i] != s[j], 0 <= g < m
    ensures exists|i: int| 0 <= i < m && #[trigger] s[i] == g
{
    let r = vstd::set_lib::set_int_range(0, m as int);
    vstd::set_lib::lemma_int_range(0, m as int);
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    let t = s.to_set();
    assert(t.subset_of(r)) by { assert forall|x: int| t.contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; } };
    vstd::set_lib::lemma_subset_equality(t, r);
    assert(t.contains(g));
}
pub proof fn tri_onto(e: nat, g: int) -> (k: nat)
    requires 0 <= g < pow2(e)
    ensures k < pow2(e), tri(k) % pow2(e) == g
{
    let m = pow2(e);
    lemma_pow2_pos(e);
    let s = Seq::new(m, |i: int| tri(i as nat) as int % m as int);
    assert forall|i: int, j: int| 0 <= i < j < m implies s[i] != s[j] by { if s[i] == s[j] { tri_distinct(i as nat, j as nat, e); } }
    onto(s, m, g);
    let i = choose|i: int| 0 <= i < m && #[trigger] s[i] == g;
    i as nat
}

/// index - 16 around the ring
pub proof fn sub_mod(index: usize, n: usize)
    requires p2(n as int), 0 < n <= 0x4000_0000_0000_0000, index < n
    ensures n >= 16 && index >= 16 ==> index.wrapping_sub(16) % n == index - 16, n >= 16 && index < 16 ==> index.wrapping_sub(16) % n == index + n - 16, n < 16 ==> index.wrapping_sub(16) % n == index
{
    let k = choose|k: nat| n == pow2(k);
    lemma_pow2_pos(k);
    lemma2_to64_rest();
    if k >= 64 { if k > 64 { lemma_pow2_strictly_increases(64, k); } }
    lemma_pow2_adds(k, (64 - k) as nat);
    let q = pow2((64 - k) as nat) as int;
    lemma_pow2_pos((64 - k) as nat);
    assert(n * q == 0x1_0000_0000_0000_0000);
    let x = index.wrapping_sub(16) as int;
    if index >= 16 {
        assert(x == index - 16);
        if n >= 16 { lemma_small_mod((index - 16) as nat, n as nat); }
    } else {
        assert(x == index - 16 + 0x1_0000_0000_0000_0000);
        if n >= 16 {
            assert(x == n * (q - 1) + (index + n - 16)) by (nonlinear_arith) requires n * q == 0x1_0000_0000_0000_0000, x == index - 16 + 0x1_0000_0000_0000_0000;
            lemma_fundamental_div_mod_converse(x, n as int, q - 1, index + n - 16);
        } else {
            p2_small(n as int);
            let z = 16int / n as int;
            assert(n * z == 16) by { assert(n == 1 ==> z == 16); assert(n == 2 ==> z == 8); assert(n == 4 ==> z == 4); assert(n == 8 ==> z == 2); };
            assert(x == n * (q - z) + index) by (nonlinear_arith) requires n * q == 0x1_0000_0000_0000_0000, n * z == 16, x == index - 16 + 0x1_0000_0000_0000_0000;
            lemma_fundamental_div_mod_converse(x, n as int, q - z, index as int);
        }
    }
}
// ---- windows of a ring of n buckets -------------------------------------------------------------
pub open spec fn pos(n: int, h: int, k: nat) -> int { (h + 16 * tri(k)) % n }
pub open spec fn inwin(n: int, p: int, i: int) -> bool { (i - p) % n < 16 }
pub open spec fn groups(n: int) -> int { if n < 16 { 1 } else { n / 16 } }
pub proof fn p2_split(n: int) -> (e: nat)
    requires p2(n), n >= 16
    ensures n == 16 * pow2(e), n / 16 == pow2(e), n % 16 == 0
{
    let k = choose|k: nat| n == pow2(k);
    lemma2_to64();
    if k < 4 { lemma_pow2_strictly_increases(k, 4); }
    lemma_pow2_adds(4, (k - 4) as nat);
    (k - 4) as nat
}
pub proof fn p2_small(n: int)
    requires p2(n), n <= 16
    ensures n == 1 || n == 2 || n == 4 || n == 8 || n == 16, 16int % n == 0
{
    let k = choose|k: nat| n == pow2(k);
    lemma2_to64();
    if k > 4 { lemma_pow2_strictly_increases(4, k); }
    assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4);
}
/// every bucket is in one of the windows a probe visits
pub proof fn cover(n: int, h: int, i: int) -> (k: nat)
    requires p2(n), 0 <= i < n, h >= 0
    ensures k < groups(n), inwin(n, pos(n, h, k), i)
{
    if n < 16 {
        lemma_mod_bound(i - pos(n, h, 0), n);
        0
    } else {
        let e = p2_split(n);
        let m = n / 16;
        let d = (i - h) % n;
        let a = (i - h) / n;
        lemma_fundamental_div_mod(i - h, n);
        lemma_mod_bound(i - h, n);
        let g = d / 16;
        let r = d % 16;
        assert(g < m);
        let k = tri_onto(e, g);
        let t = tri(k) as int;
        let q = t / m;
        lemma_fundamental_div_mod(t, m);
        let b = (h + 16 * t) / n;
        lemma_fundamental_div_mod(h + 16 * t, n);
        let p = pos(n, h, k);
        assert(i - p == n * (a + b - q) + r) by (nonlinear_arith)
            requires i - h == n * a + d, h + 16 * t == n * b + p, t == m * q + g, n == 16 * m, d == 16 * g + r;
        lemma_fundamental_div_mod_converse(i - p, n, a + b - q, r);
        k
    }
}
/// one step of the probe
pub proof fn step(n: int, h: int, k: nat)
    requires n > 0, h >= 0
    ensures pos(n, h, k + 1) == (pos(n, h, k) + 16 * (k + 1)) % n, 0 <= pos(n, h, k) < n, pos(n, h, 0) == h % n
{
    lemma_mod_bound(h + 16 * tri(k), n);
    assert(tri(k + 1) == tri(k) + k + 1);
    lemma_add_mod_noop(h + 16 * tri(k), 16 * (k + 1) as int, n);
    lemma_mod_twice(h + 16 * tri(k), n);
    lemma_add_mod_noop(pos(n, h, k), 16 * (k + 1) as int, n);
    assert(tri(0) == 0);
}
@end
@file hashbrown/src/control/tag.rs
@item struct Tag
@pre
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@verbatim
pub open spec fn e_() -> Tag { Tag(0xff) }
pub open spec fn d_() -> Tag { Tag(0x80) }
pub open spec fn full(t: Tag) -> bool { t.0 < 0x80 }
/// the tag of a hash: its top seven bits
pub open spec fn tagof(h: u64) -> Tag { Tag((h >> 57) as u8) }
pub proof fn tag_full(h: u64) ensures full(tagof(h)) { assert((h >> 57) as u8 == (h >> 57) && (h >> 57) < 0x80) by (bit_vector); }
pub assume_specification[ <Tag as PartialEq>::eq ](a: &Tag, b: &Tag) -> (r: bool) ensures r == (*a == *b);
@end
@impl impl Tag
@item const EMPTY
@item const DELETED
@fn is_full
    ensures r == full(self)
@enter
    proof { let x = self.0; assert((x & 0x80 == 0) == (x < 0x80)) by (bit_vector); }
@fn is_special
    ensures r == !full(self)
@enter
    proof { let x = self.0; assert((x & 0x80 == 0) == (x < 0x80)) by (bit_vector); }
@fn special_is_empty
    requires self == e_() || self == d_()
    ensures r == (self == e_())
@enter
    proof { assert(0xffu8 & 1 != 0 && 0x80u8 & 1 == 0) by (bit_vector); }
@fn full id=Tag::full
    ensures r == tagof(hash)
@sub const MIN_HASH_LEN : usize = if mem :: size_of :: < usize > ( ) < mem :: size_of :: < u64 > ( ) { mem :: size_of :: < usize > ( ) } else { mem :: size_of :: < u64 > ( ) } ; ==> let MIN_HASH_LEN: usize = 8;
@enter
    proof { assert(((hash >> 57) & 0x7f) as u8 == (hash >> 57) as u8) by (bit_vector); }
@endimpl
@verbatim
// ---- control memory -----------------------------------------------------------------------------
/// n buckets, then copies so that 16 bytes can be read from any bucket
pub open spec fn mirrored(c: Seq<Tag>, n: int) -> bool {
    &&& n > 1 && c.len() == n + 16
    &&& n >= 16 ==> forall|i: int| 0 <= i < 16 ==> #[trigger] c[n + i] == c[i]
    &&& n < 16 ==> (forall|i: int| 0 <= i < n ==> #[trigger] c[16 + i] == c[i]) && (forall|j: int| n <= j < 16 ==> #[trigger] c[j] == e_())
}
pub open spec fn ctl(c: Seq<Tag>, n: int) -> bool {
    &&& p2(n) && n <= 0x4000_0000_0000_0000
    &&& forall|i: int| 0 <= i < c.len() ==> full(#[trigger] c[i]) || c[i] == e_() || c[i] == d_()
    &&& if n == 1 { c.len() == 16 && forall|i: int| 0 <= i < 16 ==> #[trigger] c[i] == e_() } else { mirrored(c, n) }
}
pub proof fn win_byte(c: Seq<Tag>, n: int, p: int, j: int)
    requires ctl(c, n), 0 <= p < n, 0 <= j < 16
    ensures 0 <= p + j < c.len(), 0 <= (p + j) % n < n, n >= 16 ==> c[p + j] == c[(p + j) % n], c[p + j] != c[(p + j) % n] ==> c[p + j] == e_()
{
    lemma_mod_bound(p + j, n);
    if n >= 16 {
        if p + j < n { lemma_small_mod((p + j) as nat, n as nat); } else {
            assert(c[n + (p + j - n)] == c[p + j - n]);
            lemma_fundamental_div_mod_converse(p + j, n, 1, p + j - n);
        }
    } else {
        p2_small(n);
        if p + j < n { lemma_small_mod((p + j) as nat, n as nat); } else if p + j >= 16 && n > 1 {
            assert(c[16 + (p + j - 16)] == c[p + j - 16]);
            let q = 16int / n;
            assert(n == 2 || n == 4 || n == 8);
            assert(p + j == n * q + (p + j - 16)) by { assert(n == 2 ==> q == 8); assert(n == 4 ==> q == 4); assert(n == 8 ==> q == 2); };
            lemma_fundamental_div_mod_converse(p + j, n, q, p + j - 16);
        }
    }
}
/// where a bucket of a window is read
pub open spec fn off(n: int, p: int, i: int) -> int { if n >= 16 { (i - p) % n } else if i >= p { i - p } else { 16 + i - p } }
pub proof fn win_at(c: Seq<Tag>, n: int, p: int, i: int)
    requires ctl(c, n), 0 <= p < n, 0 <= i < n, inwin(n, p, i)
    ensures 0 <= off(n, p, i) < 16, (p + off(n, p, i)) % n == i, c[p + off(n, p, i)] == c[i]
{
    let j = off(n, p, i);
    if n >= 16 {
        lemma_mod_bound(i - p, n);
        if i >= p { lemma_small_mod((i - p) as nat, n as nat); lemma_small_mod(i as nat, n as nat); } else {
            lemma_fundamental_div_mod_converse(i - p, n, -1, n + i - p);
            lemma_fundamental_div_mod_converse(p + j, n, 1, i);
        }
        win_byte(c, n, p, j);
    } else {
        p2_small(n);
        if i >= p { lemma_small_mod(i as nat, n as nat); } else {
            assert(c[16 + i] == c[i]);
            let q = 16int / n;
            assert(16 + i == n * q + i) by { assert(n == 2 ==> q == 8); assert(n == 4 ==> q == 4); assert(n == 8 ==> q == 2); };
            lemma_fundamental_div_mod_converse(16 + i, n, q, i);
        }
    }
}
pub proof fn small_empty(c: Seq<Tag>, n: int, p: int)
    requires ctl(c, n), 0 <= p < n, n < 16
    ensures 0 <= 15 - p < 16, c[p + (15 - p)] == e_()
{ p2_small(n); }
/// nothing in the window read at p is EMPTY / is EMPTY or DELETED
pub open spec fn noempty(c: Seq<Tag>, p: int) -> bool { forall|j: int| 0 <= j < 16 ==> #[trigger] c[p + j] != e_() }
pub open spec fn allfull(c: Seq<Tag>, p: int) -> bool { forall|j: int| 0 <= j < 16 ==> full(#[trigger] c[p + j]) }
/// bucket i is in the k-th window of hash h, and the windows before have no EMPTY
pub open spec fn placed_at(c: Seq<Tag>, n: int, h: int, i: int, k: nat) -> bool {
    k < groups(n) && inwin(n, pos(n, h, k), i) && forall|m: nat| m < k ==> noempty(c, #[trigger] pos(n, h, m))
}
pub open spec fn placed(c: Seq<Tag>, n: int, h: int, i: int) -> bool { exists|k: nat| #[trigger] placed_at(c, n, h, i, k) }
/// kinds of control byte: 0 full, 1 DELETED, 2 EMPTY, 3 not EMPTY
pub open spec fn is_(w: int, t: Tag) -> bool { if w == 0 { full(t) } else if w == 1 { t == d_() } else if w == 2 { t == e_() } else { t != e_() } }
pub open spec fn count(c: Seq<Tag>, n: int, w: int) -> int decreases n { if n <= 0 { 0 } else { count(c, n - 1, w) + b2i(is_(w, c[n - 1])) } }
pub open spec fn nfull(c: Seq<Tag>, n: int) -> int { count(c, n, 0) }
pub open spec fn ndel(c: Seq<Tag>, n: int) -> int { count(c, n, 1) }
pub open spec fn nempty(c: Seq<Tag>, n: int) -> int { count(c, n, 2) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn count_upd(c: Seq<Tag>, d: Seq<Tag>, n: int, w: int, i: int)
    requires 0 <= n <= c.len(), n <= d.len(), 0 <= i, forall|k: int| 0 <= k < n && k != i ==> #[trigger] d[k] == c[k]
    ensures count(d, n, w) == count(c, n, w) + if i < n { b2i(is_(w, d[i])) - b2i(is_(w, c[i])) } else { 0 }
    decreases n
{ if n > 0 { count_upd(c, d, n - 1, w, i); } }
pub proof fn counts_upd(c: Seq<Tag>, d: Seq<Tag>, n: int, i: int)
    requires 0 <= i < n <= c.len(), n <= d.len(), forall|k: int| 0 <= k < n && k != i ==> #[trigger] d[k] == c[k]
    ensures nfull(d, n) == nfull(c, n) + b2i(full(d[i])) - b2i(full(c[i])), ndel(d, n) == ndel(c, n) + b2i(d[i] == d_()) - b2i(c[i] == d_()), count(d, n, 3) == count(c, n, 3) + b2i(d[i] != e_()) - b2i(c[i] != e_())
{ count_upd(c, d, n, 0, i); count_upd(c, d, n, 1, i); count_upd(c, d, n, 3, i); }
pub proof fn count_bounds(c: Seq<Tag>, n: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < n ==> full(#[trigger] c[i]) || c[i] == e_() || c[i] == d_()
    ensures nfull(c, n) >= 0, ndel(c, n) >= 0, nempty(c, n) >= 0, nfull(c, n) + ndel(c, n) + nempty(c, n) == n, count(c, n, 3) == nfull(c, n) + ndel(c, n)
    decreases n
{ if n > 0 { count_bounds(c, n - 1); assert(full(c[n - 1]) || c[n - 1] == e_() || c[n - 1] == d_()); } }
pub proof fn count_some(c: Seq<Tag>, n: int, w: int) -> (i: int)
    requires 0 <= n <= c.len(), count(c, n, w) > 0
    ensures 0 <= i < n, is_(w, c[i])
    decreases n
{ if is_(w, c[n - 1]) { n - 1 } else { count_some(c, n - 1, w) } }
pub proof fn count_nonneg(c: Seq<Tag>, n: int, w: int) ensures count(c, n, w) >= 0 decreases n { if n > 0 { count_nonneg(c, n - 1, w); } }
pub proof fn count_pos(c: Seq<Tag>, n: int, w: int, i: int)
    requires 0 <= i < n <= c.len(), is_(w, c[i])
    ensures count(c, n, w) > 0
    decreases n
{ count_nonneg(c, n - 1, w); if i < n - 1 { count_pos(c, n - 1, w, i); } }
pub proof fn count_zero(c: Seq<Tag>, n: int, w: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < n ==> !is_(w, #[trigger] c[i])
    ensures count(c, n, w) == 0
    decreases n
{ if n > 0 { count_zero(c, n - 1, w); } }
/// the elements in buckets of a kind
pub open spec fn bag<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>, w: int) -> Multiset<(u64, T)> decreases n {
    if n <= 0 { Multiset::empty() } else if is_(w, c[n - 1]) { bag(c, n - 1, els, w).insert(els[n - 1]) } else { bag(c, n - 1, els, w) }
}
pub proof fn bag_same<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, es: Seq<(u64, T)>, w: int, v: int)
    requires 0 <= n <= c.len(), n <= d.len(), n <= els.len(), n <= es.len(), forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n ==> is_(v, d[k]) == is_(w, c[k]) && (is_(w, c[k]) ==> es[k] == els[k])
    ensures bag(d, n, es, v) == bag(c, n, els, w)
    decreases n
{ if n > 0 { bag_same(c, d, n - 1, els, es, w, v); } }
/// one bucket filled
pub proof fn bag_add<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, es: Seq<(u64, T)>, w: int, i: int)
    requires 0 <= i < n <= c.len(), n <= d.len(), n <= els.len(), n <= es.len(), !is_(w, c[i]), is_(w, d[i]), forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n && k != i ==> d[k] == c[k] && es[k] == els[k]
    ensures bag(d, n, es, w) == bag(c, n, els, w).insert(es[i])
    decreases n
{
    if i == n - 1 { bag_same(c, d, n - 1, els, es, w, w); } else {
        bag_add(c, d, n - 1, els, es, w, i);
        if is_(w, c[n - 1]) { assert(bag(c, n - 1, els, w).insert(es[i]).insert(els[n - 1]) =~= bag(c, n - 1, els, w).insert(els[n - 1]).insert(es[i])); }
    }
}
pub proof fn bag_has<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>, w: int, i: int)
    requires 0 <= i < n <= c.len(), n <= els.len(), is_(w, c[i])
    ensures bag(c, n, els, w).contains(els[i])
    decreases n
{ if i < n - 1 { bag_has(c, n - 1, els, w, i); } }
pub proof fn bag_del<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, es: Seq<(u64, T)>, w: int, i: int)
    requires 0 <= i < n <= c.len(), n <= d.len(), n <= els.len(), n <= es.len(), is_(w, c[i]), !is_(w, d[i]), forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n && k != i ==> d[k] == c[k] && es[k] == els[k]
    ensures bag(d, n, es, w) == bag(c, n, els, w).remove(els[i]), bag(c, n, els, w).contains(els[i])
    decreases n
{
    bag_has(c, n, els, w, i);
    if i == n - 1 {
        bag_same(c, d, n - 1, els, es, w, w);
        assert(bag(c, n - 1, els, w).insert(els[i]).remove(els[i]) =~= bag(c, n - 1, els, w));
    } else {
        assert forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n - 1 && k != i implies d[k] == c[k] && es[k] == els[k] by {};
        bag_del(c, d, n - 1, els, es, w, i);
        assert(d[n - 1] == c[n - 1] && es[n - 1] == els[n - 1]);
        if is_(w, c[n - 1]) { assert(bag(c, n - 1, els, w).remove(els[i]).insert(els[n - 1]) =~= bag(c, n - 1, els, w).insert(els[n - 1]).remove(els[i])); }
    }
}
pub open spec fn cap_of(n: int) -> int { if n - 1 < 8 { n - 1 } else { n / 8 * 7 } }
// ---- groups and masks, as C13 proves them --------------------------------------------------------
#[verifier::external_body]
pub struct Group { x: u128 }
impl Group {
    pub const WIDTH: usize = 16;
    pub uninterp spec fn view(&self) -> Seq<Tag>;
    #[verifier::external_body]
    pub fn match_tag(&self, tag: Tag) -> (r: BitMask)
        ensures r@.len() == 16, forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 && self@[j] == tag ==> r@[j], full(tag) ==> forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 && r@[j] ==> full(self@[j])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn match_empty(&self) -> (r: BitMask) ensures r@.len() == 16, forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 ==> r@[j] == (self@[j] == e_()) { unimplemented!() }
    #[verifier::external_body]
    pub fn match_empty_or_deleted(&self) -> (r: BitMask) ensures r@.len() == 16, forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 ==> r@[j] == !full(self@[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn match_full(&self) -> (r: BitMask) ensures r@.len() == 16, forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 ==> r@[j] == full(self@[j]) { unimplemented!() }
    #[verifier::external_body]
    pub fn convert_special_to_empty_and_full_to_deleted(self) -> (r: Group) ensures r@.len() == 16, forall|j: int| #![trigger r@[j]] #![trigger self@[j]] 0 <= j < 16 ==> r@[j] == (if full(self@[j]) { d_() } else { e_() }) { unimplemented!() }
}
#[verifier::external_body]
pub struct BitMask { x: u16 }
pub open spec fn lowest(b: Seq<bool>, j: int) -> bool { 0 <= j < 16 && b[j] && forall|k: int| 0 <= k < j ==> !(#[trigger] b[k]) }
impl BitMask {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn lowest_set_bit(&self) -> (r: Option<usize>) ensures r matches Some(j) ==> lowest(self@, j as int), r is None ==> forall|k: int| 0 <= k < 16 ==> !(#[trigger] self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn any_bit_set(&self) -> (r: bool) ensures r ==> exists|k: int| 0 <= k < 16 && #[trigger] self@[k], !r ==> forall|k: int| 0 <= k < 16 ==> !(#[trigger] self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn trailing_zeros(&self) -> (r: usize) ensures r <= 16, forall|k: int| 0 <= k < r ==> !(#[trigger] self@[k]), r < 16 ==> self@[r as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn leading_zeros(&self) -> (r: usize) ensures r <= 16, forall|k: int| 16 - r <= k < 16 ==> !(#[trigger] self@[k]), r < 16 ==> self@[15 - r] { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: BitMaskIter) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct BitMaskIter { x: u16 }
impl BitMaskIter {
    pub uninterp spec fn view(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures r matches Some(j) ==> lowest(old(self)@, j as int) && final(self)@ == old(self)@.update(j as int, false), r is None ==> final(self)@ == old(self)@ && forall|k: int| 0 <= k < 16 ==> !(#[trigger] old(self)@[k])
    { unimplemented!() }
}
pub fn likely(b: bool) -> (r: bool) ensures r == b { b }
pub fn unlikely(b: bool) -> (r: bool) ensures r == b { b }
// ---- the table ------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)]
pub struct RawTableInner<T> { pub bucket_mask: usize, pub mem: Vec<Tag>, pub growth_left: usize, pub items: usize, pub els: Ghost<Seq<(u64, T)>> }
pub struct InsertSlot { pub index: usize }
/// elements are where a probe for their hash finds them
pub open spec fn chains<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>) -> bool {
    els.len() == n && forall|i: int| 0 <= i < n && full(#[trigger] c[i]) ==> c[i] == tagof(els[i].0) && placed(c, n, els[i].0 as int, i)
}
impl<T> RawTableInner<T> {
    pub open spec fn n(&self) -> int { self.bucket_mask + 1 }
    pub open spec fn c(&self) -> Seq<Tag> { self.mem@ }
    pub open spec fn shape(&self) -> bool { ctl(self.c(), self.n()) }
    pub open spec fn counts(&self) -> bool { self.items == nfull(self.c(), self.n()) && self.growth_left + self.items + ndel(self.c(), self.n()) == cap_of(self.n()) }
    pub open spec fn wf(&self) -> bool { self.shape() && self.counts() && chains(self.c(), self.n(), self.els@) }
    pub open spec fn content(&self) -> Multiset<(u64, T)> { bag(self.c(), self.n(), self.els@, 0) }
    #[verifier::external_body]
    pub fn fill_empty(&mut self) requires old(self).n() > 1
        ensures *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).mem@.len() == old(self).mem@.len(), forall|i: int| 0 <= i < old(self).mem@.len() ==> #[trigger] final(self).mem@[i] == e_() { unimplemented!() }
    /// element moved, elements exchanged (raw copies of element memory)
    #[verifier::external_body]
    pub fn move_el(&mut self, from: usize, to: usize) requires from < old(self).n(), to < old(self).n(), from != to, old(self).els@.len() == old(self).n()
        ensures *final(self) == (RawTableInner { els: final(self).els, ..*old(self) }), final(self).els@ == old(self).els@.update(to as int, old(self).els@[from as int]) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_el(&mut self, a: usize, b: usize) requires a < old(self).n(), b < old(self).n(), a != b, old(self).els@.len() == old(self).n()
        ensures *final(self) == (RawTableInner { els: final(self).els, ..*old(self) }), final(self).els@ == old(self).els@.update(a as int, old(self).els@[b as int]).update(b as int, old(self).els@[a as int]) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_el(&mut self, o: &Self, from: usize, to: usize) requires from < o.n(), to < old(self).n(), o.els@.len() == o.n(), old(self).els@.len() == old(self).n(), full(o.c()[from as int])
        ensures *final(self) == (RawTableInner { els: final(self).els, ..*old(self) }), final(self).els@ == old(self).els@.update(to as int, o.els@[from as int]) { unimplemented!() }
    /// element written, element read out
    #[verifier::external_body]
    pub fn put_el(&mut self, i: usize, h: u64, v: T) requires i < old(self).n(), old(self).els@.len() == old(self).n()
        ensures *final(self) == (RawTableInner { els: final(self).els, ..*old(self) }), final(self).els@ == old(self).els@.update(i as int, (h, v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn ref_el(&self, i: usize) -> (r: &T) requires i < self.n(), self.els@.len() == self.n(), full(self.c()[i as int]) ensures *r == self.els@[i as int].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn mut_el(&mut self, i: usize) -> (r: &mut T) requires i < old(self).n(), old(self).els@.len() == old(self).n(), full(old(self).c()[i as int])
        ensures *r == old(self).els@[i as int].1, *final(self) == (RawTableInner { els: final(self).els, ..*old(self) }), final(self).els@ == old(self).els@.update(i as int, (old(self).els@[i as int].0, *final(r))) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_el(&self, i: usize) -> (r: T) requires i < self.n(), self.els@.len() == self.n(), !full(self.c()[i as int]) ensures r == self.els@[i as int].1 { unimplemented!() }
    /// the memory given back
    #[verifier::external_body]
    pub fn free_buckets(&mut self, l: TableLayout) requires old(self).n() > 1 { }
    /// the hash an element was filed under (never computed by the code)
    #[verifier::external_body]
    pub fn hash_of(&self, i: usize) -> (r: u64) requires i < self.els@.len() ensures r == self.els@[i as int].0 { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self, index: usize) -> (r: Tag) requires index < self.mem@.len() ensures r == self.mem@[index as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn poke(&mut self, index: usize, t: Tag) requires index < old(self).mem@.len(), old(self).n() > 1
        ensures *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).mem@ == old(self).mem@.update(index as int, t) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, index: usize) -> (r: Group) requires index + 16 <= self.mem@.len() ensures r@ == self.mem@.subrange(index as int, index + 16) { unimplemented!() }
    #[verifier::external_body]
    pub fn load_aligned(&self, index: usize) -> (r: Group) requires index + 16 <= self.mem@.len(), index % 16 == 0 ensures r@ == self.mem@.subrange(index as int, index + 16) { unimplemented!() }
    #[verifier::external_body]
    pub fn store_aligned(&mut self, index: usize, g: Group) requires index + 16 <= old(self).mem@.len(), index % 16 == 0, old(self).n() > 1
        ensures *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).mem@ == old(self).mem@.subrange(0, index as int) + g@ + old(self).mem@.subrange(index + 16, old(self).mem@.len() as int) { unimplemented!() }
    /// k bytes copied from `from` to `to`
    #[verifier::external_body]
    pub fn copy_ctrl(&mut self, from: usize, to: usize, k: usize) requires to + k <= old(self).mem@.len(), from + k <= old(self).mem@.len(), old(self).n() > 1
        ensures *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).mem@ == old(self).mem@.subrange(0, to as int) + old(self).mem@.subrange(from as int, from + k) + old(self).mem@.subrange(to + k, old(self).mem@.len() as int) { unimplemented!() }
}
/// an EMPTY bucket exists
pub proof fn has_empty<T>(t: RawTableInner<T>) -> (i: int)
    requires t.shape(), t.counts()
    ensures 0 <= i < t.n(), t.c()[i] == e_()
{
    count_bounds(t.c(), t.n());
    assert(cap_of(t.n()) < t.n()) by { if t.n() >= 9 { assert(t.n() / 8 * 7 < t.n()); } };
    count_some(t.c(), t.n(), 2)
}
@end
@file hashbrown/src/raw/mod.rs
@fn h1
    ensures r == hash
@item struct ProbeSeq
@verbatim
impl ProbeSeq {
    pub open spec fn at(&self, n: int, h: int, k: nat) -> bool { self.stride == 16 * k && self.pos == pos(n, h, k) }
}
@end
@item struct TableLayout
@pre
#[derive(Clone, Copy)]
@item struct FullBucketsIndices
@sub NonNull < u8 > ==> Cur
@sub items : usize , ==> items: usize, lo: Ghost<int>,
@verbatim
impl FullBucketsIndices {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub open spec fn c(&self) -> Seq<Tag> { self.ctrl.mem@ }
    /// everything full from lo on is still to come
    pub open spec fn ok(&self, n: int) -> bool {
        &&& ctl(self.c(), n) && self.ctrl.at == self.group_first_index && self.ctrl.at % 16 == 0 && self.ctrl.at < n
        &&& 0 <= self.lo@ <= n && self.ctrl.at <= self.lo@ <= self.ctrl.at + 16
        &&& self.current_group@.len() == 16 && forall|j: int| #![trigger self.current_group@[j]] #![trigger self.c()[self.ctrl.at + j]] 0 <= j < 16 ==> self.current_group@[j] == (self.ctrl.at + j >= self.lo@ && self.ctrl.at + j < n && full(self.c()[self.ctrl.at + j]))
        &&& self.items == nfull(self.c(), n) - nfull(self.c(), self.lo@)
    }
}
@end
@impl impl ProbeSeq
@fn move_next
    requires p2(bucket_mask + 1), bucket_mask < 0x4000_0000_0000_0000, old(self).stride <= bucket_mask, old(self).pos <= bucket_mask
    ensures final(self).stride == old(self).stride + 16, final(self).pos == (old(self).pos + old(self).stride + 16) % (bucket_mask + 1)
@enter
    proof { mask_mod((self.pos + self.stride + 16) as usize, (bucket_mask + 1) as usize); }
@endimpl
@impl impl FullBucketsIndices
@fn next_impl
    requires exists|n: int| #[trigger] old(self).ok(n), old(self).items > 0
    ensures final(self).items == old(self).items, final(self).c() == old(self).c(), forall|n: int| #[trigger] old(self).ok(n) ==> r is Some && old(self).lo@ <= r->0 < n && full(old(self).c()[r->0 as int]) && gap(old(self).c(), old(self).lo@, r->0 as int) && final(self).lo@ == r->0 + 1 && (FullBucketsIndices { items: (final(self).items - 1) as usize, ..*final(self) }).ok(n)
@sub NonNull :: new_unchecked ( self . ctrl . as_ptr ( ) . add ( Group :: WIDTH ) ) ==> self.ctrl.add(Group::WIDTH)
@sub Group :: load_aligned ( self . ctrl . as_ptr ( ) . cast ( ) ) ==> self.ctrl.load_aligned()
@enter
    let ghost n = choose|n: int| #[trigger] old(self).ok(n);
    let ghost c = self.c();
    let ghost lo = self.lo@;
    proof {
        len_n(c);
        if n >= 16 { let e = p2_split(n); } else { p2_small(n); }
    }
@loop 1
    invariant old(self).ok(n), self.ok(n), n >= 16 ==> n % 16 == 0, c == self.c(), c == old(self).c(), lo == old(self).lo@, lo <= self.lo@, gap(c, lo, self.lo@), self.items == old(self).items, self.items > 0
    decreases n - self.ctrl.at
@loopenter 1
    let ghost g0 = self.current_group@;
    let ghost at = self.ctrl.at as int;
    proof { assert forall|j: int| #![trigger g0[j]] #![trigger c[at + j]] 0 <= j < 16 implies g0[j] == (at + j >= self.lo@ && at + j < n && full(c[at + j])) by { assert(self.current_group@[j] == g0[j]); }; }
@before return Some
    proof {
        assert(gap(c, self.lo@, at + index)) by { assert forall|j: int| self.lo@ <= j < at + index implies !full(#[trigger] c[j]) by { let k = j - at; assert(!g0[k]); }; };
        assert(g0[index as int]);
        count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, at + index);
    }
    self.lo = Ghost(self.group_first_index + index + 1);
@before self . ctrl = self
    proof {
        assert(gap(c, self.lo@, if at + 16 <= n { at + 16 } else { n })) by { assert forall|j: int| self.lo@ <= j < at + 16 && j < n implies !full(#[trigger] c[j]) by { let k = j - at; assert(!g0[k]); }; };
        if at + 16 >= n { count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, n); }
        count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, at + 16);
    }
    self.lo = Ghost(self.ctrl.at + 16);
@endimpl
@impl impl Iterator for FullBucketsIndices => impl FullBucketsIndices
@fn next
    requires exists|n: int| #[trigger] old(self).ok(n)
    ensures final(self).c() == old(self).c(), forall|n: int| #[trigger] old(self).ok(n) ==> final(self).ok(n) && match r {
        Some(i) => old(self).lo@ <= i < n && full(old(self).c()[i as int]) && gap(old(self).c(), old(self).lo@, i as int) && final(self).lo@ == i + 1 && old(self).items > 0,
        None => old(self).items == 0 && gap(old(self).c(), old(self).lo@, n) }
@enter
    proof { assert forall|n: int| #[trigger] old(self).ok(n) && old(self).items == 0 implies gap(old(self).c(), old(self).lo@, n) by { no_more(old(self).c(), old(self).lo@, n); }; }
@endimpl
@fn capacity_to_buckets
    requires cap > 0
    ensures r matches Some(b) ==> p2(b as int) && b >= 4 && cap_of(b as int) >= cap, r is None ==> cap * 8 > usize::MAX
@sub core :: cmp :: Ord :: max ( min_cap , cap ) ==> vmax(min_cap, cap)
@sub adjusted_cap . next_power_of_two ( ) ==> next_p2(adjusted_cap)
@sub debug_assert_ne ! ( cap , 0 ) ==> vassert(cap != 0)
@enter
    proof { p2_lits(); assert forall|b: usize| #[trigger] p2(b as int) && b >= cap * 8 / 7 && cap >= 15 implies cap_of(b as int) >= cap by { let e = p2_split(b as int); }; }
@fn bucket_mask_to_capacity
    requires bucket_mask < usize::MAX
    ensures r == cap_of(bucket_mask + 1)
@verbatim
// ---- probing --------------------------------------------------------------------------------------
/// the equality callback: what it may be asked, and what it has answered
pub trait Ask {
    type Ctx;
    spec fn ctx(&self) -> Self::Ctx;
    spec fn inv(&self) -> bool;
    spec fn may(&self, i: int) -> bool;
    spec fn log(&self) -> Seq<(int, bool)>;
    fn call(&mut self, i: usize) -> (r: bool)
        requires old(self).inv(), old(self).may(i as int), allno(old(self).log(), 0, old(self).log().len() as int)
        ensures final(self).inv(), final(self).ctx() == old(self).ctx(), final(self).log() == old(self).log().push((i as int, r)), forall|j: int| #[trigger] final(self).may(j) == old(self).may(j);
}
/// answers from the l-th on: all no, and what was denied
pub open spec fn grown(a: Seq<(int, bool)>, b: Seq<(int, bool)>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn allno(b: Seq<(int, bool)>, l: int, u: int) -> bool { forall|k: int| l <= k < u ==> !(#[trigger] b[k]).1 }
pub open spec fn denied(b: Seq<(int, bool)>, l: int, i: int) -> bool { exists|k: int| l <= k < b.len() && #[trigger] b[k] == (i, false) }
pub proof fn denied_push(b: Seq<(int, bool)>, l: int, x: (int, bool))
    requires 0 <= l <= b.len()
    ensures forall|i: int| denied(b, l, i) ==> #[trigger] denied(b.push(x), l, i), !x.1 ==> denied(b.push(x), l, x.0)
{
    assert forall|i: int| denied(b, l, i) implies #[trigger] denied(b.push(x), l, i) by { let k = choose|k: int| l <= k < b.len() && #[trigger] b[k] == (i, false); assert(b.push(x)[k] == (i, false)); };
    if !x.1 { assert(b.push(x)[b.len() as int] == (x.0, false)); }
}
pub proof fn in_of(n: int, p: int, j: int)
    requires p2(n), 0 < n, 0 <= p < n, 0 <= j < 16
    ensures inwin(n, p, (p + j) % n)
{
    let i = (p + j) % n;
    lemma_mod_bound(p + j, n);
    lemma_mod_bound(i - p, n);
    if n >= 16 {
        if p + j < n { lemma_small_mod((p + j) as nat, n as nat); lemma_small_mod(j as nat, n as nat); } else {
            lemma_fundamental_div_mod_converse(p + j, n, 1, p + j - n);
            if j == n { assert(false); }
            lemma_fundamental_div_mod_converse(i - p, n, -1, j);
        }
    }
}
/// a probe that saw no EMPTY has windows left
pub proof fn more<T>(t: RawTableInner<T>, h: int, k: nat)
    requires t.shape(), t.counts(), forall|m: nat| m <= k ==> noempty(t.c(), #[trigger] pos(t.n(), h, m)), 0 <= h
    ensures k + 1 < groups(t.n())
{
    let i = has_empty(t);
    left(t.c(), t.n(), h, k, i);
}
pub proof fn left(c: Seq<Tag>, n: int, h: int, k: nat, i: int)
    requires ctl(c, n), 0 <= i < n, 0 <= h, forall|m: nat| m <= k ==> forall|j: int| 0 <= j < 16 ==> #[trigger] c[#[trigger] pos(n, h, m) + j] != c[i]
    ensures k + 1 < groups(n)
{
    let m = cover(n, h, i);
    step(n, h, m);
    win_at(c, n, pos(n, h, m), i);
    if k + 1 >= groups(n) { assert(m <= k); assert(c[pos(n, h, m) + off(n, pos(n, h, m), i)] == c[i]); }
}
pub proof fn lemma_groups(n: int)
    requires p2(n), n > 0
    ensures groups(n) >= 1, n >= 16 ==> n == 16 * groups(n)
{ if n >= 16 { let e = p2_split(n); lemma_pow2_pos(e); } }
pub proof fn small_slots(c: Seq<Tag>, n: int, h: int)
    requires p2(n), 0 < n < 16
    ensures forall|i: int| 0 <= i < n && !full(c[i]) ==> #[trigger] slot_ok(c, n, h, i)
{ assert forall|i: int| 0 <= i < n && !full(c[i]) implies #[trigger] slot_ok(c, n, h, i) by { lemma_mod_bound(i - pos(n, h, 0), n); assert(slot_at(c, n, h, i, 0)); }; }
/// a free bucket in the first window of h with one
pub open spec fn slot_at(c: Seq<Tag>, n: int, h: int, i: int, k: nat) -> bool {
    k < groups(n) && inwin(n, pos(n, h, k), i) && forall|m: nat| m < k ==> allfull(c, #[trigger] pos(n, h, m))
}
pub open spec fn slot_ok(c: Seq<Tag>, n: int, h: int, i: int) -> bool { 0 <= i < n && !full(c[i]) && exists|k: nat| #[trigger] slot_at(c, n, h, i, k) }
pub fn vbit(b: bool) -> (r: usize) ensures r == b2i(b) { if b { 1 } else { 0 } }
/// a bucket filled along its chain
pub proof fn fill<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, i: int, h: u64, v: T)
    requires ctl(c, n), ctl(d, n), d.len() == c.len(), chains(c, n, els), 0 <= i < n, placed(c, n, h as int, i), d[i] == tagof(h), forall|k: int| 0 <= k < n && k != i ==> #[trigger] d[k] == c[k], forall|j: int| 0 <= j < c.len() ==> #[trigger] d[j] == c[j] || d[j] == tagof(h)
    ensures chains(d, n, els.update(i, (h, v)))
{
    tag_full(h);
    let es = els.update(i, (h, v));
    assert forall|x: int| 0 <= x < n && full(#[trigger] d[x]) implies d[x] == tagof(es[x].0) && placed(d, n, es[x].0 as int, x) by {
        if x == i {
            let k = choose|k: nat| placed_at(c, n, h as int, i, k);
            assert forall|m: nat| m < k implies noempty(d, #[trigger] pos(n, h as int, m)) by { step(n, h as int, m); assert(noempty(c, pos(n, h as int, m))); assert forall|j: int| 0 <= j < 16 implies #[trigger] d[pos(n, h as int, m) + j] != e_() by { win_byte(c, n, pos(n, h as int, m), j); assert(c[pos(n, h as int, m) + j] != e_()); }; };
            assert(placed_at(d, n, h as int, i, k));
        } else {
            assert(full(c[x]));
            let g = els[x].0 as int;
            let k = choose|k: nat| placed_at(c, n, g, x, k);
            assert forall|m: nat| m < k implies noempty(d, #[trigger] pos(n, g, m)) by { step(n, g, m); assert(noempty(c, pos(n, g, m))); assert forall|j: int| 0 <= j < 16 implies #[trigger] d[pos(n, g, m) + j] != e_() by { win_byte(c, n, pos(n, g, m), j); assert(c[pos(n, g, m) + j] != e_()); }; };
            assert(placed_at(d, n, g, x, k));
        }
    };
}
/// which sixteen buckets, counted from the start of the probe
pub open spec fn region(n: int, h: int, i: int) -> int { ((i - pos(n, h, 0)) % n) / 16 }
pub proof fn wsub_mod(a: usize, b: usize, n: usize)
    requires p2(n as int), 0 < n <= 0x4000_0000_0000_0000, a < n, b < n
    ensures a.wrapping_sub(b) % n == (a - b) % n as int
{
    let k = choose|k: nat| n == pow2(k);
    lemma_pow2_pos(k);
    lemma2_to64_rest();
    if k >= 64 { if k > 64 { lemma_pow2_strictly_increases(64, k); } }
    lemma_pow2_adds(k, (64 - k) as nat);
    let q = pow2((64 - k) as nat) as int;
    assert(n * q == 0x1_0000_0000_0000_0000);
    if a < b { lemma_mod_multiples_vanish(q, a - b, n as int); assert(q * n + (a - b) == a.wrapping_sub(b)) by (nonlinear_arith) requires n * q == 0x1_0000_0000_0000_0000, a < b, a.wrapping_sub(b) == a - b + 0x1_0000_0000_0000_0000; }
}
pub proof fn bag_none<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>, w: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < n ==> !is_(w, #[trigger] c[i])
    ensures bag(c, n, els, w) == Multiset::<(u64, T)>::empty()
    decreases n
{ if n > 0 { bag_none(c, n - 1, els, w); } }
/// every window that reads bucket i has an EMPTY already
pub open spec fn broken(c: Seq<Tag>, n: int, i: int) -> bool { forall|p: int| 0 <= p < n && #[trigger] inwin(n, p, i) ==> !noempty(c, p) }
/// EMPTY a+1 before and b after, less than a window apart
pub proof fn ring_gap(c: Seq<Tag>, n: int, i: int, f: int, a: int, b: int)
    requires ctl(c, n), 0 <= i < n, 0 <= f < n, n >= 16 ==> f == (if i >= 16 { i - 16 } else { i + n - 16 }), 0 <= a <= 16, 0 <= b <= 16, a + b < 16, c[f + 15 - a] == e_(), c[i + b] == e_()
    ensures broken(c, n, i)
{
    assert forall|p: int| 0 <= p < n && #[trigger] inwin(n, p, i) implies !noempty(c, p) by {
        if n < 16 { small_empty(c, n, p); } else {
            win_at(c, n, p, i);
            let d = off(n, p, i);
            win_byte(c, n, i, b);
            win_byte(c, n, f, 15 - a);
            lemma_mod_bound(p + d, n);
            if a < d {
                win_byte(c, n, p, d - 1 - a);
                ring_eq(n, p + (d - 1 - a), f + (15 - a), p, d, i, f);
                assert(c[p + (d - 1 - a)] == e_());
            } else {
                win_byte(c, n, p, d + b);
                ring_eq2(n, p, d, b, i);
                assert(c[p + (d + b)] == e_());
            }
        }
    };
}
pub proof fn ring_eq(n: int, x: int, y: int, p: int, d: int, i: int, f: int)
    requires n >= 16, 0 <= p < n, 0 <= d < 16, 0 <= i < n, (p + d) % n == i, f == (if i >= 16 { i - 16 } else { i + n - 16 }), x - p == y - f + d - 16
    ensures x % n == y % n
{
    lemma_fundamental_div_mod(p + d, n);
    let q = (p + d) / n;
    assert(p + d == n * q + i);
    let e: int = if i >= 16 { 0 } else { -1 };
    assert(x - y == n * (q + e)) by (nonlinear_arith) requires p + d == n * q + i, f == (if i >= 16 { i - 16 } else { i + n - 16 }), x - p == y - f + d - 16, e == (if i >= 16 { 0int } else { -1int });
    lemma_mod_multiples_vanish(q + e, y, n);
    assert((q + e) * n == n * (q + e)) by (nonlinear_arith);
}
pub proof fn ring_eq2(n: int, p: int, d: int, b: int, i: int)
    requires n >= 16, 0 <= i < n, (p + d) % n == i
    ensures (p + (d + b)) % n == (i + b) % n
{
    lemma_fundamental_div_mod(p + d, n);
    let q = (p + d) / n;
    lemma_mod_multiples_vanish(q, i + b, n);
    assert(q * n == n * q) by (nonlinear_arith);
}
/// a caller's hash closure
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Hasher<T> { x: Option<T> }
impl<T> Hasher<T> {
    pub uninterp spec fn of(&self) -> spec_fn(T) -> u64;
    #[verifier::external_body]
    pub fn hash(&self, x: &T) -> (r: u64) ensures r == (self.of())(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, t: &RawTableInner<T>, i: usize) -> (r: u64) requires i < t.n(), t.els@.len() == t.n(), t.c()[i as int] != e_() ensures r == (self.of())(t.els@[i as int].1) { unimplemented!() }
}
/// what the clean-up after a panicking hash callback starts from: the elements o, none lost, those not yet filed again marked DELETED
pub open spec fn rescuable<T>(t: RawTableInner<T>, o: Multiset<(u64, T)>) -> bool {
    t.shape() && t.n() > 1 && strong(t.c(), t.n(), t.els@) && t.items == count(t.c(), t.n(), 3) && t.items <= cap_of(t.n()) && bag(t.c(), t.n(), t.els@, 3) == o
}
impl<T> Hasher<T> {
    /// the same callback, which may panic: then t is left to the clean-up
    #[verifier::external_body]
    pub fn call_rescued(&self, t: &RawTableInner<T>, i: usize, o: Ghost<Multiset<(u64, T)>>) -> (r: u64) requires rescuable(*t, o@), i < t.n(), t.c()[i as int] != e_() ensures r == (self.of())(t.els@[i as int].1) { unimplemented!() }
    /// the same callback, which may panic: then t is left as it is
    #[verifier::external_body]
    pub fn call_intact(&self, t: &RawTableInner<T>, i: usize, o: Ghost<RawTableInner<T>>) -> (r: u64) requires *t == o@, t.wf(), i < t.n(), t.c()[i as int] != e_() ensures r == (self.of())(t.els@[i as int].1) { unimplemented!() }
}
/// every element is filed under its hash
pub open spec fn agrees<T>(m: Multiset<(u64, T)>, f: spec_fn(T) -> u64) -> bool { forall|x: (u64, T)| #[trigger] m.contains(x) ==> f(x.1) == x.0 }
/// (a..b).step_by(s)
pub struct Steps { pub at: usize, pub end: usize, pub by: usize }
impl Steps {
    pub fn new(at: usize, end: usize, by: usize) -> (r: Steps) requires by > 0, end <= 0x4000_0000_0000_0000, by <= 16 ensures r.at == at, r.end == end, r.by == by { Steps { at, end, by } }
    pub fn into_iter(self) -> (r: Steps) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<usize>)
        requires old(self).end <= 0x4000_0000_0000_0000, old(self).by <= 16
        ensures final(self).end == old(self).end, final(self).by == old(self).by, old(self).at < old(self).end ==> r == Some(old(self).at) && final(self).at == old(self).at + old(self).by, old(self).at >= old(self).end ==> r is None && final(self).at == old(self).at
    { if self.at < self.end { let x = self.at; self.at = self.at + self.by; Some(x) } else { None } }
}
pub open spec fn conv(t: Tag) -> Tag { if full(t) { d_() } else { e_() } }
/// rehashing: a full bucket has only full buckets before it on its probe
pub open spec fn strong<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>) -> bool {
    els.len() == n && forall|i: int| 0 <= i < n && full(#[trigger] c[i]) ==> c[i] == tagof(els[i].0) && filed(c, n, els[i].0 as int, i)
}
pub open spec fn filed(c: Seq<Tag>, n: int, h: int, i: int) -> bool { exists|k: nat| #[trigger] slot_at(c, n, h, i, k) }
pub proof fn strong_chains<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>)
    requires ctl(c, n), strong(c, n, els)
    ensures chains(c, n, els)
{
    assert forall|i: int| 0 <= i < n && full(#[trigger] c[i]) implies c[i] == tagof(els[i].0) && placed(c, n, els[i].0 as int, i) by {
        let h = els[i].0 as int;
        assert(filed(c, n, h, i));
        let k = choose|k: nat| slot_at(c, n, h, i, k);
        assert forall|m: nat| m < k implies noempty(c, #[trigger] pos(n, h, m)) by { assert(allfull(c, pos(n, h, m))); assert forall|j: int| 0 <= j < 16 implies #[trigger] c[pos(n, h, m) + j] != e_() by { assert(full(c[pos(n, h, m) + j])); }; };
        assert(placed_at(c, n, h, i, k));
    };
}
/// full bytes stay full: what was filed stays filed
pub proof fn filed_mono(c: Seq<Tag>, d: Seq<Tag>, n: int, h: int, i: int)
    requires ctl(c, n), d.len() == c.len(), filed(c, n, h, i), h >= 0, forall|j: int| 0 <= j < c.len() && full(c[j]) ==> full(#[trigger] d[j])
    ensures filed(d, n, h, i)
{
    let k = choose|k: nat| slot_at(c, n, h, i, k);
    assert forall|m: nat| m < k implies allfull(d, #[trigger] pos(n, h, m)) by { step(n, h, m); assert(allfull(c, pos(n, h, m))); assert forall|j: int| 0 <= j < 16 implies full(#[trigger] d[pos(n, h, m) + j]) by { win_byte(c, n, pos(n, h, m), j); assert(full(c[pos(n, h, m) + j])); }; };
    assert(slot_at(d, n, h, i, k));
}
/// the region decides the window
pub proof fn same_win(c: Seq<Tag>, n: int, h: int, i: int, x: int)
    requires p2(n), 0 < n, 0 <= i < n, 0 <= x < n, h >= 0, filed(c, n, h, x), region(n, h, i) == region(n, h, x)
    ensures filed(c, n, h, i)
{
    let k = choose|k: nat| slot_at(c, n, h, x, k);
    let p = pos(n, h, k);
    step(n, h, k);
    step(n, h, 0);
    lemma_mod_bound(i - p, n);
    if n >= 16 {
        win_region(n, h, i, k);
        win_region(n, h, x, k);
    }
    assert(slot_at(c, n, h, i, k));
}
pub proof fn win_region(n: int, h: int, i: int, k: nat)
    requires p2(n), n >= 16, 0 <= i < n, h >= 0
    ensures inwin(n, pos(n, h, k), i) == (region(n, h, i) == ((16 * (tri(k) as int)) % n) / 16)
{
    let e = p2_split(n);
    let p0 = pos(n, h, 0);
    let p = pos(n, h, k);
    let w = (16 * (tri(k) as int)) % n;
    let a = (i - p0) % n;
    step(n, h, 0);
    lemma_mod_bound(16 * (tri(k) as int), n);
    lemma_mod_bound(i - p0, n);
    // w is a multiple of 16
    lemma_mod_mod(16 * (tri(k) as int), 16, n / 16);
    assert(16 * (n / 16) == n);
    assert(w % 16 == 0) by { lemma_mod_multiples_basic(tri(k) as int, 16); };
    // p == p0 + w, i - p == a - w
    assert((i - p) % n == (a - w) % n) by {
        lemma_sub_mod_noop_right(i as int, h + 16 * (tri(k) as int), n);
        assert((i - p) % n == (i - (h + 16 * (tri(k) as int))) % n);
        lemma_sub_mod_noop_right(i as int, h as int, n);
        assert(a == (i - h) % n);
        lemma_sub_mod_noop(i - h, 16 * (tri(k) as int), n);
        assert(i - (h + 16 * (tri(k) as int)) == (i - h) - 16 * (tri(k) as int));
    };
    if a >= w { lemma_small_mod((a - w) as nat, n as nat); } else {
        lemma_fundamental_div_mod_converse(a - w, n, -1, a - w + n);
        assert(w <= n - 16) by { assert(w < n && w % 16 == 0 && n % 16 == 0); };
    }
}
/// one step of rehashing: bucket x filled with the element of bucket i, bytes elsewhere kept
pub proof fn strong_fill<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, es: Seq<(u64, T)>, x: int, h: u64)
    requires ctl(c, n), ctl(d, n), d.len() == c.len(), strong(c, n, els), es.len() == n, 0 <= x < n, d[x] == tagof(h), es[x].0 == h, filed(c, n, h as int, x),
        forall|j: int| 0 <= j < c.len() && full(c[j]) ==> full(#[trigger] d[j]),
        forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n && k != x && full(d[k]) ==> d[k] == c[k] && es[k] == els[k]
    ensures strong(d, n, es)
{
    assert forall|y: int| 0 <= y < n && full(#[trigger] d[y]) implies d[y] == tagof(es[y].0) && filed(d, n, es[y].0 as int, y) by {
        if y != x { assert(c[y] == d[y]); assert(filed(c, n, els[y].0 as int, y)); }
        filed_mono(c, d, n, es[y].0 as int, y);
    };
}
pub proof fn count_conv(c: Seq<Tag>, d: Seq<Tag>, n: int)
    requires 0 <= n <= c.len(), n <= d.len(), forall|i: int| 0 <= i < n ==> #[trigger] d[i] == conv(c[i])
    ensures count(d, n, 3) == nfull(c, n)
    decreases n
{ if n > 0 { count_conv(c, d, n - 1); } }
pub proof fn bag_swap<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, es: Seq<(u64, T)>, a: int, b: int)
    requires 0 <= a < n, 0 <= b < n, a != b, n <= c.len(), n <= d.len(), els.len() == n, es == els.update(a, els[b]).update(b, els[a]), forall|k: int| #![trigger c[k]] #![trigger d[k]] 0 <= k < n ==> is_(3, c[k]) == is_(3, d[k]), c[a] != e_(), c[b] != e_()
    ensures bag(d, n, es, 3) == bag(c, n, els, 3)
{
    // take both out, put both back
    let x = c.update(a, e_());
    let y = x.update(b, e_());
    bag_add(y, x, n, els, els, 3, b);
    bag_add(x, c, n, els, els, 3, a);
    bag_same(y, y, n, els, es, 3, 3);
    bag_add(y, x, n, es, es, 3, b);
    bag_add(x, c, n, es, es, 3, a);
    bag_same(c, d, n, es, es, 3, 3);
    let m = bag(y, n, els, 3);
    assert(m.insert(els[b]).insert(els[a]) =~= m.insert(els[a]).insert(els[b]));
}
pub proof fn p2_le(n: int)
    requires p2(n), 0 < n < 0x8000_0000_0000_0000
    ensures n <= 0x4000_0000_0000_0000
{
    let k = choose|k: nat| n == pow2(k);
    lemma2_to64_rest();
    lemma2_to64();
    if k >= 63 { if k > 63 { lemma_pow2_strictly_increases(63, k); } }
    if k < 62 { lemma_pow2_strictly_increases(k, 62); }
}
pub proof fn p2_lits()
    ensures p2(1), p2(4), p2(8), p2(16)
{ lemma2_to64(); assert(pow2(0) == 1 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16); }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
/// usize::next_power_of_two, for arguments whose result fits
#[verifier::external_body]
pub fn next_p2(x: usize) -> (r: usize) requires x <= 0x8000_0000_0000_0000 ensures p2(r as int), r >= x { x.next_power_of_two() }
/// memory for so many buckets; asking for more than the address space can hold ends here (C14)
#[verifier::external_body]
pub fn vlayout(l: TableLayout, buckets: usize) -> (r: (usize, usize)) requires p2(buckets as int) ensures buckets + 16 < 0x8000_0000_0000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn raw_mem<T>(buckets: usize) -> (r: (Vec<Tag>, Ghost<Seq<(u64, T)>>)) ensures r.0@.len() == buckets + 16, r.1@.len() == buckets { unimplemented!() }
/// Group::static_empty
#[verifier::external_body]
pub fn static_mem<T>() -> (r: (Vec<Tag>, Ghost<Seq<(u64, T)>>)) ensures r.0@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] r.0@[i] == e_(), r.1@.len() == 1 { unimplemented!() }
/// Option::unwrap on what may be None: panics
#[verifier::external_body]
pub fn unwrap_or_panic(o: Option<usize>) -> (r: usize) ensures o == Some(r) { o.unwrap() }
/// a pointer into control memory
pub struct Cur { pub mem: Ghost<Seq<Tag>>, pub at: usize }
impl Cur {
    pub fn add(&self, k: usize) -> (r: Cur) requires self.at + k <= self.mem@.len(), self.mem@.len() <= 0x5000_0000_0000_0000 ensures r.mem == self.mem, r.at == self.at + k { Cur { mem: self.mem, at: self.at + k } }
    #[verifier::external_body]
    pub fn load_aligned(&self) -> (r: Group) requires self.at + 16 <= self.mem@.len(), self.at % 16 == 0 ensures r@ == self.mem@.subrange(self.at as int, self.at + 16) { unimplemented!() }
}
/// nothing full between
pub open spec fn gap(c: Seq<Tag>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> !full(#[trigger] c[j]) }
pub proof fn count_gap<T>(c: Seq<Tag>, els: Seq<(u64, T)>, a: int, b: int)
    requires 0 <= a <= b <= c.len(), gap(c, a, b)
    ensures nfull(c, a) == nfull(c, b), bag(c, a, els, 0) == bag(c, b, els, 0)
    decreases b
{ if a < b { count_gap(c, els, a, b - 1); } }
pub proof fn count_le(c: Seq<Tag>, a: int, b: int)
    requires 0 <= a <= b <= c.len()
    ensures nfull(c, a) <= nfull(c, b)
    decreases b
{ if a < b { count_le(c, a, b - 1); } }
/// how many buckets a control memory has
pub proof fn len_n(c: Seq<Tag>)
    ensures forall|n: int| #![trigger ctl(c, n)] ctl(c, n) ==> n == if c.len() == 16 { 1 } else { c.len() - 16 }
{
    assert forall|n: int| #![trigger ctl(c, n)] ctl(c, n) implies n == if c.len() == 16 { 1 } else { c.len() - 16 } by {};
}
pub proof fn no_more(c: Seq<Tag>, a: int, b: int)
    requires 0 <= a <= b <= c.len(), nfull(c, a) == nfull(c, b)
    ensures gap(c, a, b)
    decreases b
{ if a < b { count_le(c, a, b - 1); no_more(c, a, b - 1); } }
pub proof fn has_room(c: Seq<Tag>, n: int) -> (i: int)
    requires ctl(c, n), nfull(c, n) < n
    ensures 0 <= i < n, !full(c[i]), room(c, n)
{
    let i = if forall|i: int| 0 <= i < n ==> full(#[trigger] c[i]) { all_full(c, n); 0 } else { choose|i: int| 0 <= i < n && !full(#[trigger] c[i]) };
    i
}
pub proof fn all_full(c: Seq<Tag>, n: int)
    requires 0 <= n <= c.len(), forall|i: int| 0 <= i < n ==> full(#[trigger] c[i])
    ensures nfull(c, n) == n
    decreases n
{ if n > 0 { all_full(c, n - 1); } }
/// no DELETED at all: none here
pub proof fn count_pos2(c: Seq<Tag>, n: int, i: int)
    requires 0 <= i < n <= c.len(), ndel(c, n) == 0
    ensures c[i] != d_()
{ if c[i] == d_() { count_pos(c, n, 1, i); } }
/// a free bucket where a probe for h will look
pub open spec fn free(c: Seq<Tag>, n: int, h: int, i: int) -> bool { 0 <= i < n && !full(c[i]) && placed(c, n, h, i) }
pub proof fn slot_free(c: Seq<Tag>, n: int, h: int, i: int)
    requires slot_ok(c, n, h, i)
    ensures free(c, n, h, i)
{
    let k = choose|k: nat| slot_at(c, n, h, i, k);
    assert forall|m: nat| m < k implies noempty(c, #[trigger] pos(n, h, m)) by { assert(allfull(c, pos(n, h, m))); assert forall|j: int| 0 <= j < 16 implies #[trigger] c[pos(n, h, m) + j] != e_() by { assert(full(c[pos(n, h, m) + j])); }; };
    assert(placed_at(c, n, h, i, k));
}
pub proof fn bag_len<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>, w: int)
    requires 0 <= n <= c.len(), n <= els.len()
    ensures bag(c, n, els, w).len() == count(c, n, w), count(c, n, w) == 0 ==> bag(c, n, els, w) == Multiset::<(u64, T)>::empty()
    decreases n
{ if n > 0 { bag_len(c, n - 1, els, w); count_nonneg(c, n - 1, w); } }
/// what an iterator hands out: an element of the table not handed out before
pub open spec fn steps<T>(a: Multiset<(u64, T)>, b: Multiset<(u64, T)>, all: Multiset<(u64, T)>, x: (u64, T)) -> bool { b == a.insert(x) && b.subset_of(all) && all.contains(x) }
pub proof fn bag_within<T>(c: Seq<Tag>, a: int, n: int, els: Seq<(u64, T)>)
    requires 0 <= a <= n <= c.len(), n <= els.len()
    ensures bag(c, a, els, 0).subset_of(bag(c, n, els, 0))
    decreases n
{ if a < n { bag_within(c, a, n - 1, els); } }
pub fn vreplace<X>(dest: &mut X, src: X) -> (r: X) ensures r == *old(dest), *final(dest) == src { let mut s = src; core::mem::swap(dest, &mut s); s }
pub open spec fn room(c: Seq<Tag>, n: int) -> bool { exists|i: int| 0 <= i < n && !full(#[trigger] c[i]) }
@end
@impl impl RawTableInner => impl<T> RawTableInner<T>
@fn buckets
    requires self.bucket_mask < usize::MAX
    ensures r == self.n()
@fn num_ctrl_bytes
    requires self.bucket_mask < usize::MAX - 16
    ensures r == self.n() + 16
@fn is_empty_singleton
    ensures r == (self.n() == 1)
@fn is_bucket_full
    requires self.shape(), index < self.n()
    ensures r == full(self.c()[index as int])
@sub ( * self . ctrl ( index ) ) ==> self.peek(index)
@fn probe_seq
    requires self.shape()
    ensures r.at(self.n(), hash as int, 0)
@enter
    proof { mask_mod(hash as usize, (self.bucket_mask + 1) as usize); step(self.n(), hash as int, 0); }
@fn set_ctrl
    requires old(self).shape(), old(self).n() > 1, index < old(self).n(), full(ctrl) || ctrl == e_() || ctrl == d_()
    ensures final(self).shape(), *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).c()[index as int] == ctrl, forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).c()[i] == old(self).c()[i], final(self).c().len() == old(self).c().len(), forall|j: int| 0 <= j < old(self).c().len() ==> #[trigger] final(self).c()[j] == old(self).c()[j] || (final(self).c()[j] == ctrl && old(self).c()[j] == old(self).c()[index as int])
@sub * self . ctrl ( index ) = ctrl ==> self.poke(index, ctrl)
@sub * self . ctrl ( index2 ) = ctrl ==> self.poke(index2, ctrl)
@enter
    proof {
        let n = (self.bucket_mask + 1) as usize;
        mask_mod(index.wrapping_sub(16), n);
        sub_mod(index, n);
        if n < 16 { assert(self.c()[16 + index as int] == self.c()[index as int]); } else if index < 16 { assert(self.c()[n + index as int] == self.c()[index as int]); }
    }
@fn set_ctrl_hash
    requires old(self).shape(), old(self).n() > 1, index < old(self).n()
    ensures final(self).shape(), *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).c()[index as int] == tagof(hash), forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).c()[i] == old(self).c()[i], final(self).c().len() == old(self).c().len(), forall|j: int| 0 <= j < old(self).c().len() ==> #[trigger] final(self).c()[j] == old(self).c()[j] || final(self).c()[j] == tagof(hash)
@enter
    proof { tag_full(hash); }
@fn replace_ctrl_hash
    requires old(self).shape(), old(self).n() > 1, index < old(self).n()
    ensures r == old(self).c()[index as int], final(self).shape(), *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).c()[index as int] == tagof(hash), forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).c()[i] == old(self).c()[i], final(self).c().len() == old(self).c().len(), forall|j: int| 0 <= j < old(self).c().len() ==> #[trigger] final(self).c()[j] == old(self).c()[j] || final(self).c()[j] == tagof(hash)
@sub * self . ctrl ( index ) ==> self.peek(index)
@fn find_insert_slot_in_group
    requires self.shape(), probe_seq.pos < self.n(), group@ == self.c().subrange(probe_seq.pos as int, probe_seq.pos + 16)
    ensures r matches Some(i) ==> i < self.n() && inwin(self.n(), probe_seq.pos as int, i as int) && (full(self.c()[i as int]) ==> self.n() < 16), r is None ==> allfull(self.c(), probe_seq.pos as int), r is Some ==> !allfull(self.c(), probe_seq.pos as int)
@enter
    proof {
        let p = probe_seq.pos as int;
        let n = self.n();
        assert forall|j: int| 0 <= j < 16 implies group@[j] == #[trigger] self.c()[p + j] by { win_byte(self.c(), n, p, j); };
        assert forall|j: usize| 0 <= j < 16 implies inwin(n, p, #[trigger] (((p + j) as usize) & self.bucket_mask) as int) && (((p + j) as usize) & self.bucket_mask) < n && (n >= 16 ==> self.c()[(((p + j) as usize) & self.bucket_mask) as int] == group@[j as int]) by {
            mask_mod((p + j) as usize, n as usize);
            win_byte(self.c(), n, p, j as int);
            in_of(n, p, j as int);
        };
    }
@fn fix_insert_slot
    requires self.shape(), room(self.c(), self.n()), index < self.n(), full(self.c()[index as int]) ==> self.n() < 16
    ensures r.index < self.n(), !full(self.c()[r.index as int]), !full(self.c()[index as int]) ==> r.index == index
@sub Group :: load_aligned ( self . ctrl ( 0 ) ) ==> self.load_aligned(0)
@sub . unwrap_unchecked ( ) ==> .unwrap()
@before index = self
    proof { let i = choose|i: int| 0 <= i < self.n() && !full(#[trigger] self.c()[i]); assert(self.c().subrange(0, 16)[i] == self.c()[i]); assert forall|j: int| 0 <= j < 16 implies self.c().subrange(0, 16)[j] == #[trigger] self.c()[j] by {}; }
@fn find_insert_slot
    requires self.shape(), room(self.c(), self.n())
    ensures slot_ok(self.c(), self.n(), hash as int, r.index as int)
@sub Group :: load ( self . ctrl ( probe_seq . pos ) ) ==> self.load(probe_seq.pos)
@sub . unwrap_unchecked ( ) ==> .unwrap()
@enter
    let ghost mut k: nat = 0;
    let ghost n = self.n();
    proof { lemma_groups(n); }
@loop 1
    invariant self.shape(), room(self.c(), self.n()), n == self.n(), probe_seq.at(n, hash as int, k), probe_seq.pos < n, k < groups(n), forall|m: nat| m < k ==> allfull(self.c(), #[trigger] pos(n, hash as int, m))
    decreases groups(n) - k
@before return self
    proof { step(n, hash as int, k); lemma_groups(n); assert(slot_at(self.c(), n, hash as int, index->0 as int, k)); if n < 16 { small_slots(self.c(), n, hash as int); } }
@before probe_seq . move_next
    proof {
        let i = choose|i: int| 0 <= i < self.n() && !full(#[trigger] self.c()[i]);
        assert forall|m: nat| m <= k implies forall|j: int| 0 <= j < 16 ==> #[trigger] self.c()[#[trigger] pos(n, hash as int, m) + j] != self.c()[i] by { if m == k {} assert(allfull(self.c(), pos(n, hash as int, m))); };
        left(self.c(), n, hash as int, k, i);
        lemma_groups(n);
        step(n, hash as int, k);
        k = k + 1;
    }
@fn prepare_insert_slot
    requires old(self).shape(), old(self).n() > 1, room(old(self).c(), old(self).n())
    ensures slot_ok(old(self).c(), old(self).n(), hash as int, r.0 as int), r.1 == old(self).c()[r.0 as int], final(self).shape(), *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).c()[r.0 as int] == tagof(hash), forall|i: int| 0 <= i < old(self).n() && i != r.0 ==> #[trigger] final(self).c()[i] == old(self).c()[i], final(self).c().len() == old(self).c().len(), forall|j: int| 0 <= j < old(self).c().len() ==> #[trigger] final(self).c()[j] == old(self).c()[j] || final(self).c()[j] == tagof(hash)
@sub * self . ctrl ( index ) ==> self.peek(index)
@fn find_inner foriter
    requires self.wf(), old(eq).inv(), old(eq).log().len() == 0, forall|i: int| 0 <= i < self.n() && full(self.c()[i]) ==> #[trigger] old(eq).may(i)
    ensures final(eq).inv(), final(eq).ctx() == old(eq).ctx(), grown(old(eq).log(), final(eq).log()), forall|j: int| #[trigger] final(eq).may(j) == old(eq).may(j), r is None ==> allno(final(eq).log(), old(eq).log().len() as int, final(eq).log().len() as int) && forall|i: int| 0 <= i < self.n() && full(self.c()[i]) && #[trigger] self.els@[i].0 == hash ==> denied(final(eq).log(), old(eq).log().len() as int, i), r matches Some(i) ==> i < self.n() && full(self.c()[i as int]) && final(eq).log().len() > old(eq).log().len() && final(eq).log().last() == (i as int, true) && allno(final(eq).log(), old(eq).log().len() as int, final(eq).log().len() - 1)
@sub eq : & mut dyn FnMut ( usize ) -> bool ==> eq: &mut F
@sub fn find_inner ( ==> fn find_inner<F: Ask>(
@sub eq ( index ) ==> eq.call(index)
@sub Group :: load ( self . ctrl ( probe_seq . pos ) ) ==> self.load(probe_seq.pos)
@enter
    let ghost mut k: nat = 0;
    let ghost n = self.n();
    let ghost l = eq.log().len() as int;
    proof { tag_full(hash); lemma_groups(n); assert(eq.log().subrange(0, l) == eq.log()); }
@loop 1
    invariant self.wf(), n == self.n(), l == old(eq).log().len(), tag_hash == tagof(hash), full(tag_hash), probe_seq.at(n, hash as int, k), probe_seq.pos < n, k < groups(n), forall|m: nat| m < k ==> noempty(self.c(), #[trigger] pos(n, hash as int, m)),
        forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), forall|i: int| 0 <= i < n && full(self.c()[i]) ==> #[trigger] old(eq).may(i),
        l == 0, eq.inv(), eq.ctx() == old(eq).ctx(), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int),
        forall|m: nat, i: int| m < k && 0 <= i < n && #[trigger] inwin(n, #[trigger] pos(n, hash as int, m), i) && self.c()[i] == tag_hash ==> denied(eq.log(), l, i)
    decreases groups(n) - k
@before for bit
    let ghost p = probe_seq.pos as int;
    let ghost mut lo: int = 0;
    let ghost log0 = eq.log();
    proof {
        assert(log0.subrange(0, log0.len() as int) == log0);
        step(n, hash as int, k);
        assert forall|j: int| #![trigger group@[j]] #![trigger self.c()[p + j]] 0 <= j < 16 implies group@[j] == self.c()[p + j] by { win_byte(self.c(), n, p, j); };
    }
@loop 2
    invariant_except_break self.wf(), n == self.n(), l == old(eq).log().len(), tag_hash == tagof(hash), full(tag_hash), p == probe_seq.pos, 0 <= p < n, group@ == self.c().subrange(p, p + 16),
        forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), forall|i: int| 0 <= i < n && full(self.c()[i]) ==> #[trigger] old(eq).may(i),
        l == 0, eq.inv(), eq.ctx() == old(eq).ctx(), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int), l <= log0.len(),
        forall|i: int| denied(log0, l, i) ==> #[trigger] denied(eq.log(), l, i),
        0 <= lo <= 16, forall|j: int| 0 <= j < lo ==> !(#[trigger] _it2@[j]),
        _it2@.len() == 16, forall|j: int| 0 <= j < 16 && #[trigger] _it2@[j] ==> full(self.c()[p + j]),
        forall|j: int| 0 <= j < 16 && #[trigger] self.c()[p + j] == tag_hash && !_it2@[j] ==> denied(eq.log(), l, (p + j) % n)
    ensures eq.inv(), eq.ctx() == old(eq).ctx(), forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int), forall|i: int| denied(log0, l, i) ==> #[trigger] denied(eq.log(), l, i), forall|j: int| 0 <= j < 16 && #[trigger] self.c()[p + j] == tag_hash ==> denied(eq.log(), l, (p + j) % n)
    decreases 16 - lo
@loopenter 2
    let ghost lb = eq.log();
    proof {
        lo = bit + 1;
        mask_mod((p + bit) as usize, n as usize);
        win_byte(self.c(), n, p, bit as int);
        denied_push(lb, l, ((p + bit) % n, false));
        denied_push(lb, l, ((p + bit) % n, true));
    }
@after if likely ( eq . call ( index ) )
    proof {
        assert(eq.log() == lb.push(((p + bit) % n, false)));
        assert(eq.log().subrange(0, old(eq).log().len() as int) == lb.subrange(0, old(eq).log().len() as int));
    }
@before return Some ( index )
    proof {
        assert(eq.log() == lb.push(((p + bit) % n, true)));
        assert(eq.log().subrange(0, old(eq).log().len() as int) == lb.subrange(0, old(eq).log().len() as int));
    }
@before if likely ( group . match_empty ( ) . any_bit_set ( ) )
    proof {
        assert forall|i: int| 0 <= i < n && #[trigger] inwin(n, p, i) && self.c()[i] == tag_hash implies denied(eq.log(), l, i) by { win_at(self.c(), n, p, i); let j = off(n, p, i); assert(self.c()[p + j] == tag_hash); };
    }
@before return None
    proof {
        assert(!noempty(self.c(), p));
        assert forall|i: int| 0 <= i < self.n() && full(self.c()[i]) && #[trigger] self.els@[i].0 == hash implies denied(eq.log(), l, i) by {
            let m = choose|m: nat| placed_at(self.c(), n, hash as int, i, m);
            assert(placed(self.c(), n, self.els@[i].0 as int, i));
            assert(m <= k);
            assert(inwin(n, pos(n, hash as int, m), i));
        };
    }
@before probe_seq . move_next
    proof {
        assert(noempty(self.c(), p)) by { assert forall|j: int| 0 <= j < 16 implies #[trigger] self.c()[p + j] != e_() by { assert(group@[j] == self.c()[p + j]); }; };
        more(*self, hash as int, k);
        lemma_groups(n);
        k = k + 1;
    }
@fn find_or_find_insert_slot_inner foriter
    requires self.wf(), old(eq).inv(), old(eq).log().len() == 0, forall|i: int| 0 <= i < self.n() && full(self.c()[i]) ==> #[trigger] old(eq).may(i)
    ensures final(eq).inv(), final(eq).ctx() == old(eq).ctx(), grown(old(eq).log(), final(eq).log()), forall|j: int| #[trigger] final(eq).may(j) == old(eq).may(j), r matches Err(s) ==> slot_ok(self.c(), self.n(), hash as int, s.index as int) && allno(final(eq).log(), old(eq).log().len() as int, final(eq).log().len() as int) && forall|i: int| 0 <= i < self.n() && full(self.c()[i]) && #[trigger] self.els@[i].0 == hash ==> denied(final(eq).log(), old(eq).log().len() as int, i), r matches Ok(i) ==> i < self.n() && full(self.c()[i as int]) && final(eq).log().len() > old(eq).log().len() && final(eq).log().last() == (i as int, true) && allno(final(eq).log(), old(eq).log().len() as int, final(eq).log().len() - 1)
@sub eq : & mut dyn FnMut ( usize ) -> bool ==> eq: &mut F
@sub fn find_or_find_insert_slot_inner ( ==> fn find_or_find_insert_slot_inner<F: Ask>(
@sub eq ( index ) ==> eq.call(index)
@sub Group :: load ( self . ctrl ( probe_seq . pos ) ) ==> self.load(probe_seq.pos)
@sub let mut insert_slot = None ; ==> let mut insert_slot: Option<usize> = None;
@enter
    let ghost mut ks: nat = 0;
    let ghost mut k: nat = 0;
    let ghost n = self.n();
    let ghost l = eq.log().len() as int;
    proof { tag_full(hash); lemma_groups(n); assert(eq.log().subrange(0, l) == eq.log()); }
@loop 1
    invariant self.wf(), n == self.n(), l == old(eq).log().len(), tag_hash == tagof(hash), full(tag_hash), probe_seq.at(n, hash as int, k), probe_seq.pos < n, k < groups(n), forall|m: nat| m < k ==> noempty(self.c(), #[trigger] pos(n, hash as int, m)),
        forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), forall|i: int| 0 <= i < n && full(self.c()[i]) ==> #[trigger] old(eq).may(i),
        l == 0, eq.inv(), eq.ctx() == old(eq).ctx(), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int),
        forall|m: nat, i: int| m < k && 0 <= i < n && #[trigger] inwin(n, #[trigger] pos(n, hash as int, m), i) && self.c()[i] == tag_hash ==> denied(eq.log(), l, i),
        match insert_slot { Some(s) => ks < k && s < n && slot_at(self.c(), n, hash as int, s as int, ks) && (full(self.c()[s as int]) ==> n < 16), None => forall|m: nat| m < k ==> allfull(self.c(), #[trigger] pos(n, hash as int, m)) }
    decreases groups(n) - k
@before for bit
    let ghost p = probe_seq.pos as int;
    let ghost mut lo: int = 0;
    let ghost log0 = eq.log();
    proof {
        assert(log0.subrange(0, log0.len() as int) == log0);
        step(n, hash as int, k);
        assert forall|j: int| #![trigger group@[j]] #![trigger self.c()[p + j]] 0 <= j < 16 implies group@[j] == self.c()[p + j] by { win_byte(self.c(), n, p, j); };
    }
@loop 2
    invariant_except_break self.wf(), n == self.n(), l == old(eq).log().len(), tag_hash == tagof(hash), full(tag_hash), p == probe_seq.pos, 0 <= p < n, group@ == self.c().subrange(p, p + 16),
        forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), forall|i: int| 0 <= i < n && full(self.c()[i]) ==> #[trigger] old(eq).may(i),
        l == 0, eq.inv(), eq.ctx() == old(eq).ctx(), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int), l <= log0.len(),
        forall|i: int| denied(log0, l, i) ==> #[trigger] denied(eq.log(), l, i),
        0 <= lo <= 16, forall|j: int| 0 <= j < lo ==> !(#[trigger] _it2@[j]),
        _it2@.len() == 16, forall|j: int| 0 <= j < 16 && #[trigger] _it2@[j] ==> full(self.c()[p + j]),
        forall|j: int| 0 <= j < 16 && #[trigger] self.c()[p + j] == tag_hash && !_it2@[j] ==> denied(eq.log(), l, (p + j) % n)
    ensures eq.inv(), eq.ctx() == old(eq).ctx(), forall|j: int| #[trigger] eq.may(j) == old(eq).may(j), grown(old(eq).log(), eq.log()), allno(eq.log(), l, eq.log().len() as int), forall|i: int| denied(log0, l, i) ==> #[trigger] denied(eq.log(), l, i), forall|j: int| 0 <= j < 16 && #[trigger] self.c()[p + j] == tag_hash ==> denied(eq.log(), l, (p + j) % n)
    decreases 16 - lo
@loopenter 2
    let ghost lb = eq.log();
    proof {
        lo = bit + 1;
        mask_mod((p + bit) as usize, n as usize);
        win_byte(self.c(), n, p, bit as int);
        denied_push(lb, l, ((p + bit) % n, false));
        denied_push(lb, l, ((p + bit) % n, true));
    }
@after if likely ( eq . call ( index ) )
    proof {
        assert(eq.log() == lb.push(((p + bit) % n, false)));
        assert(eq.log().subrange(0, old(eq).log().len() as int) == lb.subrange(0, old(eq).log().len() as int));
    }
@before return Ok ( index )
    proof {
        assert(eq.log() == lb.push(((p + bit) % n, true)));
        assert(eq.log().subrange(0, old(eq).log().len() as int) == lb.subrange(0, old(eq).log().len() as int));
    }
@before if likely ( insert_slot . is_none ( ) )
    proof {
        assert forall|i: int| 0 <= i < n && #[trigger] inwin(n, p, i) && self.c()[i] == tag_hash implies denied(eq.log(), l, i) by { win_at(self.c(), n, p, i); let j = off(n, p, i); assert(self.c()[p + j] == tag_hash); };
    }
@before if let Some ( insert_slot ) = insert_slot
    proof { if insert_slot is Some && (ks >= k || !slot_at(self.c(), n, hash as int, insert_slot->0 as int, ks)) { ks = k; } }
@before return Err
    proof {
        assert(!noempty(self.c(), p));
        if n < 16 { small_slots(self.c(), n, hash as int); }
        let z = has_empty(*self);
        assert(slot_at(self.c(), n, hash as int, insert_slot as int, ks));
        assert(n >= 16 ==> slot_ok(self.c(), n, hash as int, insert_slot as int));
        assert forall|i: int| 0 <= i < self.n() && full(self.c()[i]) && #[trigger] self.els@[i].0 == hash implies denied(eq.log(), l, i) by {
            let m = choose|m: nat| placed_at(self.c(), n, hash as int, i, m);
            assert(placed(self.c(), n, self.els@[i].0 as int, i));
            assert(m <= k);
            assert(inwin(n, pos(n, hash as int, m), i));
        };
    }
@before probe_seq . move_next
    proof {
        assert(noempty(self.c(), p)) by { assert forall|j: int| 0 <= j < 16 implies #[trigger] self.c()[p + j] != e_() by { assert(group@[j] == self.c()[p + j]); }; };
        if insert_slot is None { assert(allfull(self.c(), p)); }
        more(*self, hash as int, k);
        lemma_groups(n);
        k = k + 1;
    }
@fn record_item_insert_at
    requires old(self).wf(), old(self).n() > 1, free(old(self).c(), old(self).n(), hash as int, index as int), old_ctrl == old(self).c()[index as int], old_ctrl == e_() ==> old(self).growth_left > 0
    ensures final(self).shape(), final(self).counts(), final(self).bucket_mask == old(self).bucket_mask, final(self).items == old(self).items + 1, final(self).els == old(self).els, final(self).c()[index as int] == tagof(hash), forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).c()[i] == old(self).c()[i], forall|v: T| #![trigger old(self).els@.update(index as int, (hash, v))] chains(final(self).c(), final(self).n(), old(self).els@.update(index as int, (hash, v))) && bag(final(self).c(), final(self).n(), old(self).els@.update(index as int, (hash, v)), 0) == old(self).content().insert((hash, v))
@sub usize :: from ( $a ) ==> vbit($a)
@enter
    proof { count_bounds(self.c(), self.n()); tag_full(hash); }
    let ghost c = self.c();
    let ghost n = self.n();
    let ghost els = self.els@;
@after self . items += 1
    proof {
        counts_upd(c, self.c(), n, index as int);
        assert forall|v: T| #![trigger els.update(index as int, (hash, v))] chains(self.c(), n, els.update(index as int, (hash, v))) && bag(self.c(), n, els.update(index as int, (hash, v)), 0) == bag(c, n, els, 0).insert((hash, v)) by {
            fill(c, self.c(), n, els, index as int, hash, v);
            bag_add(c, self.c(), n, els, els.update(index as int, (hash, v)), 0, index as int);
        };
    }
@fn is_in_same_group
    requires self.shape(), i < self.n(), new_i < self.n()
    ensures r == (region(self.n(), hash as int, i as int) == region(self.n(), hash as int, new_i as int))
@closure 1 (usize) -> (o: usize)
    requires pos < self.n()
    ensures o == region(self.n(), hash as int, pos as int)
@center 1
    proof { let n = self.n(); mask_mod(pos.wrapping_sub(probe_seq_pos), n as usize); wsub_mod(pos, probe_seq_pos, n as usize); step(n, hash as int, 0); }
@fn clear_no_drop
    requires old(self).shape(), old(self).els@.len() == old(self).n()
    ensures final(self).wf(), final(self).items == 0, final(self).bucket_mask == old(self).bucket_mask, final(self).content() == Multiset::<(u64, T)>::empty(), final(self).growth_left == cap_of(final(self).n())
@sub self . ctrl_slice ( ) . fill_empty ( ) ==> self.fill_empty()
@after self . growth_left = bucket_mask_to_capacity ( self . bucket_mask )
    proof {
        count_zero(self.c(), self.n(), 0);
        count_zero(self.c(), self.n(), 1);
        bag_none(self.c(), self.n(), self.els@, 0);
    }
@fn erase
    requires old(self).wf(), index < old(self).n(), full(old(self).c()[index as int])
    ensures final(self).wf(), final(self).bucket_mask == old(self).bucket_mask, final(self).items == old(self).items - 1, final(self).els == old(self).els, final(self).growth_left >= old(self).growth_left, !full(final(self).c()[index as int]), forall|i: int| 0 <= i < old(self).n() && i != index ==> #[trigger] final(self).c()[i] == old(self).c()[i], final(self).content() == old(self).content().remove(old(self).els@[index as int]), free(final(self).c(), final(self).n(), old(self).els@[index as int].0 as int, index as int), final(self).c()[index as int] == e_() ==> final(self).growth_left > 0, old(self).n() > 1
@sub Group :: load ( self . ctrl ( index_before ) ) ==> self.load(index_before)
@sub Group :: load ( self . ctrl ( index ) ) ==> self.load(index)
@enter
    let ghost c = self.c();
    let ghost n = self.n();
    let ghost els = self.els@;
    proof {
        mask_mod(index.wrapping_sub(16), n as usize);
        sub_mod(index, n as usize);
        count_bounds(c, n);
        count_pos(c, n, 0, index as int);
    }
@before let ctrl = if
    let ghost lz = empty_before@;
    let ghost tz = empty_after@;
    proof {
        assert forall|j: int| 0 <= j < 16 implies #[trigger] lz[j] == (c[index_before + j] == e_()) by { assert(c.subrange(index_before as int, index_before + 16)[j] == c[index_before + j]); };
        assert forall|j: int| 0 <= j < 16 implies #[trigger] tz[j] == (c[index + j] == e_()) by { assert(c.subrange(index as int, index + 16)[j] == c[index + j]); };
        assert forall|a: int, b: int| #![trigger lz[15 - a], tz[b]] 0 <= a <= 16 && 0 <= b <= 16 && a + b < 16 && (a < 16 ==> lz[15 - a]) && (b < 16 ==> tz[b]) implies broken(c, n, index as int) by { ring_gap(c, n, index as int, index_before as int, a, b); };
    }
@after self . items -= 1
    proof {
        counts_upd(c, self.c(), n, index as int);
        bag_del(c, self.c(), n, els, els, 0, index as int);
        assert forall|i: int| 0 <= i < n && full(#[trigger] c[i]) implies placed(self.c(), n, els[i].0 as int, i) by {
            let k = choose|k: nat| placed_at(c, n, els[i].0 as int, i, k);
            assert forall|m: nat| m < k implies noempty(self.c(), #[trigger] pos(n, els[i].0 as int, m)) by {
                let p = pos(n, els[i].0 as int, m);
                step(n, els[i].0 as int, m);
                assert(noempty(c, p));
                assert forall|j: int| 0 <= j < 16 implies #[trigger] self.c()[p + j] != e_() by { win_byte(c, n, p, j); win_byte(self.c(), n, p, j); if self.c()[p + j] == e_() { in_of(n, p, j); } };
            };
            assert(placed_at(self.c(), n, els[i].0 as int, i, k));
        };
    }
@fn prepare_rehash_in_place foriter
    requires old(self).shape(), old(self).n() > 1
    ensures final(self).shape(), *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).c()[i] == conv(old(self).c()[i])
@sub ( 0 .. self . buckets ( ) ) . step_by ( Group :: WIDTH ) ==> Steps::new(0, self.buckets(), Group::WIDTH)
@sub Group :: load_aligned ( self . ctrl ( i ) ) ==> self.load_aligned(i)
@sub group . store_aligned ( self . ctrl ( i ) ) ==> self.store_aligned(i, group)
@sub self . ctrl ( $a ) . copy_to ( self . ctrl ( $b ) , $c ) ==> { let a_ = $a; let b_ = $b; let c_ = $c; self.copy_ctrl(a_, b_, c_) }
@enter
    let ghost c = self.c();
    let ghost n = self.n();
    proof { if n >= 16 { let e = p2_split(n); } else { p2_small(n); } }
@loop 1
    invariant_except_break n == self.n(), n > 1, ctl(c, n), c.len() == n + 16, n >= 16 ==> n % 16 == 0, *self == (RawTableInner { mem: self.mem, ..*old(self) }), self.c().len() == c.len(), _it1.at % 16 == 0, _it1.by == 16, _it1.end == n, _it1.at <= n || (n < 16 && _it1.at == 16),
        forall|j: int| 0 <= j < c.len() ==> #[trigger] self.c()[j] == if j < _it1.at { conv(c[j]) } else { c[j] }
    ensures self.c().len() == c.len(), *self == (RawTableInner { mem: self.mem, ..*old(self) }), forall|j: int| 0 <= j < c.len() ==> #[trigger] self.c()[j] == if j < n || j < 16 { conv(c[j]) } else { c[j] }
    decreases n + 16 - _it1.at
@fn rehash_in_place foriter
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@spec
    requires agrees(old(self).content(), hasher.of()), old(self).shape(), old(self).n() > 1, old(self).els@.len() == old(self).n(), old(self).items == nfull(old(self).c(), old(self).n()), old(self).items <= cap_of(old(self).n())
    ensures final(self).wf(), final(self).bucket_mask == old(self).bucket_mask, final(self).items == old(self).items, final(self).growth_left == cap_of(final(self).n()) - final(self).items, final(self).content() == old(self).content()
@sub hasher : & dyn Fn ( & mut Self , usize ) -> u64 ==> hasher: &Hasher<T>
@sub , drop : Option < unsafe fn ( * mut u8 ) > , ==> ,
@sub let mut guard = guard ( self , $a ) ; ==> 
@sub mem :: forget ( guard ) ; ==> 
@sub 0 .. guard . buckets ( ) ==> Steps::new(0, self.buckets(), 1)
@sub hasher ( * guard , i ) ==> hasher.call_rescued(self, i, Ghost(old(self).content()))
@sub let i_p = guard . bucket_ptr ( i , size_of ) ; ==> let i_p = i;
@sub let new_i_p = guard . bucket_ptr ( new_i , size_of ) ; ==> let new_i_p = new_i;
@sub ptr :: copy_nonoverlapping ( i_p , new_i_p , size_of ) ==> self.move_el(i_p, new_i_p)
@sub ptr :: swap_nonoverlapping ( i_p , new_i_p , size_of ) ==> self.swap_el(i_p, new_i_p)
@sub * guard . ctrl ( i ) ==> self.peek(i)
@sub debug_assert_eq ! ( prev_ctrl , Tag :: DELETED ) ==> vassert(prev_ctrl == Tag::DELETED)
@sub guard . ==> self.
@enter
    let ghost c0 = self.c();
    let ghost n = self.n();
    let ghost e0 = self.els@;
@before 'outer : for
    proof {
        count_bounds(c0, n);
        bag_same(c0, self.c(), n, e0, e0, 0, 3);
        count_conv(c0, self.c(), n);
        assert(strong(self.c(), n, self.els@));
    }
@loop 1
    invariant_except_break self.shape(), n == self.n(), n > 1, *self == (RawTableInner { mem: self.mem, els: self.els, ..*old(self) }), strong(self.c(), n, self.els@), bag(self.c(), n, self.els@, 3) == bag(c0, n, e0, 0), count(self.c(), n, 3) == nfull(c0, n), _it1.by == 1, _it1.end == n, _it1.at <= n, forall|j: int| 0 <= j < _it1.at ==> #[trigger] self.c()[j] != d_()
    ensures self.shape(), *self == (RawTableInner { mem: self.mem, els: self.els, ..*old(self) }), strong(self.c(), n, self.els@), bag(self.c(), n, self.els@, 3) == bag(c0, n, e0, 0), count(self.c(), n, 3) == nfull(c0, n), forall|j: int| 0 <= j < n ==> #[trigger] self.c()[j] != d_()
    decreases n - _it1.at
@loop 2
    invariant self.shape(), n == self.n(), n > 1, *self == (RawTableInner { mem: self.mem, els: self.els, ..*old(self) }), strong(self.c(), n, self.els@), bag(self.c(), n, self.els@, 3) == bag(c0, n, e0, 0), count(self.c(), n, 3) == nfull(c0, n), i < n, i_p == i, self.c()[i as int] == d_(), _it1.by == 1, _it1.end == n, _it1.at == i + 1, forall|j: int| 0 <= j < i ==> #[trigger] self.c()[j] != d_()
    decreases ndel(self.c(), n)
@loopenter 2
    let ghost c = self.c();
    let ghost els = self.els@;
    proof { count_bounds(c, n); assert(room(c, n)); bag_has(c, n, els, 3, i as int); }
@after let new_i = self
    proof { tag_full(hash); assert(filed(c, n, hash as int, new_i as int)); if region(n, hash as int, i as int) == region(n, hash as int, new_i as int) { same_win(c, n, hash as int, i as int, new_i as int); } }
@after self . set_ctrl_hash ( i , hash )
    proof {
        strong_fill(c, self.c(), n, els, els, i as int, hash);
        counts_upd(c, self.c(), n, i as int);
        bag_same(c, self.c(), n, els, els, 3, 3);
    }
@after let prev_ctrl = self
    let ghost c1 = self.c();
    proof { counts_upd(c, c1, n, new_i as int); }
@after self . move_el ( i_p , new_i_p )
    proof {
        strong_fill(c, self.c(), n, els, self.els@, new_i as int, hash);
        counts_upd(c1, self.c(), n, i as int);
        bag_add(c, c1, n, els, self.els@, 3, new_i as int);
        bag_del(c1, self.c(), n, self.els@, self.els@, 3, i as int);
        assert(bag(c, n, els, 3).insert(els[i as int]).remove(els[i as int]) =~= bag(c, n, els, 3));
    }
@after self . swap_el ( i_p , new_i_p )
    proof {
        strong_fill(c, self.c(), n, els, self.els@, new_i as int, hash);
        count_bounds(c1, n);
        bag_swap(c, c1, n, els, self.els@, i as int, new_i as int);
    }
@after self . growth_left = bucket_mask_to_capacity
    proof {
        strong_chains(self.c(), n, self.els@);
        count_bounds(self.c(), n);
        count_zero(self.c(), n, 1);
        bag_same(self.c(), self.c(), n, self.els@, self.els@, 3, 0);
    }
@fn new
    ensures r.wf(), r.n() == 1, r.items == 0, r.growth_left == 0, r.content() == Multiset::<(u64, T)>::empty()
@sub Self { ctrl : unsafe { $a } , ==> let (mem, els) = static_mem::<T>(); proof { p2_lits(); count_zero(mem@, 1, 0); count_zero(mem@, 1, 1); bag_none(mem@, 1, els@, 0); } Self { mem, els,
@fn new_uninitialized
    requires p2(buckets as int), buckets > 1
    ensures r.n() == buckets, r.c().len() == buckets + 16, r.els@.len() == buckets, r.items == 0, r.growth_left == cap_of(buckets as int), buckets <= 0x4000_0000_0000_0000
@sub debug_assert ! ( buckets . is_power_of_two ( ) ) ; ==> 
@sub let ( layout , ctrl_offset ) = table_layout . calculate_layout_for ( buckets ) . unwrap ( ) ; ==> let (layout, ctrl_offset) = vlayout(table_layout, buckets); proof { p2_le(buckets as int); }
@sub let ptr : NonNull < u8 > = NonNull :: new ( alloc :: alloc :: alloc ( layout ) ) . unwrap ( ) ; ==> 
@sub let ctrl = NonNull :: new_unchecked ( ptr . as_ptr ( ) . add ( ctrl_offset ) ) ; ==> let (mem, els) = raw_mem::<T>(buckets);
@sub Self { ctrl , ==> Self { mem, els,
@fn with_capacity
    ensures r.wf(), r.items == 0, r.content() == Multiset::<(u64, T)>::empty(), r.growth_left >= capacity, capacity > 0 ==> r.n() > 1, r.growth_left == cap_of(r.n())
@sub Self :: NEW ==> Self::new()
@sub capacity_to_buckets ( capacity , table_layout ) . unwrap ( ) ==> unwrap_or_panic(capacity_to_buckets(capacity, table_layout))
@sub result . ctrl_slice ( ) . fill_empty ( ) ==> result.fill_empty()
@after result . fill_empty ( )
    proof { count_zero(result.c(), result.n(), 0); count_zero(result.c(), result.n(), 1); bag_none(result.c(), result.n(), result.els@, 0); }
@fn prepare_resize
    requires self.items <= capacity
    ensures r.wf(), r.items == 0, r.content() == Multiset::<(u64, T)>::empty(), r.growth_left >= capacity, capacity > 0 ==> r.n() > 1, r.growth_left == cap_of(r.n())
@sub -> crate :: scopeguard :: ScopeGuard < Self , impl FnMut ( & mut Self ) + 'a > ==> -> Self
@sub guard ( new_table , $a ) ==> new_table
@sub prepare_resize < 'a > ==> prepare_resize
@fn full_buckets_indices
    requires self.shape(), self.items == nfull(self.c(), self.n())
    ensures r.ok(self.n()), r.c() == self.c(), r.lo@ == 0
@sub let ctrl = NonNull :: new_unchecked ( self . ctrl ( 0 ) . cast :: < u8 > ( ) ) ; ==> let ctrl = Cur { mem: Ghost(self.mem@), at: 0 };
@sub Group :: load_aligned ( ctrl . as_ptr ( ) . cast ( ) ) ==> ctrl.load_aligned()
@sub items : self . items , ==> items: self.items, lo: Ghost(0),
@enter
    proof { assert forall|j: int| 0 <= j < 16 implies self.c().subrange(0, 16)[j] == #[trigger] self.c()[0 + j] && (full(self.c()[j]) ==> j < self.n()) by {}; }
@fn resize_inner foriter
    requires agrees(old(self).content(), hasher.of()), old(self).wf(), capacity > 0, old(self).items <= capacity
    ensures final(self).wf(), final(self).items == old(self).items, final(self).content() == old(self).content(), final(self).n() > 1, final(self).growth_left >= capacity - final(self).items
@sub hasher : & dyn Fn ( & mut Self , usize ) -> u64 ==> hasher: &Hasher<T>
@sub mem :: swap ==> core::mem::swap
@sub hasher ( self , full_byte_index ) ==> hasher.call_intact(self, full_byte_index, Ghost(*old(self)))
@sub ptr :: copy_nonoverlapping ( self . bucket_ptr ( full_byte_index , layout . size ) , new_table . bucket_ptr ( new_index , layout . size ) , layout . size , ) ==> new_table.take_el(self, full_byte_index, new_index)
@enter
    let ghost n = self.n();
    let ghost c = self.c();
    let ghost els = self.els@;
@before for full_byte_index
    let ghost m = new_table.n();
    let ghost mut lo: int = 0;
    proof { count_bounds(new_table.c(), m); count_le(c, 0, n); }
@loop 1
    invariant_except_break agrees(self.content(), hasher.of()), *self == *old(self), self.wf(), n == self.n(), c == self.c(), els == self.els@, self.items <= capacity, m > 1, m == new_table.n(), new_table.shape(), new_table.items == 0, new_table.growth_left == cap_of(m), cap_of(m) >= capacity, chains(new_table.c(), m, new_table.els@), ndel(new_table.c(), m) == 0, nfull(new_table.c(), m) == nfull(c, lo), bag(new_table.c(), m, new_table.els@, 0) == bag(c, lo, els, 0), _it1.ok(n), _it1.c() == c, lo == _it1.lo@
    ensures new_table.shape(), m == new_table.n(), new_table.items == 0, new_table.growth_left == cap_of(m), chains(new_table.c(), m, new_table.els@), ndel(new_table.c(), m) == 0, nfull(new_table.c(), m) == nfull(c, lo), bag(new_table.c(), m, new_table.els@, 0) == bag(c, lo, els, 0), gap(c, lo, n), 0 <= lo <= n
    decreases _it1.items
@loopenter 1
    let ghost d = new_table.c();
    let ghost es = new_table.els@;
    let ghost i = full_byte_index as int;
    proof {
        tag_full(els[i].0);
        bag_has(c, n, els, 0, i);
        count_gap(c, els, lo, i);
        count_le(c, i + 1, n);
        count_bounds(d, m);
        assert(nfull(d, m) < m);
        let z = has_room(d, m);
    }
@after new_table . take_el
    proof {
        slot_free(d, m, hash as int, new_index as int);
        fill(d, new_table.c(), m, es, new_index as int, hash, els[i].1);
        assert(new_table.els@ == es.update(new_index as int, (hash, els[i].1)));
        counts_upd(d, new_table.c(), m, new_index as int);
        count_pos2(d, m, new_index as int);
        bag_add(d, new_table.c(), m, es, new_table.els@, 0, new_index as int);
        lo = i + 1;
    }
@loopexit 1
    proof { count_gap(c, els, lo, n); count_bounds(new_table.c(), m); }
@fn reserve_rehash_inner
    requires agrees(old(self).content(), hasher.of()), old(self).wf(), additional > old(self).growth_left
    ensures final(self).wf(), final(self).items == old(self).items, final(self).content() == old(self).content(), final(self).growth_left >= additional, final(self).n() > 1
@sub hasher : & dyn Fn ( & mut Self , usize ) -> u64 ==> hasher: &Hasher<T>
@sub , drop : Option < unsafe fn ( * mut u8 ) > , ==> ,
@sub self . rehash_in_place ( hasher , layout . size , drop ) ==> self.rehash_in_place(hasher, layout.size)
@sub let new_items = self . items . checked_add ( additional ) . expect ( $a ) ; ==> let new_items = unwrap_or_panic(self.items.checked_add(additional));
@sub usize :: max ( new_items , full_capacity + 1 ) ==> vmax(new_items, full_capacity + 1)
@enter
    proof { count_bounds(self.c(), self.n()); }
@endimpl
@verbatim
// ---- the typed table ------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct RawTable<T, E, G, R> { pub table: RawTableInner<T>, pub marker: core::marker::PhantomData<(T, E, G, R)> }
/// a pointer to an element: its bucket
pub struct Bucket { pub index: usize }
impl<T, E, G, R> RawTable<T, E, G, R> {
    pub open spec fn wf(&self) -> bool { self.table.wf() }
    pub open spec fn view(&self) -> Multiset<(u64, T)> { self.table.content() }
    pub open spec fn at(&self, b: Bucket) -> (u64, T) { self.table.els@[b.index as int] }
    pub open spec fn holds(&self, b: Bucket) -> bool { b.index < self.table.n() && full(self.table.c()[b.index as int]) }
    /// where an insertion of hash h can go, with room for it
    pub open spec fn takes(&self, h: u64, s: InsertSlot) -> bool {
        self.table.n() > 1 && free(self.table.c(), self.table.n(), h as int, s.index as int) && (self.table.c()[s.index as int] == e_() ==> self.table.growth_left > 0)
    }
    #[verifier::external_body]
    pub fn layout() -> (r: TableLayout) { unimplemented!() }
}
@end
@gsub Self :: TABLE_LAYOUT ==> Self::layout()
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn new id=RawTable::new
    ensures r.wf(), r.table.n() == 1, r@ == Multiset::<(u64, T)>::empty()
@sub RawTableInner :: NEW ==> RawTableInner::new()
@sub marker : PhantomData ==> marker: core::marker::PhantomData
@fn with_capacity id=RawTable::with_capacity
    ensures r.wf(), r@ == Multiset::<(u64, T)>::empty(), r.table.growth_left >= capacity
@fn with_capacity_in
    ensures r.wf(), r@ == Multiset::<(u64, T)>::empty(), r.table.growth_left >= capacity
@sub marker : PhantomData ==> marker: core::marker::PhantomData
@fn capacity
    requires self.wf()
    ensures r == self.table.items + self.table.growth_left, r == cap_of(self.table.n()) - ndel(self.table.c(), self.table.n())
@enter
    proof { count_bounds(self.table.c(), self.table.n()); }
@fn len
    requires self.wf()
    ensures r == self@.len()
@enter
    proof { bag_len(self.table.c(), self.table.n(), self.table.els@, 0); }
@fn is_empty
    requires self.wf()
    ensures r == (self@.len() == 0)
@fn buckets id=RawTable::buckets
    requires self.table.shape()
    ensures r == self.table.n()
@fn is_bucket_full id=RawTable::is_bucket_full
    requires self.table.shape(), index < self.table.n()
    ensures r == full(self.table.c()[index as int])
@fn bucket_index
    ensures r == bucket.index
@sub & Bucket < T > ==> &Bucket
@sub bucket . to_base_index ( self . data_end ( ) ) ==> bucket.index
@fn bucket
    requires self.table.shape(), index < self.table.n(), self.table.n() > 1
    ensures r.index == index
@sub -> Bucket < T > ==> -> Bucket
@sub Bucket :: from_base_index ( self . data_end ( ) , index ) ==> Bucket { index }
@fn erase_no_drop
    requires old(self).wf(), old(self).holds(*item)
    ensures final(self).wf(), final(self)@ == old(self)@.remove(old(self).at(*item)), final(self).table.els == old(self).table.els, final(self).table.bucket_mask == old(self).table.bucket_mask, !final(self).holds(*item), final(self).takes(old(self).at(*item).0, InsertSlot { index: item.index }), final(self).table.items == old(self).table.items - 1, forall|i: int| 0 <= i < old(self).table.n() && i != item.index ==> #[trigger] final(self).table.c()[i] == old(self).table.c()[i]
@sub item : & Bucket < T > ==> item: &Bucket
@fn erase id=RawTable::erase
    requires old(self).wf(), old(self).holds(item)
    ensures final(self).wf(), !final(self).holds(item), final(self)@ == old(self)@.remove(old(self).at(item)), final(self).table.els == old(self).table.els, final(self).table.bucket_mask == old(self).table.bucket_mask, forall|i: int| 0 <= i < old(self).table.n() && i != item.index ==> #[trigger] final(self).table.c()[i] == old(self).table.c()[i]
@sub item : Bucket < T > ==> item: Bucket
@sub item . drop ( ) ==> drop_gone(&self.table, item.index)
@fn remove
    requires old(self).wf(), old(self).holds(item)
    ensures r.0 == old(self).at(item).1, r.1.index == item.index, final(self).takes(old(self).at(item).0, r.1), final(self).wf(), final(self)@ == old(self)@.remove(old(self).at(item)), final(self).table.items == old(self).table.items - 1, !full(final(self).table.c()[item.index as int]), final(self).table.els == old(self).table.els, final(self).table.bucket_mask == old(self).table.bucket_mask, forall|i: int| 0 <= i < old(self).table.n() && i != item.index ==> #[trigger] final(self).table.c()[i] == old(self).table.c()[i]
@sub item : Bucket < T > ==> item: Bucket
@sub item . read ( ) ==> self.table.read_el(item.index)
@fn clear_no_drop id=RawTable::clear_no_drop
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == Multiset::<(u64, T)>::empty(), final(self).table.growth_left == cap_of(final(self).table.n()), final(self).table.bucket_mask == old(self).table.bucket_mask
@fn reserve_rehash
    requires agrees(old(self)@, hasher.of()), old(self).wf(), additional > old(self).table.growth_left
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).table.growth_left >= additional, final(self).table.n() > 1
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub & | table , index | hasher ( table . bucket :: < T > ( index ) . as_ref ( ) ) , ==> &hasher,
@sub Self :: TABLE_LAYOUT , if T :: NEEDS_DROP { $a } else { None } , ==> Self::layout()
@fn resize
    requires agrees(old(self)@, hasher.of()), old(self).wf(), capacity > 0, old(self).table.items <= capacity
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).table.n() > 1, final(self).table.items + final(self).table.growth_left >= capacity
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub & | table , index | hasher ( table . bucket :: < T > ( index ) . as_ref ( ) ) , ==> &hasher,
@fn reserve
    requires old(self).wf(), additional <= old(self).table.growth_left || agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).table.growth_left >= additional, additional > 0 ==> final(self).table.n() > 1
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@enter
    proof { count_bounds(self.table.c(), self.table.n()); }
@fn shrink_to
    requires old(self).wf(), agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).table.items + final(self).table.growth_left >= final(self).table.items
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub usize :: max ==> vmax
@sub mem :: replace ( & mut self . table , RawTableInner :: NEW ) ==> vreplace(&mut self.table, RawTableInner::new())
@sub mem :: replace ( & mut self . table , new_inner ) ==> vreplace(&mut self.table, new_inner)
@sub old_inner . drop_inner_table :: < T > ==> old_inner.drop_inner_table
@enter
    proof { bag_len(self.table.c(), self.table.n(), self.table.els@, 0); }
@fn insert_in_slot
    requires old(self).wf(), old(self).takes(hash, slot)
    ensures final(self).wf(), final(self)@ == old(self)@.insert((hash, value)), final(self).holds(r), r.index == slot.index, final(self).at(r) == (hash, value), final(self).table.bucket_mask == old(self).table.bucket_mask, forall|i: int| 0 <= i < old(self).table.n() && i != slot.index ==> #[trigger] final(self).table.c()[i] == old(self).table.c()[i] && final(self).table.els@[i] == old(self).table.els@[i]
@sub -> Bucket < T > ==> -> Bucket
@sub * self . table . ctrl ( slot . index ) ==> self.table.peek(slot.index)
@sub let bucket = self . bucket ( slot . index ) ; bucket . write ( value ) ; ==> self.table.put_el(slot.index, hash, value); let bucket = self.bucket(slot.index);
@enter
    proof { tag_full(hash); }
@before self . table . put_el
    proof { let x = self.table.els@.update(slot.index as int, (hash, value)); assert(chains(self.table.c(), self.table.n(), x)); }
@fn insert
    requires old(self).wf(), old(self).table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@.insert((hash, value)), final(self).holds(r), final(self).at(r) == (hash, value)
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub -> Bucket < T > ==> -> Bucket
@sub * self . table . ctrl ( slot . index ) ==> self.table.peek(slot.index)
@enter
    proof { let i = has_empty(self.table); assert(room(self.table.c(), self.table.n())); count_bounds(self.table.c(), self.table.n()); }
@before self . insert_in_slot
    proof { slot_free(self.table.c(), self.table.n(), hash as int, slot.index as int); }
@after self . reserve ( 1 , hasher )
    proof { let i = has_empty(self.table); assert(room(self.table.c(), self.table.n())); }
@endimpl
@item struct RawIterRange
@sub RawIterRange < T > ==> RawIterRange
@sub Bucket < T > ==> Bucket
@sub next_ctrl : * const u8 ==> next_ctrl: Cur
@sub end : * const u8 ==> end: Cur, lo: Ghost<int>
@item struct RawIter
@sub RawIter < T > ==> RawIter
@sub RawIterRange < T > ==> RawIterRange
@verbatim
impl Bucket {
    pub fn next_n(&self, k: usize) -> (r: Bucket) requires self.index + k <= usize::MAX ensures r.index == self.index + k { Bucket { index: self.index + k } }
}
impl RawIterRange {
    pub open spec fn c(&self) -> Seq<Tag> { self.next_ctrl.mem@ }
    /// everything full from lo on is still to come
    pub open spec fn ok(&self, n: int) -> bool {
        let at = self.data.index as int;
        &&& ctl(self.c(), n) && self.next_ctrl.at == at + 16 && at % 16 == 0 && at < n && self.end.at == n
        &&& 0 <= self.lo@ <= n && at <= self.lo@ <= at + 16
        &&& self.current_group@.len() == 16 && forall|j: int| #![trigger self.current_group@[j]] #![trigger self.c()[at + j]] 0 <= j < 16 ==> self.current_group@[j] == (at + j >= self.lo@ && at + j < n && full(self.c()[at + j]))
    }
    /// how many are left
    pub open spec fn rest(&self, n: int) -> int { nfull(self.c(), n) - nfull(self.c(), self.lo@) }
}
impl RawIter {
    pub open spec fn ok(&self, n: int) -> bool { self.iter.ok(n) && self.items == self.iter.rest(n) }
}
@end
@impl impl < T > RawIterRange < T > => impl RawIterRange
@fn new id=RawIterRange::new
    requires ctl(ctrl.mem@, len as int), ctrl.at == 0, data.index == 0
    ensures r.ok(len as int), r.lo@ == 0, r.c() == ctrl.mem@
@sub ctrl : * const u8 ==> ctrl: Cur
@sub Bucket < T > ==> Bucket
@sub debug_assert_ne ! ( len , 0 ) ==> vassert(len != 0)
@sub debug_assert_eq ! ( ctrl as usize % Group :: WIDTH , 0 ) ==> vassert(ctrl.at % Group::WIDTH == 0)
@sub Group :: load_aligned ( ctrl . cast ( ) ) ==> ctrl.load_aligned()
@sub next_ctrl , end , ==> next_ctrl, end, lo: Ghost(0),
@enter
    proof { assert forall|j: int| 0 <= j < 16 implies ctrl.mem@.subrange(0, 16)[j] == #[trigger] ctrl.mem@[0 + j] && (full(ctrl.mem@[j]) ==> j < len) by {}; }
@fn next_impl id=RawIterRange::next_impl
    requires exists|n: int| #[trigger] old(self).ok(n) && (!DO_CHECK_PTR_RANGE ==> old(self).rest(n) > 0)
    ensures final(self).c() == old(self).c(), forall|n: int| #[trigger] old(self).ok(n) ==> final(self).ok(n) && match r {
        Some(b) => old(self).lo@ <= b.index < n && full(old(self).c()[b.index as int]) && gap(old(self).c(), old(self).lo@, b.index as int) && final(self).lo@ == b.index + 1 && final(self).rest(n) == old(self).rest(n) - 1,
        None => DO_CHECK_PTR_RANGE && gap(old(self).c(), old(self).lo@, n) && final(self).lo@ == n }
@sub -> Option < Bucket < T >> ==> -> Option<Bucket>
@sub Group :: load_aligned ( self . next_ctrl . cast ( ) ) ==> self.next_ctrl.load_aligned()
@sub self . next_ctrl >= self . end ==> self.next_ctrl.at >= self.end.at
@enter
    let ghost n = choose|n: int| #[trigger] old(self).ok(n) && (!DO_CHECK_PTR_RANGE ==> old(self).rest(n) > 0);
    let ghost c = self.c();
    let ghost lo = self.lo@;
    let ghost mut hi = self.lo@;
    proof {
        len_n(c);
        if n >= 16 { let e = p2_split(n); } else { p2_small(n); }
    }
@loop 1
    invariant old(self).ok(n), self.ok(n), n >= 16 ==> n % 16 == 0, c == self.c(), c == old(self).c(), lo == old(self).lo@, lo <= self.lo@, gap(c, lo, self.lo@), !DO_CHECK_PTR_RANGE ==> self.rest(n) > 0, self.rest(n) == old(self).rest(n)
    decreases n - self.data.index
@loopenter 1
    let ghost g0 = self.current_group@;
    let ghost at = self.data.index as int;
    proof { assert forall|j: int| #![trigger g0[j]] #![trigger c[at + j]] 0 <= j < 16 implies g0[j] == (at + j >= self.lo@ && at + j < n && full(c[at + j])) by { assert(self.current_group@[j] == g0[j]); }; }
@before return Some
    proof {
        assert(gap(c, self.lo@, at + index)) by { assert forall|j: int| self.lo@ <= j < at + index implies !full(#[trigger] c[j]) by { let k = j - at; assert(!g0[k]); }; };
        assert(g0[index as int]);
        count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, at + index);
    }
    self.lo = Ghost(self.data.index + index + 1);
@before if DO_CHECK_PTR_RANGE
    proof {
        assert(gap(c, self.lo@, if at + 16 <= n { at + 16 } else { n })) by { assert forall|j: int| self.lo@ <= j < at + 16 && j < n implies !full(#[trigger] c[j]) by { let k = j - at; assert(!g0[k]); }; };
        if at + 16 >= n { count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, n); }
    }
@before return None
    self.lo = Ghost(n);
@before self . current_group = self
    proof { count_gap(c, Seq::<(u64, int)>::empty(), self.lo@, at + 16); }
    self.lo = Ghost(self.data.index + 16);
@endimpl
@impl impl < T > Iterator for RawIterRange < T > => impl RawIterRange
@fn next id=RawIterRange::next
    requires exists|n: int| #[trigger] old(self).ok(n)
    ensures final(self).c() == old(self).c(), forall|n: int| #[trigger] old(self).ok(n) ==> final(self).ok(n) && match r {
        Some(b) => old(self).lo@ <= b.index < n && full(old(self).c()[b.index as int]) && gap(old(self).c(), old(self).lo@, b.index as int) && final(self).lo@ == b.index + 1,
        None => gap(old(self).c(), old(self).lo@, n) }
@sub -> Option < Bucket < T >> ==> -> Option<Bucket>
@endimpl
@impl impl < T > Iterator for RawIter < T > => impl RawIter
@fn next id=RawIter::next
    requires exists|n: int| #[trigger] old(self).ok(n)
    ensures final(self).iter.c() == old(self).iter.c(), final(self).iter.lo@ >= old(self).iter.lo@, forall|n: int| #[trigger] old(self).ok(n) ==> final(self).ok(n) && match r {
        Some(b) => old(self).iter.lo@ <= b.index < n && full(old(self).iter.c()[b.index as int]) && gap(old(self).iter.c(), old(self).iter.lo@, b.index as int) && final(self).iter.lo@ == b.index + 1,
        None => gap(old(self).iter.c(), old(self).iter.lo@, n) }
@sub -> Option < Bucket < T >> ==> -> Option<Bucket>
@enter
    proof {
        let n = choose|n: int| #[trigger] old(self).ok(n);
        assert(old(self).iter.ok(n));
        len_n(old(self).iter.c());
        assert forall|m: int| #[trigger] old(self).iter.ok(m) implies m == n by {};
        if self.items == 0 { no_more(old(self).iter.c(), old(self).iter.lo@, n); }
    }
@fn size_hint id=RawIter::size_hint
    ensures forall|n: int| #[trigger] self.ok(n) ==> r.0 == self.iter.rest(n) && r.1 == Some(r.0)
@endimpl
@impl impl RawTableInner => impl<T> RawTableInner<T>
@fn iter
    requires self.shape(), self.items == nfull(self.c(), self.n())
    ensures r.ok(self.n()), r.iter.c() == self.c(), r.iter.lo@ == 0
@sub fn iter < T > ==> fn iter
@sub -> RawIter < T > ==> -> RawIter
@sub Bucket :: from_base_index ( self . data_end ( ) , 0 ) ==> Bucket { index: 0 }
@sub self . ctrl . as_ptr ( ) ==> Cur { mem: Ghost(self.mem@), at: 0 }
@endimpl
@verbatim
pub proof fn ctl_same(c: Seq<Tag>, d: Seq<Tag>, n: int)
    requires ctl(c, n), ctl(d, n), n > 1, forall|i: int| 0 <= i < n ==> #[trigger] d[i] == c[i]
    ensures c =~= d
{
    assert forall|j: int| 0 <= j < n + 16 implies #[trigger] c[j] == d[j] by {
        if n >= 16 { if j >= n { assert(c[n + (j - n)] == c[j - n]); assert(d[n + (j - n)] == d[j - n]); } }
        else { p2_small(n); if j >= 16 { assert(c[16 + (j - 16)] == c[j - 16]); assert(d[16 + (j - 16)] == d[j - 16]); } }
    };
}
@end
@verbatim
/// a callback that is given an element and may give one back
pub trait Swap<T>: Sized {
    spec fn may(&self, x: T, o: Option<T>, then: Self) -> bool;
    fn call(&mut self, x: T) -> (o: Option<T>) ensures old(self).may(x, o, *final(self));
}
impl<T, E, G, R> RawTable<T, E, G, R> {
    /// another element in the same bucket
    pub open spec fn swapped_in(&self, o: RawTable<T, E, G, R>, b: Bucket, v: T) -> bool {
        self@ == o@.remove(o.at(b)).insert((o.at(b).0, v)) && self.holds(b) && self.at(b) == (o.at(b).0, v)
    }
}
@end
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn replace_bucket_with
    requires old(self).wf(), old(self).holds(bucket)
    ensures final(self).wf(), exists|o: Option<T>| #![trigger old(f).may(old(self).at(bucket).1, o, *final(f))] old(f).may(old(self).at(bucket).1, o, *final(f)) && r == o.is_some() && match o { Some(v) => final(self).swapped_in(*old(self), bucket, v), None => final(self)@ == old(self)@.remove(old(self).at(bucket)) }
@sub F : FnOnce ( T ) -> Option < T > ==> F: Swap<T>
@sub , f : F ) ==> , f: &mut F)
@sub f ( item ) ==> f.call(item)
@sub bucket : Bucket < T > ==> bucket: Bucket
@sub * self . table . ctrl ( index ) ==> self.table.peek(index)
@sub self . bucket ( index ) . write ( new_item ) ==> self.table.put_el(index, hash_, new_item)
@enter
    let ghost c = self.table.c();
    let ghost els = self.table.els@;
    let ghost n = self.table.n();
    let ghost x = self.table.els@[bucket.index as int];
    let hash_ = self.table.hash_of(bucket.index);
@after self . table . put_el
    proof {
        ctl_same(c, self.table.c(), n);
        assert(self.table.c() =~= c);
        let es = self.table.els@;
        assert(chains(c, n, es)) by { assert forall|i: int| 0 <= i < n && full(#[trigger] c[i]) implies c[i] == tagof(es[i].0) && placed(c, n, es[i].0 as int, i) by { assert(es[i].0 == els[i].0); }; };
        let d = c.update(index as int, e_());
        bag_del(c, d, n, els, els, 0, index as int);
        bag_add(d, c, n, els, es, 0, index as int);
    }
@endimpl
@verbatim
/// a caller's equality closure: what it can answer about which element
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(R)]
pub struct KeyEq<T, R> { x: core::marker::PhantomData<(T, R)> }
impl<T, R> KeyEq<T, R> {
    pub uninterp spec fn can(&self) -> spec_fn(T, Result<bool, R>) -> bool;
    #[verifier::external_body]
    pub fn ask(&mut self, x: &T) -> (r: Result<bool, R>) ensures final(self).can() == old(self).can(), (old(self).can())(*x, r) { unimplemented!() }
}
/// what the closure handed to the search holds on to
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct Asker<'a, T, E, G, R> { pub table: &'a RawTable<T, E, G, R>, pub eq: KeyEq<T, R>, pub err: Option<R>, pub asked: Ghost<Seq<(int, bool)>> }
impl<'a, T, E, G, R> Asker<'a, T, E, G, R> {
    pub open spec fn said(&self, k: int) -> bool {
        let a = self.asked@[k];
        let x = self.table.table.els@[a.0].1;
        if a.1 { match self.err { Some(r) => (self.eq.can())(x, Err(r)), None => (self.eq.can())(x, Ok(true)) } } else { (self.eq.can())(x, Ok(false)) }
    }
}
impl<'a, T, E, G, R> Ask for Asker<'a, T, E, G, R> {
    type Ctx = (RawTable<T, E, G, R>, spec_fn(T, Result<bool, R>) -> bool);
    open spec fn ctx(&self) -> Self::Ctx { (*self.table, self.eq.can()) }
    open spec fn inv(&self) -> bool {
        &&& self.table.wf()
        &&& forall|k: int| 0 <= k < self.asked@.len() ==> #[trigger] self.said(k)
        &&& allno(self.asked@, 0, self.asked@.len() as int) ==> self.err is None
    }
    open spec fn may(&self, i: int) -> bool { 0 <= i < self.table.table.n() && full(self.table.table.c()[i]) }
    open spec fn log(&self) -> Seq<(int, bool)> { self.asked@ }
@end
@fn find id=find_closure closure=1 nopub
@ctx impl < T , E , G , R > RawTable < T , E , G , R >
@head fn call(&mut self, index: usize) -> bool
@exit
    self.asked = Ghost(old(self).asked@.push((index as int, r_)));
    proof {
        let o = *old(self);
        assert forall|k: int| 0 <= k < self.asked@.len() implies #[trigger] self.said(k) by {
            if k < o.asked@.len() { assert(o.said(k)); assert(!o.asked@[k].1); assert(self.asked@[k] == o.asked@[k]); }
        };
        if allno(self.asked@, 0, self.asked@.len() as int) { assert(!self.asked@[o.asked@.len() as int].1); }
    }
@sub eq ( self . bucket ( index ) . as_ref ( ) , e , g ) ==> self.eq.ask(self.table.table.ref_el(index))
@sub err = Some ( r ) ==> self.err = Some(r)
@verbatim
}
@end
@verbatim
pub open spec fn first_err<T, R>(f: spec_fn(T, Result<bool, R>) -> bool, x: T, r: R) -> bool { f(x, Err(r)) }
impl<T, E, G, R> RawTable<T, E, G, R> {
    /// what a search by hash h with equality f may return
    pub open spec fn searched(&self, h: u64, f: spec_fn(T, Result<bool, R>) -> bool, r: Result<Option<Bucket>, R>) -> bool {
        match r {
            Ok(Some(b)) => self.holds(b) && f(self.at(b).1, Ok(true)),
            Ok(None) => self.lacks(h, f),
            Err(e) => self.failed(f, e),
        }
    }
    /// every element filed under h was denied
    pub open spec fn lacks(&self, h: u64, f: spec_fn(T, Result<bool, R>) -> bool) -> bool {
        forall|i: int| 0 <= i < self.table.n() && full(self.table.c()[i]) && #[trigger] self.table.els@[i].0 == h ==> f(self.table.els@[i].1, Ok(false))
    }
    pub open spec fn failed(&self, f: spec_fn(T, Result<bool, R>) -> bool, e: R) -> bool {
        exists|i: int| 0 <= i < self.table.n() && full(self.table.c()[i]) && f(#[trigger] self.table.els@[i].1, Err(e))
    }
}
@end
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn find
    requires self.wf()
    ensures self.searched(hash, eq.can(), r)
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub Option < Bucket < T >> ==> Option<Bucket>
@sub let mut err = None ; ==> let mut asker = Asker { table: self, eq, err: None, asked: Ghost(Seq::empty()) };
@lift 1 ==> &mut asker
@sub if let Some ( r ) = err ==> if let Some(r) = asker.err
@enter
    let ghost f = eq.can();
@before if let Some ( r ) = asker
    proof {
        if result is Some { let k = asker.asked@.len() - 1; assert(asker.said(k)); } else {
            assert forall|i: int| 0 <= i < self.table.n() && full(self.table.c()[i]) && #[trigger] self.table.els@[i].0 == hash implies f(self.table.els@[i].1, Ok(false)) by {
                assert(denied(asker.asked@, 0, i));
                let k = choose|k: int| 0 <= k < asker.asked@.len() && #[trigger] asker.asked@[k] == (i, false);
                assert(asker.said(k));
            };
        }
    }
@endimpl
@verbatim
impl<'a, T, E, G, R> Asker<'a, T, E, G, R> {
@end
@fn find_or_find_insert_slot id=find_or_find_insert_slot_closure closure=1
    requires old(self).inv(), old(self).may(index as int), allno(old(self).log(), 0, old(self).log().len() as int)
    ensures final(self).inv(), final(self).ctx() == old(self).ctx(), final(self).log() == old(self).log().push((index as int, r)), forall|j: int| #[trigger] final(self).may(j) == old(self).may(j)
@ctx impl < T , E , G , R > RawTable < T , E , G , R >
@head fn slot_call(&mut self, index: usize) -> bool
@exit
    self.asked = Ghost(old(self).asked@.push((index as int, r_)));
    proof {
        let o = *old(self);
        assert forall|k: int| 0 <= k < self.asked@.len() implies #[trigger] self.said(k) by {
            if k < o.asked@.len() { assert(o.said(k)); assert(!o.asked@[k].1); assert(self.asked@[k] == o.asked@[k]); }
        };
        if allno(self.asked@, 0, self.asked@.len() as int) { assert(!self.asked@[o.asked@.len() as int].1); }
    }
@sub eq ( self . bucket ( index ) . as_ref ( ) , e , g ) ==> self.eq.ask(self.table.table.ref_el(index))
@sub err = Some ( r ) ==> self.err = Some(r)
@verbatim
}
/// the same for the search before an insertion
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct SlotAsker<'a, T, E, G, R> { pub a: Asker<'a, T, E, G, R> }
impl<'a, T, E, G, R> Ask for SlotAsker<'a, T, E, G, R> {
    type Ctx = (RawTable<T, E, G, R>, spec_fn(T, Result<bool, R>) -> bool);
    open spec fn ctx(&self) -> Self::Ctx { self.a.ctx() }
    open spec fn inv(&self) -> bool { self.a.inv() }
    open spec fn may(&self, i: int) -> bool { self.a.may(i) }
    open spec fn log(&self) -> Seq<(int, bool)> { self.a.log() }
    fn call(&mut self, index: usize) -> bool { let r = self.a.slot_call(index); proof { assert forall|j: int| #[trigger] self.may(j) == old(self).may(j) by { assert(self.a.may(j) == old(self).a.may(j)); }; } r }
}
impl<T, E, G, R> RawTable<T, E, G, R> {
    /// the element at b written over, nothing else
    pub open spec fn swapped(&self, o: RawTable<T, E, G, R>, b: Bucket, x: T) -> bool {
        *self == (RawTable { table: RawTableInner { els: self.table.els, ..o.table }, ..o }) && self.table.els@ == o.table.els@.update(b.index as int, (o.at(b).0, x))
    }
    /// what a search before inserting under hash h may return
    pub open spec fn slotted(&self, h: u64, f: spec_fn(T, Result<bool, R>) -> bool, r: Result<Result<Bucket, InsertSlot>, R>) -> bool {
        match r {
            Ok(Ok(b)) => self.holds(b) && f(self.at(b).1, Ok(true)),
            Ok(Err(s)) => self.lacks(h, f) && self.takes(h, s),
            Err(e) => self.failed(f, e),
        }
    }
}
@end
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn find_or_find_insert_slot
    requires old(self).wf(), old(self).table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).slotted(hash, eq.can(), r), final(self).table.n() > 1, final(self).table.growth_left > 0
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub Result < Bucket < T > , InsertSlot > ==> Result<Bucket, InsertSlot>
@sub let mut err = None ; ==> let mut asker = SlotAsker { a: Asker { table: &*self, eq, err: None, asked: Ghost(Seq::empty()) } };
@lift 1 ==> &mut asker
@sub if let Some ( r ) = err ==> if let Some(r) = asker.a.err
@enter
    let ghost f = eq.can();
@before if let Some ( r ) = asker
    proof {
        let asked = asker.a.asked@;
        if result is Ok { let k = asked.len() - 1; assert(asker.a.said(k)); } else {
            assert forall|i: int| 0 <= i < self.table.n() && full(self.table.c()[i]) && #[trigger] self.table.els@[i].0 == hash implies f(self.table.els@[i].1, Ok(false)) by {
                assert(denied(asked, 0, i));
                let k = choose|k: int| 0 <= k < asked.len() && #[trigger] asked[k] == (i, false);
                assert(asker.a.said(k));
            };
            let ix = result->Err_0.index as int; slot_free(self.table.c(), self.table.n(), hash as int, ix);
        }
    }
@fn remove_entry id=RawTable::remove_entry
    requires old(self).wf()
    ensures final(self).wf(), match r {
        Ok(Some(x)) => exists|b: Bucket| #![trigger old(self).at(b)] old(self).holds(b) && (eq.can())(old(self).at(b).1, Ok(true)) && x == old(self).at(b).1 && final(self)@ == old(self)@.remove(old(self).at(b)),
        Ok(None) => *final(self) == *old(self) && old(self).lacks(hash, eq.can()),
        Err(e) => *final(self) == *old(self) && old(self).failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@fn get id=RawTable::get
    requires self.wf()
    ensures match r {
        Ok(Some(x)) => exists|b: Bucket| #![trigger self.at(b)] self.holds(b) && (eq.can())(self.at(b).1, Ok(true)) && *x == self.at(b).1,
        Ok(None) => self.lacks(hash, eq.can()),
        Err(e) => self.failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@sub bucket . as_ref ( ) ==> self.table.ref_el(bucket.index)
@fn get_mut id=RawTable::get_mut
    requires old(self).wf()
    ensures match r {
        Ok(Some(x)) => exists|b: Bucket| #![trigger old(self).at(b)] old(self).holds(b) && (eq.can())(old(self).at(b).1, Ok(true)) && *x == old(self).at(b).1 && final(self).swapped(*old(self), b, *final(x)),
        Ok(None) => *final(self) == *old(self) && old(self).lacks(hash, eq.can()),
        Err(e) => *final(self) == *old(self) && old(self).failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@sub bucket . as_mut ( ) ==> self.table.mut_el(bucket.index)
@fn iter id=RawTable::iter
    requires self.wf()
    ensures r.ok(self.table.n()), r.iter.c() == self.table.c(), r.iter.lo@ == 0
@sub -> RawIter < T > ==> -> RawIter
@endimpl
@verbatim
impl<T, R> KeyEq<T, R> {
    #[verifier::external_body]
    pub fn ask_sym(&mut self, x: &T) -> (r: bool) ensures final(self).can() == old(self).can(), (old(self).can())(*x, Ok(r)) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct SymAsker<'a, T, E, G, R> { pub table: &'a RawTable<T, E, G, R>, pub eq: KeyEq<T, R>, pub asked: Ghost<Seq<(int, bool)>> }
impl<'a, T, E, G, R> SymAsker<'a, T, E, G, R> {
    pub open spec fn said(&self, k: int) -> bool { (self.eq.can())(self.table.table.els@[self.asked@[k].0].1, Ok(self.asked@[k].1)) }
}
impl<'a, T, E, G, R> Ask for SymAsker<'a, T, E, G, R> {
    type Ctx = (RawTable<T, E, G, R>, spec_fn(T, Result<bool, R>) -> bool);
    open spec fn ctx(&self) -> Self::Ctx { (*self.table, self.eq.can()) }
    open spec fn inv(&self) -> bool { self.table.wf() && forall|k: int| 0 <= k < self.asked@.len() ==> #[trigger] self.said(k) }
    open spec fn may(&self, i: int) -> bool { 0 <= i < self.table.table.n() && full(self.table.table.c()[i]) }
    open spec fn log(&self) -> Seq<(int, bool)> { self.asked@ }
@end
@fn find_or_find_insert_slot_sym id=find_or_find_insert_slot_sym_closure closure=1 nopub
@ctx impl < T , E , G , R > RawTable < T , E , G , R >
@head fn call(&mut self, index: usize) -> bool
@exit
    self.asked = Ghost(old(self).asked@.push((index as int, r_)));
    proof {
        let o = *old(self);
        assert forall|k: int| 0 <= k < self.asked@.len() implies #[trigger] self.said(k) by { if k < o.asked@.len() { assert(o.said(k)); } };
    }
@sub eq ( self . bucket ( index ) . as_ref ( ) ) ==> self.eq.ask_sym(self.table.table.ref_el(index))
@verbatim
}
#[verifier::external_body]
pub fn needs_drop<T>() -> bool { unimplemented!() }
impl RawIter { pub fn into_iter(self) -> (r: RawIter) ensures r == self { self } }
/// the destructor of an element already taken out; it may panic, and the table is then left as it is
#[verifier::external_body]
pub fn drop_gone<T>(t: &RawTableInner<T>, i: usize) requires i < t.n(), t.wf(), !full(t.c()[i as int]) { unimplemented!() }
/// an element's destructor: once per element, on elements still there
#[verifier::external_body]
pub fn drop_el<T>(t: &RawTableInner<T>, i: usize, gone: Ghost<Set<int>>) requires i < t.n(), full(t.c()[i as int]), !gone@.contains(i as int) { unimplemented!() }
@end
@impl impl RawTableInner => impl<T> RawTableInner<T>
@fn drop_elements foriter
    requires old(self).shape(), old(self).items == nfull(old(self).c(), old(self).n())
    ensures *final(self) == *old(self)
@sub fn drop_elements < T > ==> fn drop_elements
@sub T :: NEEDS_DROP ==> needs_drop::<T>()
@sub self . iter :: < T > ( ) ==> self.iter()
@sub item . drop ( ) ==> drop_el(&*self, item.index, Ghost(gone))
@enter
    let ghost mut gone: Set<int> = Set::empty();
    let ghost n = self.n();
    let ghost c = self.c();
@loop 1
    invariant_except_break _it1.ok(n), _it1.iter.c() == c, n == self.n(), c == self.c(), *self == *old(self), forall|i: int| #[trigger] gone.contains(i) <==> 0 <= i < _it1.iter.lo@ && full(c[i])
    ensures *self == *old(self), forall|i: int| 0 <= i < n && full(#[trigger] c[i]) ==> gone.contains(i)
    decreases n - _it1.iter.lo@
@after drop_el ( & * self
    ; proof { gone = gone.insert(item.index as int); }
@loopexit 1
    // every element was dropped, once each
    proof { assert(forall|i: int| 0 <= i < n && full(#[trigger] c[i]) ==> gone.contains(i)); }
@fn drop_inner_table
    requires old(self).wf()
@sub fn drop_inner_table < T > ==> fn drop_inner_table
@sub self . drop_elements :: < T > ( ) ==> self.drop_elements()
@endimpl
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn clear id=RawTable::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == Multiset::<(u64, T)>::empty(), final(self).table.bucket_mask == old(self).table.bucket_mask
@sub let mut self_ = guard ( self , | self_ | self_ . clear_no_drop ( ) ) ; ==> 
@sub self_ . table . drop_elements :: < T > ( ) ; ==> self.table.drop_elements(); self.clear_no_drop();
@enter
    proof { bag_len(self.table.c(), self.table.n(), self.table.els@, 0); }
@fn find_or_find_insert_slot_sym
    requires old(self).wf(), old(self).table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).table.n() > 1, final(self).table.growth_left > 0,
        match r { Ok(b) => final(self).holds(b) && (eq.can())(final(self).at(b).1, Ok(true)), Err(s) => final(self).lacks(hash, eq.can()) && final(self).takes(hash, s) }
@sub eq : impl FnMut ( & T ) -> bool ==> eq: KeyEq<T, R>
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub Result < Bucket < T > , InsertSlot > ==> Result<Bucket, InsertSlot>
@sub match self . table . find_or_find_insert_slot_inner ( $a ) { ==> let result = self.table.find_or_find_insert_slot_inner($a); match result {
@lift 1 ==> &mut asker
@enter
    let ghost f = eq.can();
@after self . reserve ( 1 , hasher )
    let mut asker = SymAsker { table: &*self, eq, asked: Ghost(Seq::empty()) };
@before match result
    proof {
        let asked = asker.asked@;
        if result is Ok { let k = asked.len() - 1; assert(asker.said(k)); } else {
            assert forall|i: int| 0 <= i < self.table.n() && full(self.table.c()[i]) && #[trigger] self.table.els@[i].0 == hash implies f(self.table.els@[i].1, Ok(false)) by {
                assert(denied(asked, 0, i));
                let k = choose|k: int| 0 <= k < asked.len() && #[trigger] asked[k] == (i, false);
                assert(asker.said(k));
            };
            let ix = result->Err_0.index as int; slot_free(self.table.c(), self.table.n(), hash as int, ix);
        }
    }
@endimpl
@verbatim
/// writing over one element changes that element only
pub proof fn swapped_wf<T, E, G, R>(t: RawTable<T, E, G, R>, o: RawTable<T, E, G, R>, b: Bucket, x: T)
    requires o.wf(), o.holds(b), t.swapped(o, b, x)
    ensures t.wf(), t.holds(b), t.at(b) == (o.at(b).0, x), t@ == o@.remove(o.at(b)).insert((o.at(b).0, x))
{
    let c = o.table.c();
    let n = o.table.n();
    let es = t.table.els@;
    let els = o.table.els@;
    let i = b.index as int;
    assert(chains(c, n, es)) by { assert forall|i: int| 0 <= i < n && full(#[trigger] c[i]) implies c[i] == tagof(es[i].0) && placed(c, n, es[i].0 as int, i) by { assert(es[i].0 == els[i].0); }; };
    let d = c.update(i, e_());
    bag_del(c, d, n, els, els, 0, i);
    bag_add(d, c, n, els, es, 0, i);
}
/// a caller's filter: given an element it may change it and says whether to keep it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Filter<T> { x: core::marker::PhantomData<T> }
impl<T> Filter<T> {
    pub uninterp spec fn can(&self) -> spec_fn(T, T, bool) -> bool;
    #[verifier::external_body]
    pub fn ask(&mut self, x: &mut T) -> (r: bool) ensures final(self).can() == old(self).can(), (old(self).can())(*old(x), *final(x), r) { unimplemented!() }
}
/// the filter dropped x
pub open spec fn dropped<T>(f: spec_fn(T, T, bool) -> bool, x: T) -> bool { exists|y: T| #[trigger] f(x, y, false) }
/// bucket i after a filter pass
pub open spec fn sieved<T>(o: RawTableInner<T>, t: RawTableInner<T>, f: spec_fn(T, T, bool) -> bool, i: int) -> bool {
    if !full(o.c()[i]) { t.c()[i] == o.c()[i] }
    else if full(t.c()[i]) { t.c()[i] == o.c()[i] && t.els@[i].0 == o.els@[i].0 && f(o.els@[i].1, t.els@[i].1, true) }
    else { dropped(f, o.els@[i].1) }
}
@end
@file hashbrown/src/raw/mod.rs
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn insert_entry id=RawTable::insert_entry
    requires old(self).wf(), old(self).table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures *r == value, final(self).wf(), final(self)@ == old(self)@.insert((hash, *final(r)))
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub self . insert ( hash , value , hasher ) . as_mut ( ) ==> let b_ = self.insert(hash, value, hasher); self.table.mut_el(b_.index)
@before self . table . mut_el
    proof {
        let mid = *self;
        assert forall|t: RawTable<T, E, G, R>| t.swapped(mid, b_, t.at(b_).1) implies #[trigger] t.wf() && t@ == old(self)@.insert((hash, t.at(b_).1)) by {
            swapped_wf(t, mid, b_, t.at(b_).1);
            assert(mid@.remove((hash, value)).insert((hash, t.at(b_).1)) =~= old(self)@.insert((hash, t.at(b_).1)));
        };
    }
@endimpl
