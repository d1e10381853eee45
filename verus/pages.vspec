// Object pages: monoruby/src/alloc.rs
@include base.inc
@file monoruby/src/alloc.rs
@gsub PageRef < T > ==> usize
@gsub Option < std :: ptr :: NonNull < T >> ==> Option<usize>
@gsub * const T ==> usize
@gsub * mut T ==> usize
@gsub * mut Page < T > ==> usize
@item const SIZE
@item const GCBOX_SIZE
@sub std :: mem :: size_of :: < RValue > ( ) ==> 64
@item const PAGE_LEN
@item const DATA_LEN
@item const THRESHOLD
@item const PAGES_PER_GC_TRIGGER
@item const GC_HEAP_FRACTION
@item const ALLOC_SIZE
@item const MAX_PAGES
@item const FREE_LOG_CAP
@sub 1 << 21 ==> 2097152
@verbatim
/// where the cells start in a page; the page fits its allocation (asserted by Allocator::new)
pub uninterp spec fn off() -> int;
pub axiom fn off_fits() ensures 0 <= off(), off() + 64 * 4032 <= 0x40000;

// ---- cell addresses -----------------------------------------------------------------------------
pub open spec fn aligned(p: usize) -> bool { p as int % 0x40000 == 0 }
pub open spec fn addr(p: usize, i: int) -> int { p + off() + 64 * i }
pub open spec fn pg(x: usize) -> usize { (x as int - x as int % 0x40000) as usize }
pub open spec fn ix(x: usize) -> int { (x as int % 0x40000 - off()) / 64 }
pub open spec fn is_cell(x: usize) -> bool { off() <= x as int % 0x40000 && (x as int % 0x40000 - off()) % 64 == 0 && ix(x) < 4032 }
pub proof fn cell_addr(p: usize, i: int)
    requires aligned(p), 0 <= i < 4032, p + 0x40000 <= usize::MAX
    ensures is_cell(addr(p, i) as usize), pg(addr(p, i) as usize) == p, ix(addr(p, i) as usize) == i, addr(p, i) == addr(p, i) as usize, addr(p, i) <= p + 0x40000 - 64
{
    off_fits();
    let x = addr(p, i);
    assert(x as int % 0x40000 == off() + 64 * i) by (nonlinear_arith) requires x == p + off() + 64 * i, p as int % 0x40000 == 0, 0 <= off() + 64 * i < 0x40000 {};
    assert((64 * i) % 64 == 0 && (64 * i) / 64 == i) by (nonlinear_arith) {};
}
pub proof fn cell_split(x: usize)
    requires is_cell(x)
    ensures 0 <= ix(x) < 4032, addr(pg(x), ix(x)) == x, aligned(pg(x)), pg(x) <= x < pg(x) + 0x40000
{
    off_fits();
    let d = x as int % 0x40000 - off();
    assert(d == 64 * (d / 64)) by (nonlinear_arith) requires d % 64 == 0 {};
    assert((x as int - x as int % 0x40000) % 0x40000 == 0) by (nonlinear_arith) {};
}
// ---- bits -----------------------------------------------------------------------------------------
pub open spec fn wbit(w: u64, j: int) -> bool { (w >> (j as u64)) & 1 == 1 }
pub proof fn bit_or(w: u64, j: u64)
    requires j < 64
    ensures (w & (1u64 << j) != 0) == wbit(w, j as int),
        forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(w | (1u64 << j), k) == (wbit(w, k) || k == j)
{
    assert((w & (1u64 << j) != 0) == ((w >> j) & 1 == 1)) by (bit_vector) requires j < 64;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(w | (1u64 << j), k) == (wbit(w, k) || k == j) by {
        let l = k as u64;
        assert((((w | (1u64 << j)) >> l) & 1 == 1) == ((w >> l) & 1 == 1 || l == j)) by (bit_vector) requires j < 64, l < 64;
    };
}
pub proof fn bit_and(a: u64, b: u64)
    ensures forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(a & b, k) == (wbit(a, k) && wbit(b, k))
{
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(a & b, k) == (wbit(a, k) && wbit(b, k)) by {
        let l = k as u64;
        assert((((a & b) >> l) & 1 == 1) == ((a >> l) & 1 == 1 && (b >> l) & 1 == 1)) by (bit_vector) requires l < 64;
    };
}
pub proof fn bit_zero()
    ensures forall|k: int| 0 <= k < 64 ==> !#[trigger] wbit(0, k)
{
    assert forall|k: int| 0 <= k < 64 implies !#[trigger] wbit(0, k) by {
        let l = k as u64;
        assert((0u64 >> l) & 1 == 0) by (bit_vector) requires l < 64;
    };
}
pub proof fn and_none(a: u64, b: u64)
    requires a & !b == 0
    ensures a & b == a
{ assert(a & !b == 0 ==> a & b == a) by (bit_vector); }
pub proof fn bit_shift(w: u64, m: u64, k: u64)
    requires m <= 64, k < 64, m + k < 64
    ensures wbit(if m == 64 { 0 } else { w >> m }, k as int) == wbit(w, m + k)
{
    if m < 64 { let s: u64 = (m + k) as u64; assert((w >> m) >> k == w >> s) by (bit_vector) requires m < 64, k < 64, s == m + k, s < 64; }
}
pub proof fn bit_low(w: u64)
    ensures (w & 1 == 0) == !wbit(w, 0), forall|k: int| 0 <= k < 63 ==> #[trigger] wbit(w >> 1, k) == wbit(w, k + 1)
{
    assert(w >> 0u64 == w && (w & 1 == 0 || w & 1 == 1)) by (bit_vector);
    assert forall|k: int| 0 <= k < 63 implies #[trigger] wbit(w >> 1, k) == wbit(w, k + 1) by { bit_shift(w, 1, k as u64); };
}
pub assume_specification [ u64::checked_shr ](x: u64, k: u32) -> (r: Option<u64>)
    ensures r == if k < 64 { Some(x >> (k as u64)) } else { None };
#[verifier::external_body]
pub fn count_ones(x: u64) -> (r: u32) ensures r <= 64 { x.count_ones() }

// ---- the cells in memory --------------------------------------------------------------------------
pub struct T;
/// contents of every cell: whether an object is in it, and the link of a cell on the free list.
/// Address 0 is the list anchor on sweep's stack.
#[verifier::external_body]
pub struct Mem;
impl Mem {
    pub uninterp spec fn live(&self, x: usize) -> bool;
    pub uninterp spec fn link(&self, x: usize) -> Option<usize>;
    pub open spec fn same_but(&self, o: &Mem, x: usize) -> bool {
        (forall|y: usize| y != x ==> #[trigger] self.live(y) == o.live(y)) && (forall|y: usize| y != x ==> #[trigger] self.link(y) == o.link(y))
    }
    /// GCBox::next asserts that the cell is a free one
    #[verifier::external_body]
    pub fn next(&self, x: usize) -> (r: Option<usize>)
        requires is_cell(x) || x == 0, !self.live(x)
        ensures r == self.link(x)
    { unimplemented!() }
    /// linking overwrites the cell: nothing may be in it
    #[verifier::external_body]
    pub fn set_next(&mut self, x: usize, n: usize)
        requires is_cell(x) || x == 0, !old(self).live(x)
        ensures final(self).same_but(old(self), x), !final(self).live(x), final(self).link(x) == Some(n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_next_none(&mut self, x: usize)
        requires is_cell(x) || x == 0, !old(self).live(x)
        ensures final(self).same_but(old(self), x), !final(self).live(x), final(self).link(x) is None
    { unimplemented!() }
    /// GCBox::free: drops the object if there is one
    #[verifier::external_body]
    pub fn free(&mut self, x: usize)
        requires is_cell(x)
        ensures final(self).same_but(old(self), x), !final(self).live(x)
    { unimplemented!() }
    /// ptr::write of a new object: the cell may not be in use
    #[verifier::external_body]
    pub fn write(&mut self, x: usize, d: T)
        requires is_cell(x), !old(self).live(x)
        ensures final(self).same_but(old(self), x), final(self).live(x)
    { unimplemented!() }
    // the object's header flags are not part of the view
    #[verifier::external_body]
    pub fn age_and_check_promote(&mut self, x: usize) -> (r: bool)
        requires old(self).live(x)
        ensures *final(self) == *old(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn promote_to_old(&mut self, x: usize)
        requires old(self).live(x)
        ensures *final(self) == *old(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enter_remembered(&mut self, x: usize)
        requires old(self).live(x)
        ensures *final(self) == *old(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn arm_barrier(&mut self, x: usize)
        requires old(self).live(x)
        ensures *final(self) == *old(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn anchor(&mut self) -> (r: usize)
        ensures r == 0, final(self).same_but(old(self), 0), !final(self).live(0), final(self).link(0) is None
    { unimplemented!() }
}
pub fn padd(p: usize, n: usize) -> (r: usize)
    requires p + 64 * n <= usize::MAX
    ensures r == p + 64 * n
{ p + 64 * n }
/// pointer::offset_from between two cells of a page
pub fn offset_from(a: usize, b: usize) -> (r: usize)
    requires a >= b, (a - b) % 64 == 0
    ensures r == (a - b) / 64
{ (a - b) / 64 }
pub fn fill(a: &mut [u64; 63], v: u64)
    ensures forall|k: int| 0 <= k < 63 ==> #[trigger] final(a)@[k] == v
{
    let mut i = 0;
    while i < 63
        invariant i <= 63, forall|k: int| 0 <= k < i ==> #[trigger] a@[k] == v
        decreases 63 - i
    { a[i] = v; i += 1; }
}
pub fn copy_words(a: &mut [u64; 63], b: &[u64; 63])
    ensures final(a)@ == b@
{
    let mut i = 0;
    while i < 63
        invariant i <= 63, forall|k: int| 0 <= k < i ==> #[trigger] a@[k] == b@[k]
        decreases 63 - i
    { a[i] = b[i]; i += 1; }
    proof { assert(a@ =~= b@); }
}
pub fn all_words<F: Fn(&u64) -> bool>(a: &[u64; 63], f: F, Ghost(p): Ghost<spec_fn(u64) -> bool>) -> (r: bool)
    requires forall|w: u64| #[trigger] f.requires((&w,)), forall|w: u64, b: bool| #[trigger] f.ensures((&w,), b) ==> b == p(w)
    ensures r == forall|k: int| 0 <= k < 63 ==> p(#[trigger] a@[k])
{
    let mut i = 0;
    while i < 63
        invariant i <= 63, forall|w: u64| #[trigger] f.requires((&w,)), forall|w: u64, b: bool| #[trigger] f.ensures((&w,), b) ==> b == p(w), forall|k: int| 0 <= k < i ==> p(#[trigger] a@[k])
        decreases 63 - i
    { if !f(&a[i]) { assert(!p(a@[i as int])); return false; } i += 1; }
    true
}
#[verifier::external_body]
pub fn word(a: &mut [u64; 63], i: usize) -> (r: &mut u64)
    requires i < 63
    ensures *r == old(a)@[i as int], final(a)@ == old(a)@.update(i as int, *final(r))
{ &mut a[i] }

// ---- pages ----------------------------------------------------------------------------------------
@end
@item struct Page
@sub < T > ==> 
@sub data : [ T ; DATA_LEN ] ==> at: usize
@sub mark_bits : [ u64 ; SIZE - 1 ] ==> mark_bits: [u64; 63]
@sub old_bits : [ u64 ; SIZE - 1 ] ==> old_bits: [u64; 63]
@verbatim
impl Page {
    pub open spec fn placed(&self) -> bool { aligned(self.at) && self.at > 0 && self.at + 0x40000 <= usize::MAX }
    pub open spec fn marked(&self, i: int) -> bool { wbit(self.mark_bits@[i / 64], i % 64) }
    pub open spec fn aged(&self, i: int) -> bool { wbit(self.old_bits@[i / 64], i % 64) }
}
/// the pages in memory, by address
#[verifier::external_body]
pub struct Heap;
impl Heap {
    pub uninterp spec fn view(&self) -> Map<usize, Page>;
    #[verifier::external_body]
    pub fn page(&self, p: usize) -> (r: &Page) requires self@.dom().contains(p) ensures *r == self@[p] { unimplemented!() }
    #[verifier::external_body]
    pub fn page_mut(&mut self, p: usize) -> (r: &mut Page) requires old(self)@.dom().contains(p) ensures *r == old(self)@[p], final(self)@ == old(self)@.insert(p, *final(r)) { unimplemented!() }
}
pub open spec fn marked(h: Map<usize, Page>, x: usize) -> bool { h[pg(x)].marked(ix(x)) }
pub open spec fn aged(h: Map<usize, Page>, x: usize) -> bool { h[pg(x)].aged(ix(x)) }
@end
@impl impl < T : GCBox > Page < T > => impl Page
@fn get_cell
    requires self.placed(), index < 4032
    ensures r == addr(self.at, index as int), is_cell(r), pg(r) == self.at, ix(r) == index, r <= self.at + 0x40000 - 64
@sub & self . data [ index ] as * const _ as * mut _ ==> { vassert(index < DATA_LEN); proof { cell_addr(self.at, index as int); } self.cell_of(index) }
@fn get_first_cell
    requires self.placed()
    ensures r == addr(self.at, 0), is_cell(r), pg(r) == self.at, ix(r) == 0
@fn get_index
    requires is_cell(ptr), pg(ptr) == self.at, self.placed()
    ensures r == ix(ptr), r < 4032
@enter
    proof { cell_split(ptr); cell_addr(self.at, 0); }
@sub ptr . offset_from ( self . get_first_cell ( ) ) as usize ==> { let f_ = self.get_first_cell(); proof { assert((64 * ix(ptr)) % 64 == 0 && (64 * ix(ptr)) / 64 == ix(ptr)) by (nonlinear_arith) {}; } offset_from(ptr, f_) }
@fn clear_bits
    ensures final(self).at == old(self).at, final(self).old_bits == old(self).old_bits, forall|i: int| 0 <= i < 4032 ==> !#[trigger] final(self).marked(i)
@sub $a . iter_mut ( ) . for_each ( | $e | * $d = $v ) ==> fill(&mut $a, $v); proof { bit_zero(); }
@fn clear_old_bits
    ensures final(self).at == old(self).at, final(self).mark_bits == old(self).mark_bits, forall|i: int| 0 <= i < 4032 ==> !#[trigger] final(self).aged(i)
@sub $a . iter_mut ( ) . for_each ( | $e | * $d = $v ) ==> fill(&mut $a, $v); proof { bit_zero(); }
@fn seed_mark_from_old
    ensures final(self).at == old(self).at, final(self).old_bits == old(self).old_bits, final(self).mark_bits@ == old(self).old_bits@
@sub $a . copy_from_slice ( & $b ) ==> copy_words(&mut $a, &$b)
@fn all_dead
    ensures r == forall|i: int| 0 <= i < 4032 ==> !#[trigger] self.marked(i)
@sub $a . iter ( ) . all ( | $b | $c ) ==> let r_ = all_words(&$a, |$b| $c, Ghost(is_zero())); proof { dead_words(*self); } r_
@closure 1 (&u64) -> (r: bool)
    ensures r == (*bits == 0)
@fn drop_inner_cells
    requires self.placed()
    ensures forall|x: usize| #[trigger] final(mem).live(x) == (old(mem).live(x) && !(is_cell(x) && pg(x) == self.at))
@sub ( & self ) ==> (&self, mem: &mut Mem)
@sub ( * ptr ) . free ( ) ==> { proof { cell_addr(self.at, k_ as int); } mem.free(ptr) }
@sub ptr . add ( 1 ) ==> padd(ptr, 1)
@sub for _ in 0 .. DATA_LEN ==> for k_ in 0..DATA_LEN
@loop 1
    invariant self.placed(), ptr == addr(self.at, k_ as int),
        forall|x: usize| #[trigger] mem.live(x) == (old(mem).live(x) && !(is_cell(x) && pg(x) == self.at && ix(x) < k_))
@loopend 1
    proof { off_fits(); assert forall|x: usize| #[trigger] mem.live(x) == (old(mem).live(x) && !(is_cell(x) && pg(x) == self.at && ix(x) < k_ + 1)) by { if is_cell(x) { cell_split(x); } }; }
@loopexit 1
    proof { assert forall|x: usize| #[trigger] mem.live(x) == (old(mem).live(x) && !(is_cell(x) && pg(x) == self.at)) by { if is_cell(x) { cell_split(x); } }; }
@endimpl
@verbatim
impl Page {
    pub fn cell_of(&self, index: usize) -> (r: usize)
        requires self.placed(), index < 4032
        ensures r == addr(self.at, index as int)
    { proof { cell_addr(self.at, index as int); off_fits(); } cell_at(self.at, index) }
    #[verifier::external_body]
    pub fn old_count(&self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn cell_at(at: usize, index: usize) -> (r: usize) requires addr(at, index as int) <= usize::MAX ensures r == addr(at, index as int) { unimplemented!() }
pub open spec fn is_zero() -> spec_fn(u64) -> bool { |w: u64| w == 0 }
pub proof fn dead_words(p: Page)
    ensures (forall|k: int| 0 <= k < 63 ==> #[trigger] p.mark_bits@[k] == 0) == (forall|i: int| 0 <= i < 4032 ==> !#[trigger] p.marked(i))
{
    bit_zero();
    if forall|i: int| 0 <= i < 4032 ==> !#[trigger] p.marked(i) {
        assert forall|k: int| 0 <= k < 63 implies #[trigger] p.mark_bits@[k] == 0 by {
            let w = p.mark_bits@[k];
            assert forall|j: int| 0 <= j < 64 implies !#[trigger] wbit(w, j) by { assert((64 * k + j) / 64 == k && (64 * k + j) % 64 == j); assert(!p.marked(64 * k + j)); };
            all_zero(w);
        };
    }
}
pub proof fn all_zero(w: u64)
    requires forall|j: int| 0 <= j < 64 ==> !#[trigger] wbit(w, j)
    ensures w == 0
{
    if w != 0 { low_bit(w); let j = vstd::std_specs::bits::u64_trailing_zeros(w); assert(wbit(w, j as int)); }
}
pub proof fn low_bit(w: u64)
    requires w != 0
    ensures vstd::std_specs::bits::u64_trailing_zeros(w) < 64, wbit(w, vstd::std_specs::bits::u64_trailing_zeros(w) as int)
{
    broadcast use vstd::std_specs::bits::group_bits_axioms;
    let j = vstd::std_specs::bits::u64_trailing_zeros(w) as u64;
    assert((w >> j) & 1u64 == 1u64);
}
@end
// ---- the allocator --------------------------------------------------------------------------------
@item struct Allocator
@sub struct Allocator < T > ==> struct Allocator
@sub VecDeque < PageRef < T >> ==> VecDeque<usize>
@sub Vec < PageRef < T >> ==> Vec<usize>
@sub pub gc_enabled ==> gc_enabled
@sub epoch : std :: time :: Instant , ==> mem: Mem, heap: Heap, base: Ghost<usize>, fl: Ghost<Seq<usize>>,
@sub Vec < std :: ptr :: NonNull < T >> ==> Vec<usize>
@sub VecDeque < std :: ptr :: NonNull < T >> ==> VecDeque<usize>
@sub profile : Vec < GcProfileRecord > ==> profile: Ghost<int>
@verbatim
pub use std::collections::VecDeque;
pub open spec fn linked(m: &Mem, fl: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < fl.len() ==> m.link(#[trigger] fl[k]) == after(fl, k)
}
pub open spec fn after(fl: Seq<usize>, k: int) -> Option<usize> { if k + 1 < fl.len() { Some(fl[k + 1]) } else { None } }
impl Allocator {
    pub open spec fn arena(&self, p: usize) -> bool { aligned(p) && self.base@ <= p && p + 0x40000 <= self.base@ + 0x40000 * 8192 }
    pub open spec fn region(&self, p: usize) -> bool { self.arena(p) && p <= self.head_page }
    /// the cell has been handed out at least once since its page came into service
    pub open spec fn used(&self, x: usize) -> bool {
        is_cell(x) && (self.pages@.contains(pg(x)) || (pg(x) == self.current_page && ix(x) < self.used_in_current))
    }
    pub open spec fn in_service(&self, p: usize) -> bool { self.pages@.contains(p) || p == self.current_page }
    pub open spec fn spare(&self, p: usize) -> bool { self.free_pages@.contains(p) }
    /// the pages: apart from one another, within the arena, objects only in used cells
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.base@ && aligned(self.base@) && self.base@ + 0x40000 * 8192 <= usize::MAX
        &&& self.region(self.head_page)
        &&& forall|p: usize| #[trigger] self.arena(p) ==> self.heap@.dom().contains(p) && self.heap@[p].at == p
        &&& forall|p: usize| #[trigger] self.in_service(p) ==> self.region(p) && !self.spare(p)
        &&& forall|p: usize| #[trigger] self.spare(p) ==> self.region(p)
        &&& !self.pages@.contains(self.current_page)
        &&& self.pages@.no_duplicates() && self.free_pages@.no_duplicates()
        &&& (self.pages@.len() + self.free_pages@.len()) * 0x40000 == self.head_page - self.base@
        &&& self.used_in_current <= 4032
        &&& forall|x: usize| #[trigger] self.mem.live(x) ==> self.used(x)
        &&& self.free_log@.len() <= 2097152 && self.free_log_pos < 2097152
    }
    pub open spec fn list_ok(&self) -> bool {
        &&& self.fl@.no_duplicates()
        &&& forall|k: int| 0 <= k < self.fl@.len() ==> self.used(#[trigger] self.fl@[k])
        &&& self.free == if self.fl@.len() == 0 { None } else { Some(self.fl@[0]) }
        &&& linked(&self.mem, self.fl@)
        &&& self.free_list_count == self.fl@.len()
    }
    /// the free list is a list of used cells without an object, and every other used cell has one
    pub open spec fn ok(&self) -> bool {
        &&& self.wf() && self.list_ok()
        &&& forall|x: usize| #[trigger] self.mem.live(x) <==> self.used(x) && !self.fl@.contains(x)
    }
    /// only cells with an object are marked
    pub open spec fn marks_live(&self) -> bool { forall|x: usize| self.used(x) && #[trigger] marked(self.heap@, x) ==> self.mem.live(x) }
    /// counters are not about to overflow
    pub open spec fn small(&self) -> bool {
        self.total_allocated_objects < usize::MAX && self.total_allocated_pages < usize::MAX && self.total_freed_pages < usize::MAX - 8192 && self.total_freed_objects < usize::MAX - 4032 * 8192
        && self.pages_since_gc < u32::MAX && self.mark_counter < usize::MAX && self.old_count < usize::MAX && self.total_gc_counter < usize::MAX
    }
}
pub open spec fn cells_live(a: &Allocator, s: Seq<usize>) -> bool { forall|k: int| 0 <= k < s.len() ==> a.used(#[trigger] s[k]) && a.mem.live(s[k]) }
pub fn take_vec(v: &mut Vec<usize>) -> (r: Vec<usize>)
    ensures r@ == old(v)@, final(v)@.len() == 0
{ let mut e: Vec<usize> = Vec::new(); std::mem::swap(v, &mut e); e }
impl Allocator {
    #[verifier::external_body]
    pub fn young_child_exists(&self, x: usize) -> (r: bool) requires self.mem.live(x) { unimplemented!() }
}
/// the system allocator's answer for the arena: an aligned run of pages without objects
#[verifier::external_body]
pub fn reserve(size: usize, align: usize) -> (r: (usize, Heap, Mem))
    requires size == 0x40000 * 8192, align == 0x40000
    ensures r.0 > 0, aligned(r.0), r.0 + 0x40000 * 8192 <= usize::MAX, forall|x: usize| !#[trigger] r.2.live(x),
        forall|p: usize| aligned(p) && r.0 <= p && p + 0x40000 <= r.0 + 0x40000 * 8192 ==> #[trigger] r.1@.dom().contains(p) && r.1@[p].at == p
{ unimplemented!() }
#[verifier::external_body]
pub fn old_object_floor() -> usize { unimplemented!() }
pub proof fn fresh_ok(a: &Allocator)
    requires a.pages@.len() == 0, a.free_pages@.len() == 0, a.fl@.len() == 0, a.free is None, a.free_list_count == 0, a.used_in_current == 0, a.current_page == a.base@, a.head_page == a.base@,
        0 < a.base@, aligned(a.base@), a.base@ + 0x40000 * 8192 <= usize::MAX, a.free_log@.len() == 0, a.free_log_pos == 0, forall|x: usize| !#[trigger] a.mem.live(x),
        forall|p: usize| a.arena(p) ==> #[trigger] a.heap@.dom().contains(p) && a.heap@[p].at == p
    ensures a.ok(), forall|x: usize| !#[trigger] a.used(x)
{
    assert forall|x: usize| !#[trigger] a.used(x) by { off_fits(); if is_cell(x) { cell_split(x); } };
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(a.heap@.dom().contains(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by {};
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by {};
}
pub proof fn in_page(a: &Allocator, x: usize)
    requires a.wf(), a.used(x)
    ensures a.in_service(pg(x)), a.region(pg(x)), a.heap@.dom().contains(pg(x)), a.heap@[pg(x)].at == pg(x), a.heap@[pg(x)].placed(), 0 <= ix(x) < 4032
{ cell_split(x); assert(a.in_service(pg(x))); }
#[verifier::external_body]
pub fn is_promotable(x: usize) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn free_log_enabled() -> bool { unimplemented!() }
pub mod poll_flag { #[verifier::external_body] pub fn set_gc() { unimplemented!() } }
@end
@fn retire_dead_old
@ctx fn sweep
@spec
    ensures *final(old_) == *old(old_) & live, r <= 64
@sub old : & mut u64 ==> old_: &mut u64
@sub * old & ! live ==> *old_ & !live
@sub return 0 ; ==> proof { and_none(*old_, live); } return 0;
@sub * old &= ==> *old_ &=
@sub dead_old . count_ones ( ) ==> count_ones(dead_old)
@fn sweep_bits
@ctx fn sweep
@spec
    requires bit <= 64, aligned(gp), gp > 0, gp + 0x40000 <= usize::MAX, 0 <= gi <= 4032 - 64, *old(ptr) == addr(gp, gi),
        fl.len() > 0, fl.no_duplicates(), linked(old(mem), fl), *old(head) == fl.last(), !old(mem).live(*old(head)), is_cell(*old(head)) || *old(head) == 0,
        forall|x: usize| is_cell(x) && pg(x) == gp && gi <= ix(x) < gi + 64 ==> !#[trigger] fl.contains(x)
    ensures fl_out(fl, *old(ptr), map, bit as int, final(mem), *final(head)), r == swept(*old(ptr) as int, map, bit as int).len(), r <= bit,
        bit == 64 ==> *final(ptr) == addr(gp, gi) + 64 * 64,
        forall|x: usize| #[trigger] final(mem).live(x) == (old(mem).live(x) && !swept(*old(ptr) as int, map, bit as int).contains(x))
@sub < T : GCBox > ==> 
@sub mut map : u64 ==> map: u64
@sub log : & mut Option < Vec < usize >> , ==> log: &mut Option<Vec<usize>>, mem: &mut Mem, Ghost(fl): Ghost<Seq<usize>>, Ghost(gp): Ghost<usize>, Ghost(gi): Ghost<int>
@sub let mut c = 0 ; ==> let mut c: usize = 0; let mut map = map; let ghost m0 = map; let ghost p0 = *ptr as int; proof { off_fits(); }
@sub ( * ptr ) . add ( min ) ==> { proof { lead(p0, m0); } padd(*ptr, min) }
@sub ( * ptr ) . add ( 1 ) ==> padd(*ptr, 1)
@sub map = map . checked_shr ( $a ) . unwrap_or ( $b ) ; ==> map = match map.checked_shr($a) { Some(v_) => v_, None => $b }; proof { shifted(m0, min as int, map); lead_empty(p0, m0, min as int); }
@sub for _ in min .. bit { ==> let mut jn_ = min; while jn_ < bit { let j_ = jn_; jn_ += 1;
@sub ( * * head ) . set_next ( * ptr ) ; ==> let ghost mm = *mem; proof { cell_addr(gp, gi + j_); } mem.set_next(*head, *ptr);
@sub ( * * ptr ) . free ( ) ==> mem.free(*ptr)
@sub ( * * ptr ) . set_next_none ( ) ; ==> mem.set_next_none(*ptr);
@loop 1
    invariant bit <= 64, aligned(gp), gp > 0, gp + 0x40000 <= usize::MAX, 0 <= gi <= 4032 - 64, p0 == addr(gp, gi), fl.len() > 0, fl.no_duplicates(), 0 <= off(), off() + 64 * 4032 <= 0x40000,
        forall|x: usize| is_cell(x) && pg(x) == gp && gi <= ix(x) < gi + 64 ==> !#[trigger] fl.contains(x),
        min <= 64, min == vstd::std_specs::bits::u64_trailing_ones(m0), p0 == *old(ptr), *ptr == p0 + 64 * jn_, min <= jn_, jn_ <= bit || jn_ == min,
        forall|k: int| 0 <= k < 64 - jn_ ==> #[trigger] wbit(map, k) == wbit(m0, jn_ + k),
        fl_out(fl, *old(ptr), m0, jn_ as int, mem, *head), c == swept(p0, m0, jn_ as int).len(), c <= jn_ - min,
        !mem.live(*head), is_cell(*head) || *head == 0,
        forall|x: usize| #[trigger] mem.live(x) == (old(mem).live(x) && !swept(p0, m0, jn_ as int).contains(x))
    decreases bit - jn_
@before if map & 1 == 0
    proof { bit_low(map); swept_mem(p0, m0, j_ as int); cell_addr(gp, gi + j_); assert(!fl.contains(*ptr)); unswept(fl, p0, m0, j_ as int, *ptr); }
@loopend 1
    proof { off_fits(); }
@after c += 1 ;
    proof { link_push(&mm, mem, fl + swept(p0, m0, j_ as int), *ptr); assert(fl + swept(p0, m0, j_ + 1) =~= (fl + swept(p0, m0, j_ as int)).push(*ptr)); pushed_live(old(mem), mem, p0, m0, j_ as int); }
@loopexit 1
    proof { if min > bit { lead_empty(p0, m0, bit as int); } }
@impl impl < T : GCBox > Allocator < T > => impl Allocator
@fn get_page
    requires is_cell(ptr)
    ensures r == pg(ptr)
@sub as _ ; ==> as usize;
@sub let page_ptr : * mut Page < T > = $a ; ==> let page_ptr: usize = $a; proof { page_mask(ptr); }
@fn new
    ensures r.ok(), r.small(), r.marks_live(), forall|x: usize| !#[trigger] r.used(x), forall|x: usize| is_cell(x) && pg(x) == r.current_page ==> !#[trigger] aged(r.heap@, x), r.aging@.len() == 0
@sub assert ! ( std :: mem :: size_of :: < Page < T >> ( ) <= ALLOC_SIZE ) ; ==> 
@sub assert_eq ! ( 64 , GCBOX_SIZE ) ; ==> vassert(64 == GCBOX_SIZE);
@sub let layout = Layout :: from_size_align ( $a ) . unwrap ( ) ; ==> 
@sub System . alloc ( layout ) ==> 0usize
@sub let ptr : PageRef < T > = std :: ptr :: NonNull :: new ( ptr as _ ) . unwrap ( ) ; ==> let (ptr, heap, mem) = reserve(ALLOC_SIZE * MAX_PAGES, ALLOC_SIZE); let mut heap = heap; let ghost h0 = heap;
@sub ( * ptr . as_ptr ( ) ) . clear_old_bits ( ) ==> heap.page_mut(ptr).clear_old_bits()
@sub epoch : std :: time :: Instant :: now ( ) , ==> mem, heap, base: Ghost(ptr), fl: Ghost(Seq::empty()),
@sub profile : Vec :: new ( ) , ==> profile: Ghost(0),
@sub vec ! [ ] ==> Vec::new()
@sub OLD_OBJECT_FLOOR ==> old_object_floor()
@exit
    proof { fresh_ok(&r_); }
@fn new_page
    requires old(self).head_page + 0x40000 <= usize::MAX
    ensures r == old(self).head_page + 0x40000, *final(self) == (Allocator { head_page: r, ..*old(self) })
@sub ( self . head_page . as_ptr ( ) as * mut u8 ) . add ( ALLOC_SIZE ) ==> self.head_page + ALLOC_SIZE
@sub } as _ ; ==> };
@sub std :: ptr :: NonNull :: new ( ptr ) . unwrap ( ) ==> ptr
@fn gc_trigger_pages
    ensures true
@fn on_page_pressure
    requires old(self).pages_since_gc < u32::MAX
    ensures *final(self) == (Allocator { pages_since_gc: final(self).pages_since_gc, ..*old(self) })
@sub crate :: poll_flag :: set_gc ==> poll_flag::set_gc
@fn gc_check_and_mark
    requires old(self).wf(), old(self).used(ptr), old(self).mem.live(ptr), old(self).mark_counter < usize::MAX
    ensures r == marked(old(self).heap@, ptr),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(final(self).heap@, x) == (marked(old(self).heap@, x) || x == ptr),
        forall|x: usize| is_cell(x) ==> #[trigger] aged(final(self).heap@, x) == aged(old(self).heap@, x),
        final(self).wf(),
        old(self).ok() ==> final(self).ok(),
        *final(self) == (Allocator { heap: final(self).heap, mark_counter: final(self).mark_counter, aging: final(self).aging, ..*old(self) }),
        final(self).aging@ == old(self).aging@ || final(self).aging@ == old(self).aging@.push(ptr)
@sub ptr : & T ==> ptr: usize
@sub ptr as * const T ==> ptr
@sub if let Some ( addr ) = tracked_addr ( ) && p as usize == addr { $a ; } ==> 
@sub ( * page_ptr ) . get_index ( p ) ==> self.heap.page(page_ptr).get_index(p)
@sub & mut ( * page_ptr ) . mark_bits [ $i ] ==> word(&mut self.heap.page_mut(page_ptr).mark_bits, $i)
@sub ( * page_ptr ) . old_bits [ $i ] ==> self.heap.page(page_ptr).old_bits[$i]
@sub let bit_mask = 1 << ( index % 64 ) ; ==> let bit_mask: u64 = 1u64 << ((index % 64) as u64); proof { bit_or(self.heap@[page_ptr].mark_bits@[index as int / 64], (index % 64) as u64); }
@sub ptr . is_promotable ( ) ==> is_promotable(ptr)
@enter
    let ghost o = *self;
    proof { in_page(self, ptr); }
@after * bitmap |= bit_mask ;
    proof { one_marked(&o, self, ptr); }
@exit
    proof { same_but_heap(&o, self); }
@fn is_marked
    requires self.wf(), self.used(ptr)
    ensures r == marked(self.heap@, ptr)
@sub ptr : & T ==> ptr: usize
@sub let ptr = ptr as * const T ; ==> proof { in_page(self, ptr); }
@sub ( * page_ptr ) ==> self.heap.page(page_ptr)
@sub let bit_mask = 1 << ( index % 64 ) ; ==> let bit_mask: u64 = 1u64 << ((index % 64) as u64); proof { bit_or(self.heap@[page_ptr].mark_bits@[index as int / 64], (index % 64) as u64); }
@fn is_old
    requires self.wf(), self.used(ptr)
    ensures r == aged(self.heap@, ptr)
@sub ptr : & T ==> ptr: usize
@sub let ptr = ptr as * const T ; ==> proof { in_page(self, ptr); }
@sub ( * page_ptr ) ==> self.heap.page(page_ptr)
@sub let bit_mask = 1 << ( index % 64 ) ; ==> let bit_mask: u64 = 1u64 << ((index % 64) as u64); proof { bit_or(self.heap@[page_ptr].old_bits@[index as int / 64], (index % 64) as u64); }
@fn alloc
    requires old(self).ok(), old(self).small(), old(self).free is None && old(self).used_in_current == 4032 && old(self).free_pages@.len() == 0 ==> old(self).head_page + 0x80000 <= old(self).base@ + 0x40000 * 8192
    ensures final(self).ok(), is_cell(r), !old(self).mem.live(r), final(self).mem.live(r),
        forall|x: usize| x != r ==> #[trigger] final(self).mem.live(x) == old(self).mem.live(x),
        forall|x: usize| old(self).used(x) ==> #[trigger] final(self).used(x) && marked(final(self).heap@, x) == marked(old(self).heap@, x) && aged(final(self).heap@, x) == aged(old(self).heap@, x)
@sub data : T ==> data: T
@sub gcbox . as_ptr ( ) ==> gcbox
@sub ( * gcbox ) . next ( ) ; ==> self.mem.next(gcbox); self.fl = Ghost(self.fl@.skip(1));
@sub std :: ptr :: write ( gcbox , data ) ==> self.mem.write(gcbox, data);
@sub if let Some ( addr ) = tracked_addr ( ) && gcbox as usize == addr { $a ; } ==> 
@sub self . current_page . as_mut ( ) . clear_old_bits ( ) ==> self.heap.page_mut(self.current_page).clear_old_bits()
@sub self . current_page . as_ref ( ) ==> self.heap.page(self.current_page)
@enter
    let ghost o = *self;
    proof { assert(self.in_service(self.current_page)); assert(self.arena(self.current_page)); }
@before return gcbox ;
    proof { taken(&o, self, gcbox); }
@before unsafe { self . heap . page_mut ( self . current_page ) . clear_old_bits ( ) } ;
    proof {
        if o.free_pages@.len() > 0 { assert(o.free_pages@.contains(self.current_page)); assert(o.spare(self.current_page)); }
        else { assert((o.head_page as int + 0x40000) % 0x40000 == 0) by (nonlinear_arith) requires o.head_page as int % 0x40000 == 0 {}; }
        assert(o.arena(self.current_page));
    }
@before let ptr = unsafe
    proof { assert(self.arena(self.current_page)); }
@lastbefore unsafe { self . mem . write ( gcbox , data ) ; }
    proof { fresh(&o, gcbox, self.current_page); }
@exit
    proof { if o.used_in_current == 4032 { new_page_ok(&o, self, r_); } else { bumped(&o, self, r_); } }
@fn clear_mark
    requires old(self).wf()
    ensures final(self).wf(), old(self).ok() ==> final(self).ok(), *final(self) == (Allocator { heap: final(self).heap, mark_counter: 0, ..*old(self) }),
        forall|x: usize| is_cell(x) && old(self).in_service(pg(x)) ==> !#[trigger] marked(final(self).heap@, x),
        forall|x: usize| is_cell(x) ==> #[trigger] aged(final(self).heap@, x) == aged(old(self).heap@, x)
@sub self . current_page . as_mut ( ) ==> self.heap.page_mut(self.current_page)
@sub self . pages . iter_mut ( ) . for_each ( | $h | $i . as_mut ( ) . $m ( ) ) ==> for k_ in 0..self.pages.len() { proof { serve(&o, k_ as int); } self.heap.page_mut(self.pages[k_]).$m(); }
@enter
    let ghost o = *self;
    proof { assert(self.in_service(self.current_page)); assert(self.arena(self.current_page)); }
@loop 1
    invariant o.wf(), o == *old(self), *self == (Allocator { heap: self.heap, ..o }), same_pages(o.heap@, self.heap@),
        forall|q: usize, i: int| 0 <= i < 4032 && (q == o.current_page || o.pages@.take(k_ as int).contains(q)) ==> !#[trigger] self.heap@[q].marked(i),
        forall|q: usize| #[trigger] self.heap@[q].old_bits == o.heap@[q].old_bits
@loopend 1
    proof { take_more(o.pages@, k_ as int); }
@exit
    proof { same_but_heap(&o, self); assert(o.pages@.take(o.pages@.len() as int) =~= o.pages@); assert forall|x: usize| is_cell(x) && o.in_service(pg(x)) implies !#[trigger] marked(self.heap@, x) by { cell_split(x); assert(!self.heap@[pg(x)].marked(ix(x))); }; }
@fn seed_marks
    requires old(self).wf()
    ensures final(self).wf(), old(self).ok() ==> final(self).ok(), *final(self) == (Allocator { heap: final(self).heap, mark_counter: 0, ..*old(self) }),
        forall|x: usize| is_cell(x) && old(self).in_service(pg(x)) ==> #[trigger] marked(final(self).heap@, x) == aged(old(self).heap@, x),
        forall|x: usize| is_cell(x) ==> #[trigger] aged(final(self).heap@, x) == aged(old(self).heap@, x)
@sub self . current_page . as_mut ( ) ==> self.heap.page_mut(self.current_page)
@sub self . pages . iter_mut ( ) . for_each ( | $h | $i . as_mut ( ) . $m ( ) ) ==> for k_ in 0..self.pages.len() { let ghost s1 = *self; proof { serve(&o, k_ as int); } self.heap.page_mut(self.pages[k_]).$m(); }
@enter
    let ghost o = *self;
    proof { assert(self.in_service(self.current_page)); assert(self.arena(self.current_page)); }
@loop 1
    invariant o.wf(), o == *old(self), *self == (Allocator { heap: self.heap, ..o }), same_pages(o.heap@, self.heap@),
        forall|q: usize| (q == o.current_page || o.pages@.take(k_ as int).contains(q)) ==> #[trigger] self.heap@[q].mark_bits@ == o.heap@[q].old_bits@,
        forall|q: usize| #[trigger] self.heap@[q].old_bits == o.heap@[q].old_bits
@loopend 1
    proof { take_more(o.pages@, k_ as int); let p = o.pages@[k_ as int]; assert(self.heap@[p].mark_bits@ == o.heap@[p].old_bits@); assert forall|q: usize| (q == o.current_page || o.pages@.take(k_ + 1).contains(q)) implies #[trigger] self.heap@[q].mark_bits@ == o.heap@[q].old_bits@ by { if q != p { assert(o.pages@.take(k_ + 1).contains(q) == (o.pages@.take(k_ as int).contains(q) || q == p)); assert(s1.heap@[q].mark_bits@ == o.heap@[q].old_bits@); assert(self.heap@[q] == s1.heap@[q]); } }; }
@exit
    proof { same_but_heap(&o, self); assert(o.pages@.take(o.pages@.len() as int) =~= o.pages@); assert forall|x: usize| is_cell(x) && o.in_service(pg(x)) implies #[trigger] marked(self.heap@, x) == aged(o.heap@, x) by { assert(self.heap@[pg(x)].mark_bits@ == o.heap@[pg(x)].old_bits@); }; }
@fn push_free_log
    requires old(self).free_log@.len() <= 2097152, old(self).free_log_pos < 2097152
    ensures *final(self) == (Allocator { free_log: final(self).free_log, free_log_pos: final(self).free_log_pos, ..*old(self) }), final(self).free_log@.len() <= 2097152, final(self).free_log_pos < 2097152
@sub if tracked_addr ( ) == Some ( addr ) { $a ; } ==> 
@fn apply_aging
    requires old(self).wf(), old(self).old_count + old(self).aging@.len() <= usize::MAX, cells_live(old(self), old(self).aging@)
    ensures final(self).wf(), old(self).ok() ==> final(self).ok(),
        *final(self) == (Allocator { heap: final(self).heap, aging: final(self).aging, old_count: final(self).old_count, remembered: final(self).remembered, ..*old(self) }),
        final(self).aging@.len() == 0,
        forall|x: usize| is_cell(x) ==> #[trigger] marked(final(self).heap@, x) == marked(old(self).heap@, x),
        forall|x: usize| is_cell(x) ==> (aged(old(self).heap@, x) ==> #[trigger] aged(final(self).heap@, x)) && (aged(final(self).heap@, x) ==> aged(old(self).heap@, x) || old(self).aging@.contains(x)),
        old(self).remembered@.len() <= final(self).remembered@.len(),
        forall|k: int| 0 <= k < old(self).remembered@.len() ==> #[trigger] final(self).remembered@[k] == old(self).remembered@[k],
        forall|k: int| old(self).remembered@.len() <= k < final(self).remembered@.len() ==> old(self).aging@.contains(#[trigger] final(self).remembered@[k]) && aged(final(self).heap@, final(self).remembered@[k])
@sub let aging = std :: mem :: take ( & mut self . aging ) ; ==> let aging = take_vec(&mut self.aging); proof { same_but_heap(&o, self); }
@sub let mut promoted = Vec :: new ( ) ; ==> let mut promoted_: Vec<usize> = Vec::new();
@sub for p in aging ==> for p in aging.into_iter()
@sub for p in promoted ==> for p in promoted_.into_iter()
@sub promoted . push ( p ) ==> promoted_.push(p)
@sub ( * p ) . age_and_check_promote ( ) ==> self.mem.age_and_check_promote(p)
@sub ( * page_ptr ) . get_index ( p ) ==> self.heap.page(page_ptr).get_index(p)
@sub let bit_mask = 1 << ( index % 64 ) ; ==> let bit_mask: u64 = 1u64 << ((index % 64) as u64); let ghost s1 = *self;
@sub ( * page_ptr ) . old_bits [ $i ] |= bit_mask ==> { let w_ = word(&mut self.heap.page_mut(page_ptr).old_bits, $i); *w_ |= bit_mask; }
@sub ( * p ) . promote_to_old ( ) ==> self.mem.promote_to_old(p)
@sub ( * p ) . young_child_exists ( self ) ==> self.young_child_exists(p)
@sub ( * p ) . enter_remembered ( ) ==> self.mem.enter_remembered(p)
@sub ( * p ) . arm_barrier ( ) ==> self.mem.arm_barrier(p)
@sub std :: ptr :: NonNull :: new_unchecked ( p ) ==> p
@enter
    let ghost o = *self;
@loop 1
    invariant o.wf(), _n1 == aging@.len(), aging@ == o.aging@, cells_live(&o, o.aging@), self.wf(), o.ok() ==> self.ok(), o.old_count + o.aging@.len() <= usize::MAX,
        *self == (Allocator { heap: self.heap, aging: self.aging, old_count: self.old_count, ..o }), self.aging@.len() == 0, self.old_count <= o.old_count + _k1,
        forall|x: usize| is_cell(x) ==> #[trigger] marked(self.heap@, x) == marked(o.heap@, x),
        forall|x: usize| is_cell(x) ==> (aged(o.heap@, x) ==> #[trigger] aged(self.heap@, x)) && (aged(self.heap@, x) ==> aged(o.heap@, x) || o.aging@.take(_k1 as int).contains(x)),
        forall|k: int| 0 <= k < promoted_@.len() ==> o.aging@.contains(#[trigger] promoted_@[k]) && aged(self.heap@, promoted_@[k])
@loopenter 1
    let ghost s0 = *self;
    proof { take_more(o.aging@, _k1 as int); assert(o.aging@[_k1 as int] == aging@[_k1 as int]); assert(o.used(aging@[_k1 as int])); assert(self.used(aging@[_k1 as int])); in_page(self, aging@[_k1 as int]); }
@after self . old_count += 1 ;
    proof { one_aged(&s1, self, p); assert(o.aging@.contains(o.aging@[_k1 as int])); }
@loop 2
    invariant _n2 == promoted_@.len(), o.wf(), cells_live(&o, o.aging@), self.wf(), o.ok() ==> self.ok(),
        *self == (Allocator { heap: self.heap, aging: self.aging, old_count: self.old_count, remembered: self.remembered, ..o }), self.aging@.len() == 0,
        forall|x: usize| is_cell(x) ==> #[trigger] marked(self.heap@, x) == marked(o.heap@, x),
        forall|x: usize| is_cell(x) ==> (aged(o.heap@, x) ==> #[trigger] aged(self.heap@, x)) && (aged(self.heap@, x) ==> aged(o.heap@, x) || o.aging@.contains(x)),
        forall|k: int| 0 <= k < promoted_@.len() ==> o.aging@.contains(#[trigger] promoted_@[k]) && aged(self.heap@, promoted_@[k]),
        o.remembered@.len() <= self.remembered@.len(),
        forall|k: int| 0 <= k < o.remembered@.len() ==> #[trigger] self.remembered@[k] == o.remembered@[k],
        forall|k: int| o.remembered@.len() <= k < self.remembered@.len() ==> o.aging@.contains(#[trigger] self.remembered@[k]) && aged(self.heap@, self.remembered@[k])
@loopenter 2
    let ghost s2 = *self;
    proof { assert(o.aging@.contains(promoted_@[_k2 as int])); let x_ = promoted_@[_k2 as int]; let j_ = choose|j: int| 0 <= j < o.aging@.len() && o.aging@[j] == x_; assert(o.used(o.aging@[j_])); }
@loopend 2
    proof { same_but_heap(&s2, self); }
@loopexit 1
    proof { assert(o.aging@.take(o.aging@.len() as int) =~= o.aging@); }
@fn salvage_empty_pages
    requires old(self).wf(), old(self).small(), old(self).marks_live()
    ensures final(self).wf(), final(self).marks_live(),
        *final(self) == (Allocator { pages: final(self).pages, free_pages: final(self).free_pages, old_count: final(self).old_count, total_freed_pages: final(self).total_freed_pages, mem: final(self).mem, heap: final(self).heap, ..*old(self) }),
        forall|p: usize| #[trigger] final(self).pages@.contains(p) == (old(self).pages@.contains(p) && !dead(old(self).heap@, p)),
        forall|p: usize| #[trigger] final(self).spare(p) == (old(self).spare(p) || (old(self).pages@.contains(p) && dead(old(self).heap@, p))),
        forall|x: usize| #[trigger] final(self).mem.live(x) == (old(self).mem.live(x) && final(self).used(x)),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(final(self).heap@, x) == marked(old(self).heap@, x),
        forall|x: usize| old(self).used(x) ==> #[trigger] aged(final(self).heap@, x) == (aged(old(self).heap@, x) && final(self).used(x))
@sub self . pages [ $i ] . as_ref ( ) . all_dead ( ) ==> self.heap.page(self.pages[$i]).all_dead()
@sub let mut page = self . pages . remove ( $i ) ; ==> proof { assert(dead(self.heap@, o.pages@[len - i - 1])); } let ghost s0 = *self; let page = self.pages.remove($i);
@sub page . as_ref ( ) ==> self.heap.page(page)
@sub page . as_mut ( ) . clear_old_bits ( ) ==> self.heap.page_mut(page).clear_old_bits()
@sub page . as_mut ( ) . drop_inner_cells ( ) ==> self.heap.page(page).drop_inner_cells(&mut self.mem)
@sub debug_assert ! ( stale_old <= self . old_count ) ; ==> 
@enter
    hide(Allocator::wf); hide(Allocator::marks_live);
    let ghost o = *self;
    proof { small_pages(self); salv_start(self); }
@loop 1
    invariant o.wf(), o.small(), len == o.pages@.len(), len <= 8191, self.total_freed_pages <= o.total_freed_pages + i, salv(&o, self, len - i)
@loopenter 1
    proof { salv_use(&o, self, len - i); }
@loopend 1
    proof { if !dead(o.heap@, o.pages@[len - i - 1]) { salv_keep(&o, self, len - i); } }
@after self . total_freed_pages += 1 ;
    proof { salv_step(&o, &s0, self, len - i); }
@exit
    proof { salv_end(&o, self); }
@fn sweep
@attr #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).small(), old(self).marks_live()
    ensures final(self).ok(),
        forall|x: usize| #[trigger] final(self).used(x) == old(self).used(x),
        forall|x: usize| #[trigger] final(self).fl@.contains(x) == (old(self).used(x) && !marked(old(self).heap@, x)),
        forall|x: usize| #[trigger] final(self).mem.live(x) == (old(self).mem.live(x) && marked(old(self).heap@, x)),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(final(self).heap@, x) == marked(old(self).heap@, x),
        forall|x: usize| old(self).used(x) ==> #[trigger] aged(final(self).heap@, x) == (aged(old(self).heap@, x) && marked(old(self).heap@, x)),
        final(self).pages == old(self).pages, final(self).current_page == old(self).current_page, final(self).used_in_current == old(self).used_in_current, final(self).free_pages == old(self).free_pages
@enter
    hide(Allocator::wf); hide(Allocator::ok); hide(Allocator::marks_live); hide(Allocator::used);
@sub let mut c = 0 ; ==> proof { small_pages(self); } let mut c: usize = 0; let ghost o = *self; let ghost mut fl = seq![0usize]; let ghost mut n_: int = 0;
@sub let mut demoted = 0 ; ==> let mut demoted: usize = 0;
@sub let mut anchor = T :: new_invalid ( ) ; ==> let anchor = self.mem.anchor();
@sub let head = & mut ( ( & mut anchor ) as * mut T ) ; ==> let mut head_: usize = anchor; proof { start(&o); mid_start(&o, self); }
@sub anchor . next ( ) ==> self.mem.next(anchor)
@sub for pinfo in self . pages . iter_mut ( ) ==> for pi_ in 0..self.pages.len()
@sub let page = pinfo . as_mut ( ) ; ==> let page = self.pages[pi_]; proof { n_ = pi_ as int; mid_page(&o, self, fl, head_, c as int, pi_ as int); }
@sub page . get_first_cell ( ) ==> self.heap.page(page).get_first_cell()
@sub self . current_page . as_ref ( ) ==> self.heap.page(self.current_page)
@sub let page = unsafe { self . current_page . as_mut ( ) } ; ==> let page = self.current_page;
@sub & mut page . old_bits [ $w ] ==> word(&mut self.heap.page_mut(page).old_bits, $w)
@sub c += sweep_bits ( 64 , map , & mut ptr , head , & mut log ) ; ==> proof { mid_use(&o, &s0, fl, head_, c as int, n_, page, w as int); } let ghost p_ = ptr; let ghost h_ = head_; let d_ = sweep_bits(64, map, &mut ptr, &mut head_, &mut log, &mut self.mem, Ghost(fl), Ghost(page), Ghost(64 * w as int)); c += d_; proof { mid_step(&o, &s0, self, fl, h_, head_, c - d_, c as int, n_, page, w as int, 64 as int); fl = fl + swept(p_ as int, map, 64 as int); }
@sub c += sweep_bits ( bit , map , & mut ptr , head , & mut log ) ; ==> proof { mid_use(&o, &s0, fl, head_, c as int, n_, page, i as int); } let ghost p_ = ptr; let ghost h_ = head_; let d_ = sweep_bits(bit, map, &mut ptr, &mut head_, &mut log, &mut self.mem, Ghost(fl), Ghost(page), Ghost(64 * i as int)); c += d_; proof { mid_step(&o, &s0, self, fl, h_, head_, c - d_, c as int, n_, page, i as int, bit as int); fl = fl + swept(p_ as int, map, bit as int); }
@sub let map = page . mark_bits [ $w ] ; ==> let ghost s0 = *self; proof { mid_marks(&o, self, fl, head_, c as int, n_, page, $w as int); } let map = self.heap.page(page).mark_bits[$w];
@sub debug_assert ! ( demoted <= self . old_count ) ; ==> 
@sub for addr in log ==> for addr in log.into_iter()
@loop 1
    invariant o.wf(), o == *old(self), o.small(), o.pages@.len() <= 8191, self.pages == o.pages, self.current_page == o.current_page, self.used_in_current == o.used_in_current,
        c <= 4032 * pi_, demoted <= 4032 * pi_, mid(&o, self, fl, head_, c as int, pi_ as int, o.current_page, 0, 0)
@loopend 1
    proof { mid_next(&o, self, fl, head_, c as int, pi_ as int); }
@loop 2
    invariant o.wf(), o == *old(self), o.small(), o.pages@.len() <= 8191, self.pages == o.pages, self.current_page == o.current_page, self.used_in_current == o.used_in_current,
        n_ == pi_, 0 <= pi_ < o.pages@.len(), page == o.pages@[pi_ as int], ptr == addr(page, 64 * w), o.region(page),
        c <= 4032 * pi_ + 64 * w, demoted <= 4032 * pi_ + 64 * w, mid(&o, self, fl, head_, c as int, n_, page, 64 * w, w as int)
@loop 3
    invariant o.wf(), o == *old(self), o.small(), o.pages@.len() <= 8191, self.pages == o.pages, self.current_page == o.current_page, self.used_in_current == o.used_in_current,
        n_ == o.pages@.len(), page == o.current_page, i <= 63, ptr == addr(page, 64 * w), o.region(page),
        c <= 4032 * o.pages@.len() + 64 * w, demoted <= 4032 * o.pages@.len() + 64 * w, mid(&o, self, fl, head_, c as int, n_, page, 64 * w, w as int)
@loop 4
    invariant self.free_log@.len() <= 2097152, self.free_log_pos < 2097152, self.ok(), forall|x: usize| #[trigger] self.used(x) == a4.used(x), *self == (Allocator { free_log: self.free_log, free_log_pos: self.free_log_pos, ..a4 }), a4.ok(), _n4 == log@.len()
@loopend 4
    proof { same_but_log(&a4, self); }
@before let mut ptr = unsafe { self . heap . page ( self . current_page )
    proof { n_ = o.pages@.len() as int; mid_current(&o, self, fl, head_, c as int); }
@before self . old_count = self . old_count . saturating_sub ( demoted ) ;
    let ghost s = *self;
    proof { assert(i == 63 ==> bit == 0); mid_end(&o, self, fl, head_, c as int, n_, page, 64 * i + bit, if i < 63 { i + 1 } else { 63 }); }
@before if let Some ( log ) = log { let gc
    self.fl = Ghost(fl.skip(1));
    proof { swept_all(&o, &s, self, fl, head_, page, i as int, bit as int); }
    let ghost a4 = *self;
@endimpl
@verbatim
pub proof fn page_mask(x: usize)
    ensures (x & !(262143usize)) == pg(x), 64 * 64 * 64 - 1 == 262143
{
    assert(x & !(262143usize) == x - x % 0x40000) by (bit_vector);
}
/// the head of the free list was handed out
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub proof fn taken(o: &Allocator, a: &Allocator, x: usize)
    requires o.ok(), o.free == Some(x), *a == (Allocator { total_allocated_objects: a.total_allocated_objects, free: a.free, free_list_count: a.free_list_count, mem: a.mem, fl: a.fl, ..*o }),
        a.free == o.mem.link(x), a.free_list_count == o.free_list_count - 1, a.mem.same_but(&o.mem, x), a.mem.live(x), a.fl@ == o.fl@.skip(1)
    ensures a.ok(), forall|y: usize| #[trigger] a.used(y) == o.used(y)
{
    assert(o.fl@.len() > 0 && o.fl@[0] == x);
    assert(o.used(o.fl@[0]));
    assert(o.mem.link(o.fl@[0]) == after(o.fl@, 0));
    assert forall|y: usize| #[trigger] a.used(y) == o.used(y) by {};
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { assert(o.in_service(p)); };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert forall|k: int| 0 <= k < a.fl@.len() implies a.mem.link(#[trigger] a.fl@[k]) == after(a.fl@, k) by { assert(o.fl@[k + 1] != o.fl@[0]); assert(o.mem.link(o.fl@[k + 1]) == after(o.fl@, k + 1)); };
    assert forall|k: int| 0 <= k < a.fl@.len() implies a.used(#[trigger] a.fl@[k]) by { assert(o.used(o.fl@[k + 1])); };
    assert forall|y: usize| #[trigger] a.mem.live(y) <==> a.used(y) && !a.fl@.contains(y) by {
        if y == x {
            if a.fl@.contains(x) { let k = choose|k: int| 0 <= k < a.fl@.len() && a.fl@[k] == x; assert(o.fl@[k + 1] == o.fl@[0]); }
        } else {
            assert(o.mem.live(y) <==> o.used(y) && !o.fl@.contains(y));
            if o.fl@.contains(y) { let k = choose|k: int| 0 <= k < o.fl@.len() && o.fl@[k] == y; assert(a.fl@[k - 1] == y); }
            if a.fl@.contains(y) { let k = choose|k: int| 0 <= k < a.fl@.len() && a.fl@[k] == y; assert(o.fl@[k + 1] == y); }
        }
    };
    assert forall|y: usize| #[trigger] a.mem.live(y) implies a.used(y) by {};
}
/// a cell beyond the used ones
pub proof fn fresh(o: &Allocator, x: usize, c: usize)
    requires o.ok(), is_cell(x), pg(x) == c,
        (c == o.current_page && ix(x) == o.used_in_current) || (o.free_pages@.len() > 0 && c == o.free_pages@[0]) || c == o.head_page + 0x40000
    ensures !o.mem.live(x), !o.used(x)
{
    cell_split(x);
    if o.free_pages@.len() > 0 && c == o.free_pages@[0] { assert(o.free_pages@.contains(c)); assert(o.spare(c)); }
    if c != o.current_page || ix(x) != o.used_in_current { if o.in_service(c) { assert(o.region(c)); } }
    if o.mem.live(x) { assert(o.used(x)); }
}
/// the next cell of the current page was handed out
pub proof fn bumped(o: &Allocator, a: &Allocator, x: usize)
    requires o.ok(), o.free is None, o.used_in_current < 4032, *a == (Allocator { total_allocated_objects: a.total_allocated_objects, used_in_current: (o.used_in_current + 1) as usize, pages_since_gc: a.pages_since_gc, mem: a.mem, ..*o }),
        a.mem.same_but(&o.mem, x), a.mem.live(x), is_cell(x), pg(x) == o.current_page, ix(x) == o.used_in_current
    ensures a.ok(), forall|y: usize| #[trigger] a.used(y) == (o.used(y) || y == x), !o.used(x)
{
    assert(o.in_service(o.current_page));
    assert forall|y: usize| #[trigger] a.used(y) == (o.used(y) || y == x) by { if is_cell(y) { cell_split(y); cell_split(x); } };
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { assert(o.in_service(p)); };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert(o.fl@.len() == 0);
    assert forall|y: usize| #[trigger] a.mem.live(y) <==> a.used(y) && !a.fl@.contains(y) by { if y != x { assert(o.mem.live(y) <==> o.used(y) && !o.fl@.contains(y)); } };
    assert forall|y: usize| #[trigger] a.mem.live(y) implies a.used(y) by {};
}
/// the first cell of another page was handed out
pub proof fn new_page_ok(o: &Allocator, a: &Allocator, x: usize)
    requires o.ok(), o.free is None, o.used_in_current == 4032,
        *a == (Allocator { total_allocated_objects: a.total_allocated_objects, total_allocated_pages: a.total_allocated_pages, used_in_current: 1, current_page: a.current_page, head_page: a.head_page, pages: a.pages, free_pages: a.free_pages, heap: a.heap, mem: a.mem, ..*o }),
        a.pages@ == o.pages@.push(o.current_page),
        (o.free_pages@.len() > 0 && a.current_page == o.free_pages@[0] && a.free_pages@ == o.free_pages@.skip(1) && a.head_page == o.head_page)
            || (o.free_pages@.len() == 0 && a.free_pages@ == o.free_pages@ && a.head_page == a.current_page && a.current_page == o.head_page + 0x40000 && o.head_page + 0x80000 <= o.base@ + 0x40000 * 8192),
        a.heap@.dom() =~= o.heap@.dom(), forall|q: usize| q != a.current_page ==> #[trigger] a.heap@[q] == o.heap@[q], a.heap@[a.current_page].at == o.heap@[a.current_page].at,
        a.mem.same_but(&o.mem, x), a.mem.live(x), is_cell(x), pg(x) == a.current_page, ix(x) == 0
    ensures a.ok(), forall|y: usize| #[trigger] a.used(y) == (o.used(y) || y == x), !o.used(x), !o.in_service(a.current_page)
{
    let c = a.current_page;
    assert(o.in_service(o.current_page));
    if o.free_pages@.len() > 0 { assert(o.free_pages@.contains(c)); assert(o.spare(c)); }
    assert(!o.in_service(c));
    assert(a.pages@.last() == o.current_page);
    assert forall|p: usize| a.pages@.contains(p) == (#[trigger] o.pages@.contains(p) || p == o.current_page) by {
        if o.pages@.contains(p) { let k = choose|k: int| 0 <= k < o.pages@.len() && o.pages@[k] == p; assert(a.pages@[k] == p); }
    };
    assert forall|p: usize| #[trigger] a.free_pages@.contains(p) implies o.free_pages@.contains(p) && p != c by {
        let k = choose|k: int| 0 <= k < a.free_pages@.len() && a.free_pages@[k] == p;
        if o.free_pages@.len() > 0 { assert(o.free_pages@[k + 1] == p); }
    };
    assert forall|y: usize| #[trigger] a.used(y) == (o.used(y) || y == x) by { if is_cell(y) { cell_split(y); cell_split(x); assert(a.pages@.contains(pg(y)) == (o.pages@.contains(pg(y)) || pg(y) == o.current_page)); } };
    assert(aligned(c)) by { if o.free_pages@.len() == 0 { assert((o.head_page as int + 0x40000) % 0x40000 == 0) by (nonlinear_arith) requires o.head_page as int % 0x40000 == 0 {}; } else { assert(o.region(c)); } };
    assert(a.region(c));
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { if p != c { assert(a.pages@.contains(p) == (o.pages@.contains(p) || p == o.current_page)); assert(o.in_service(p)); if a.spare(p) { assert(o.spare(p)); } } else { if a.spare(c) { assert(a.free_pages@.contains(c)); } } };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert(o.fl@.len() == 0);
    assert(a.pages@.contains(c) == (o.pages@.contains(c) || c == o.current_page));
    assert forall|y: usize| #[trigger] a.mem.live(y) <==> a.used(y) && !a.fl@.contains(y) by { if y != x { assert(o.mem.live(y) <==> o.used(y) && !o.fl@.contains(y)); } };
    assert forall|y: usize| #[trigger] a.mem.live(y) implies a.used(y) by {};
}
pub proof fn one_marked(o: &Allocator, a: &Allocator, p: usize)
    requires o.wf(), o.used(p), o.heap@.dom().contains(pg(p)),
        *a == (Allocator { heap: a.heap, ..*o }),
        a.heap@.dom() =~= o.heap@.dom(), forall|q: usize| q != pg(p) ==> a.heap@[q] == o.heap@[q],
        a.heap@[pg(p)].at == o.heap@[pg(p)].at, a.heap@[pg(p)].old_bits == o.heap@[pg(p)].old_bits,
        a.heap@[pg(p)].mark_bits@ == o.heap@[pg(p)].mark_bits@.update(ix(p) / 64, o.heap@[pg(p)].mark_bits@[ix(p) / 64] | (1u64 << ((ix(p) % 64) as u64))),
    ensures
        forall|x: usize| is_cell(x) ==> #[trigger] marked(a.heap@, x) == (marked(o.heap@, x) || x == p),
        forall|x: usize| is_cell(x) ==> #[trigger] aged(a.heap@, x) == aged(o.heap@, x),
        a.wf(), o.ok() ==> a.ok()
{
    cell_split(p);
    bit_or(o.heap@[pg(p)].mark_bits@[ix(p) / 64], (ix(p) % 64) as u64);
    assert forall|x: usize| is_cell(x) implies #[trigger] marked(a.heap@, x) == (marked(o.heap@, x) || x == p) by {
        cell_split(x);
        if pg(x) == pg(p) && x != p { assert(ix(x) != ix(p)); assert(ix(x) / 64 == ix(p) / 64 ==> ix(x) % 64 != ix(p) % 64); }
    };
    assert forall|x: usize| is_cell(x) implies #[trigger] aged(a.heap@, x) == aged(o.heap@, x) by {};
    same_but_heap(o, a);
}
pub proof fn one_aged(o: &Allocator, a: &Allocator, p: usize)
    requires o.wf(), o.used(p), o.heap@.dom().contains(pg(p)),
        *a == (Allocator { heap: a.heap, old_count: a.old_count, ..*o }),
        a.heap@.dom() =~= o.heap@.dom(), forall|q: usize| q != pg(p) ==> a.heap@[q] == o.heap@[q],
        a.heap@[pg(p)].at == o.heap@[pg(p)].at, a.heap@[pg(p)].mark_bits == o.heap@[pg(p)].mark_bits,
        a.heap@[pg(p)].old_bits@ == o.heap@[pg(p)].old_bits@.update(ix(p) / 64, o.heap@[pg(p)].old_bits@[ix(p) / 64] | (1u64 << ((ix(p) % 64) as u64))),
    ensures
        forall|x: usize| is_cell(x) ==> #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) || x == p),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(a.heap@, x) == marked(o.heap@, x),
        a.wf(), o.ok() ==> a.ok()
{
    cell_split(p);
    bit_or(o.heap@[pg(p)].old_bits@[ix(p) / 64], (ix(p) % 64) as u64);
    assert forall|x: usize| is_cell(x) implies #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) || x == p) by {
        cell_split(x);
        if pg(x) == pg(p) && x != p { assert(ix(x) != ix(p)); assert(ix(x) / 64 == ix(p) / 64 ==> ix(x) % 64 != ix(p) % 64); }
    };
    assert forall|x: usize| is_cell(x) implies #[trigger] marked(a.heap@, x) == marked(o.heap@, x) by {};
    same_but_heap(o, a);
}
pub proof fn same_but_heap(o: &Allocator, a: &Allocator)
    requires o.wf(), a.base == o.base, a.head_page == o.head_page, a.pages == o.pages, a.free_pages == o.free_pages, a.current_page == o.current_page, a.used_in_current == o.used_in_current, a.mem == o.mem, a.free_log == o.free_log, a.free_log_pos == o.free_log_pos,
        a.heap@.dom() =~= o.heap@.dom(), forall|q: usize| o.heap@.dom().contains(q) ==> #[trigger] a.heap@[q].at == o.heap@[q].at
    ensures a.wf(), o.ok() && a.fl == o.fl && a.free == o.free && a.free_list_count == o.free_list_count ==> a.ok()
{
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { assert(o.in_service(p)); };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert forall|x: usize| #[trigger] a.mem.live(x) implies a.used(x) by { assert(o.used(x)); };
    assert forall|x: usize| a.used(x) == #[trigger] o.used(x) by {};
    if o.ok() && a.fl == o.fl && a.free == o.free && a.free_list_count == o.free_list_count {
        assert forall|k: int| 0 <= k < a.fl@.len() implies a.used(#[trigger] a.fl@[k]) by { assert(o.used(o.fl@[k])); };
    }
}
pub open spec fn same_pages(a: Map<usize, Page>, b: Map<usize, Page>) -> bool { b.dom() =~= a.dom() && forall|q: usize| #[trigger] b[q].at == a[q].at }
pub proof fn take_more(s: Seq<usize>, k: int)
    requires 0 <= k < s.len()
    ensures forall|q: usize| #[trigger] s.take(k + 1).contains(q) == (s.take(k).contains(q) || q == s[k])
{
    let t = s.take(k + 1);
    assert(t[k] == s[k]);
    assert forall|q: usize| #[trigger] t.contains(q) == (s.take(k).contains(q) || q == s[k]) by {
        if t.contains(q) { let j = choose|j: int| 0 <= j < t.len() && t[j] == q; if j < k { assert(s.take(k)[j] == q); } }
        if s.take(k).contains(q) { let j = choose|j: int| 0 <= j < s.take(k).len() && s.take(k)[j] == q; assert(t[j] == q); }
    };
}
pub proof fn serve(o: &Allocator, k: int)
    requires o.wf(), 0 <= k < o.pages@.len()
    ensures o.in_service(o.pages@[k]), o.arena(o.pages@[k]), o.heap@.dom().contains(o.pages@[k]), o.heap@[o.pages@[k]].at == o.pages@[k], o.heap@[o.pages@[k]].placed()
{ assert(o.pages@.contains(o.pages@[k])); assert(o.in_service(o.pages@[k])); }
// ---- what a sweep puts on the free list --------------------------------------------------------
/// the unmarked ones of the n cells from address p
pub open spec fn swept(p: int, w: u64, n: int) -> Seq<usize>
    decreases n
{ if n <= 0 { Seq::empty() } else if wbit(w, n - 1) { swept(p, w, n - 1) } else { swept(p, w, n - 1).push((p + 64 * (n - 1)) as usize) } }
pub open spec fn in_swept(p: int, w: u64, n: int, x: int) -> bool { p <= x && (x - p) % 64 == 0 && (x - p) / 64 < n && !wbit(w, (x - p) / 64) }
pub proof fn swept_mem(p: int, w: u64, n: int)
    requires 0 <= p, 0 <= n, p + 64 * n <= usize::MAX
    ensures forall|x: usize| #[trigger] swept(p, w, n).contains(x) == in_swept(p, w, n, x as int), swept(p, w, n).no_duplicates(), swept(p, w, n).len() <= n
    decreases n
{
    if n > 0 {
        swept_mem(p, w, n - 1);
        let s = swept(p, w, n - 1);
        let y = (p + 64 * (n - 1)) as usize;
        assert((y - p) % 64 == 0 && (y - p) / 64 == n - 1);
        assert forall|x: usize| #[trigger] swept(p, w, n).contains(x) == in_swept(p, w, n, x as int) by {
            assert(s.contains(x) == in_swept(p, w, n - 1, x as int));
            if p <= x && (x - p) % 64 == 0 && (x - p) / 64 == n - 1 { assert(x == y); }
            if !wbit(w, n - 1) {
                assert(s.push(y).last() == y);
                if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(s.push(y)[k] == x); }
            }
        };
        assert(!s.contains(y));
    } else {
        assert forall|x: usize| #[trigger] swept(p, w, n).contains(x) == in_swept(p, w, n, x as int) by { if p <= x { assert((x - p) / 64 >= 0); } };
    }
}
pub open spec fn fl_out(fl: Seq<usize>, p: usize, w: u64, n: int, m: &Mem, head: usize) -> bool {
    let l = fl + swept(p as int, w, n);
    l.no_duplicates() && linked(m, l) && head == l.last()
}
pub proof fn link_push(o: &Mem, m: &Mem, l: Seq<usize>, x: usize)
    requires linked(o, l), l.len() > 0, l.no_duplicates(), !l.contains(x), m.link(l.last()) == Some(x), m.link(x) is None,
        forall|y: usize| y != x && y != l.last() ==> #[trigger] m.link(y) == o.link(y)
    ensures linked(m, l.push(x)), l.push(x).no_duplicates(), l.push(x).last() == x
{
    let s = l.push(x);
    assert forall|k: int| 0 <= k < s.len() implies m.link(#[trigger] s[k]) == after(s, k) by {
        if k < l.len() - 1 { assert(l[k] != l.last()); assert(l.contains(l[k])); assert(o.link(l[k]) == after(l, k)); }
    };
}
pub proof fn unswept(fl: Seq<usize>, p: int, w: u64, j: int, x: usize)
    requires 0 <= p, 0 <= j < 64, p + 64 * 64 <= usize::MAX, x == p + 64 * j, !fl.contains(x)
    ensures !(fl + swept(p, w, j)).contains(x)
{
    swept_mem(p, w, j);
    let s = swept(p, w, j);
    assert(s.contains(x) == in_swept(p, w, j, x as int));
    assert((x - p) / 64 == j);
    if (fl + s).contains(x) { let k = choose|k: int| 0 <= k < (fl + s).len() && (fl + s)[k] == x; if k < fl.len() { assert(fl[k] == x); } else { assert(s[k - fl.len()] == x); } }
}
pub proof fn pushed_live(o: &Mem, m: &Mem, p: int, w: u64, j: int)
    requires 0 <= p, 0 <= j < 64, p + 64 * 64 <= usize::MAX, !wbit(w, j),
        forall|x: usize| x != p + 64 * j ==> #[trigger] m.live(x) == (o.live(x) && !swept(p, w, j).contains(x)), !m.live((p + 64 * j) as usize)
    ensures forall|x: usize| #[trigger] m.live(x) == (o.live(x) && !swept(p, w, j + 1).contains(x))
{
    swept_mem(p, w, j); swept_mem(p, w, j + 1);
    assert forall|x: usize| #[trigger] m.live(x) == (o.live(x) && !swept(p, w, j + 1).contains(x)) by {
        let y = (p + 64 * j) as usize;
        assert(swept(p, w, j).contains(x) == in_swept(p, w, j, x as int));
        assert(swept(p, w, j + 1).contains(x) == in_swept(p, w, j + 1, x as int));
        assert((y - p) % 64 == 0 && (y - p) / 64 == j);
        if p <= x && (x - p) % 64 == 0 && (x - p) / 64 == j { assert(x == y); }
    };
}
pub proof fn lead(p: int, w: u64)
    ensures vstd::std_specs::bits::u64_trailing_ones(w) <= 64
{ broadcast use vstd::std_specs::bits::group_bits_axioms; }
pub proof fn lead_empty(p: int, w: u64, n: int)
    requires n <= vstd::std_specs::bits::u64_trailing_ones(w)
    ensures swept(p, w, n) == Seq::<usize>::empty()
    decreases n
{
    if n > 0 {
        broadcast use vstd::std_specs::bits::group_bits_axioms;
        let j = (n - 1) as u64;
        assert((w >> j) & 1u64 == 1u64);
        lead_empty(p, w, n - 1);
    }
}
pub proof fn shifted(w: u64, m: int, v: u64)
    requires 0 <= m <= 64, v == if m == 64 { 0 } else { w >> (m as u64) }
    ensures forall|k: int| 0 <= k < 64 - m ==> #[trigger] wbit(v, k) == wbit(w, m + k)
{ assert forall|k: int| 0 <= k < 64 - m implies #[trigger] wbit(v, k) == wbit(w, m + k) by { bit_shift(w, m as u64, k as u64); }; }
/// the cells swept so far: those of the first n full pages and the first lim of page q
pub open spec fn passed(o: &Allocator, x: usize, n: int, q: usize, lim: int) -> bool {
    is_cell(x) && !marked(o.heap@, x) && (o.pages@.take(n).contains(pg(x)) || (pg(x) == q && ix(x) < lim))
}
pub open spec fn listed(o: &Allocator, fl: Seq<usize>, n: int, q: usize, lim: int) -> bool {
    forall|x: usize| #[trigger] fl.contains(x) == (x == 0 || passed(o, x, n, q, lim))
}
pub open spec fn retired(h0: Map<usize, Page>, h: Map<usize, Page>, pages: Seq<usize>, n: int, q: usize, w: int) -> bool {
    forall|p: usize, k: int| 0 <= k < 63 ==> #[trigger] h[p].old_bits@[k] == if pages.take(n).contains(p) || (p == q && k < w) { h0[p].old_bits@[k] & h0[p].mark_bits@[k] } else { h0[p].old_bits@[k] }
}
pub proof fn start(o: &Allocator)
    requires o.wf()
    ensures o.pages@.len() <= 8191, listed(o, seq![0usize], 0, o.current_page, 0), retired(o.heap@, o.heap@, o.pages@, 0, o.current_page, 0), seq![0usize].no_duplicates(),
        !o.mem.live(0)
{
    assert(o.pages@.len() <= 8191) by (nonlinear_arith) requires (o.pages@.len() + o.free_pages@.len()) * 0x40000 == o.head_page - o.base@, o.head_page + 0x40000 <= o.base@ + 0x40000 * 8192 {};
    let s = seq![0usize];
    assert forall|x: usize| #[trigger] s.contains(x) == (x == 0 || passed(o, x, 0, o.current_page, 0)) by { if x == 0 { assert(s[0] == 0); } if is_cell(x) { cell_split(x); } };
    if o.mem.live(0) { assert(o.used(0)); in_page(o, 0); cell_split(0); }
}
pub proof fn once(o: &Allocator, k: int)
    requires o.wf(), 0 <= k < o.pages@.len()
    ensures !o.pages@.take(k).contains(o.pages@[k])
{ let t = o.pages@.take(k); if t.contains(o.pages@[k]) { let j = choose|j: int| 0 <= j < t.len() && t[j] == o.pages@[k]; assert(o.pages@[j] == o.pages@[k]); } }
pub proof fn swept_none(o: &Allocator, fl: Seq<usize>, n: int, q: usize, p: usize)
    requires listed(o, fl, n, q, 0)
    ensures listed(o, fl, n, p, 0)
{ assert forall|x: usize| #[trigger] fl.contains(x) == (x == 0 || passed(o, x, n, p, 0)) by { if is_cell(x) { cell_split(x); } }; }
pub proof fn swept_page(o: &Allocator, fl: Seq<usize>, n: int)
    requires o.wf(), 0 <= n < o.pages@.len(), listed(o, fl, n, o.pages@[n], 4032)
    ensures listed(o, fl, n + 1, o.current_page, 0)
{ take_more(o.pages@, n); assert forall|x: usize| #[trigger] fl.contains(x) == (x == 0 || passed(o, x, n + 1, o.current_page, 0)) by { if is_cell(x) { cell_split(x); } assert(o.pages@.take(n + 1).contains(pg(x)) == (o.pages@.take(n).contains(pg(x)) || pg(x) == o.pages@[n])); }; }
pub proof fn retired_page(h0: Map<usize, Page>, h: Map<usize, Page>, pages: Seq<usize>, n: int, c: usize)
    requires 0 <= n < pages.len(), retired(h0, h, pages, n, pages[n], 63)
    ensures retired(h0, h, pages, n + 1, c, 0)
{ take_more(pages, n); assert forall|p: usize, k: int| 0 <= k < 63 implies #[trigger] h[p].old_bits@[k] == if pages.take(n + 1).contains(p) || (p == c && k < 0) { h0[p].old_bits@[k] & h0[p].mark_bits@[k] } else { h0[p].old_bits@[k] } by { assert(pages.take(n + 1).contains(p) == (pages.take(n).contains(p) || p == pages[n])); }; }
pub proof fn apart(o: &Allocator, fl: Seq<usize>, q: usize, n: int, w: int)
    requires o.wf(), q > 0, !o.pages@.take(n).contains(q), listed(o, fl, n, q, 64 * w)
    ensures forall|x: usize| is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + 64 ==> !#[trigger] fl.contains(x)
{ assert forall|x: usize| is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + 64 implies !#[trigger] fl.contains(x) by { cell_split(x); }; }
pub proof fn advance(o: &Allocator, fl: Seq<usize>, q: usize, n: int, w: int, b: int)
    requires o.wf(), q > 0, aligned(q), q + 0x40000 <= usize::MAX, 0 <= w < 63, 0 <= b <= 64, listed(o, fl, n, q, 64 * w)
    ensures listed(o, fl + swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b), n, q, 64 * w + b),
        swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b).len() <= b,
        fl.len() > 0 && fl[0] == 0 ==> (fl + swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b))[0] == 0,
        forall|x: usize| #[trigger] (fl + swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b)).contains(x) == (fl.contains(x) || swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b).contains(x)),
        forall|x: usize| #[trigger] swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], b).contains(x) ==> is_cell(x)
{
    off_fits();
    let p = addr(q, 64 * w);
    let m = o.heap@[q].mark_bits@[w];
    let s = swept(p, m, b);
    swept_mem(p, m, b);
    assert forall|x: usize| #[trigger] s.contains(x) == (is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + b && !marked(o.heap@, x)) by {
        assert(s.contains(x) == in_swept(p, m, b, x as int));
        if in_swept(p, m, b, x as int) {
            let j = (x - p) / 64;
            assert(x == p + 64 * j);
            cell_addr(q, 64 * w + j);
            assert((64 * w + j) / 64 == w && (64 * w + j) % 64 == j);
        }
        if is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + b && !marked(o.heap@, x) {
            cell_split(x);
            let j = ix(x) - 64 * w;
            assert(x - p == 64 * j);
            assert((64 * j) % 64 == 0 && (64 * j) / 64 == j);
            assert((64 * w + j) / 64 == w && (64 * w + j) % 64 == j);
        }
    };
    assert forall|x: usize| #[trigger] (fl + s).contains(x) == (fl.contains(x) || s.contains(x)) by { cat_contains(fl, s, x); };
    assert forall|x: usize| #[trigger] (fl + s).contains(x) == (x == 0 || passed(o, x, n, q, 64 * w + b)) by {
        assert(s.contains(x) == (is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + b && !marked(o.heap@, x)));
        assert(fl.contains(x) == (x == 0 || passed(o, x, n, q, 64 * w)));
    };
}
pub proof fn cat_contains(a: Seq<usize>, b: Seq<usize>, x: usize)
    ensures (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
    if (a + b).contains(x) { let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == x; if k < a.len() { assert(a[k] == x); } else { assert(b[k - a.len()] == x); } }
    if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert((a + b)[k] == x); }
    if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert((a + b)[a.len() + k] == x); }
}
pub proof fn swept_all(o: &Allocator, s: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, q: usize, i: int, b: int)
    requires o.wf(), o.marks_live(), q == o.current_page, o.used_in_current == 64 * i + b, 0 <= b < 64, 0 <= i <= 63,
        *a == (Allocator { fl: a.fl, old_count: a.old_count, free: a.free, total_freed_objects: a.total_freed_objects, free_list_count: a.free_list_count, ..*s }),
        mid(o, s, fl, head, a.free_list_count as int, o.pages@.len() as int, q, 64 * i + b, if i < 63 { i + 1 } else { 63 }),
        a.free == s.mem.link(0), a.fl@ == fl.skip(1)
    ensures a.ok(),
        forall|x: usize| #[trigger] a.used(x) == o.used(x),
        forall|x: usize| #[trigger] a.fl@.contains(x) == (o.used(x) && !marked(o.heap@, x)),
        forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && marked(o.heap@, x)),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(a.heap@, x) == marked(o.heap@, x),
        forall|x: usize| o.used(x) ==> #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) && marked(o.heap@, x)),
{
    reveal(mid);
    let l = fl.skip(1);
    assert(o.pages@.take(o.pages@.len() as int) =~= o.pages@);
    assert forall|x: usize| #[trigger] a.used(x) == o.used(x) by {};
    assert forall|x: usize| #[trigger] l.contains(x) == (o.used(x) && !marked(o.heap@, x)) by {
        assert(fl.contains(x) == (x == 0 || passed(o, x, o.pages@.len() as int, q, 64 * i + b)));
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(fl[k + 1] == x); assert(fl[0] != fl[k + 1]); }
        if o.used(x) && !marked(o.heap@, x) {
            in_page(o, x); cell_split(x);
            let k = choose|k: int| 0 <= k < fl.len() && fl[k] == x; assert(x != 0); assert(k > 0); assert(l[k - 1] == x);
        }
    };
    assert forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && marked(o.heap@, x)) by {
        assert(s.mem.live(x) == (o.mem.live(x) && !fl.contains(x)));
        if o.mem.live(x) {
            assert(o.used(x)); in_page(o, x); cell_split(x);
            assert(fl.contains(x) == (x == 0 || passed(o, x, o.pages@.len() as int, q, 64 * i + b)));
        }
    };
    assert forall|x: usize| is_cell(x) implies #[trigger] marked(a.heap@, x) == marked(o.heap@, x) by { assert(s.heap@[pg(x)].mark_bits == o.heap@[pg(x)].mark_bits); };
    assert forall|x: usize| o.used(x) implies #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) && marked(o.heap@, x)) by {
        in_page(o, x);
        let k = ix(x) / 64;
        bit_and(o.heap@[pg(x)].old_bits@[k], o.heap@[pg(x)].mark_bits@[k]);
        assert(s.heap@[pg(x)].old_bits@[k] == (o.heap@[pg(x)].old_bits@[k] & o.heap@[pg(x)].mark_bits@[k]));
    };
    assert forall|k: int| 0 <= k < l.len() implies a.mem.link(#[trigger] l[k]) == after(l, k) by { assert(s.mem.link(fl[k + 1]) == after(fl, k + 1)); };
    assert(s.mem.link(fl[0]) == after(fl, 0));
    assert forall|k: int| 0 <= k < l.len() implies a.used(#[trigger] l[k]) by { assert(l.contains(l[k])); };
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); assert(s.heap@[p].at == o.heap@[p].at); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { assert(o.in_service(p)); };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert forall|x: usize| #[trigger] a.mem.live(x) implies a.used(x) by { assert(o.used(x)); };
    assert forall|x: usize| #[trigger] a.mem.live(x) <==> a.used(x) && !a.fl@.contains(x) by {
        assert(l.contains(x) == (o.used(x) && !marked(o.heap@, x)));
        if o.used(x) && marked(o.heap@, x) { assert(o.mem.live(x)); }
        if o.mem.live(x) { assert(o.used(x)); }
    };
}
/// the state between two words of a sweep
#[verifier::opaque]
pub open spec fn mid(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, n: int, q: usize, lim: int, w: int) -> bool {
    &&& *a == (Allocator { heap: a.heap, mem: a.mem, ..*o }) && same_pages(o.heap@, a.heap@)
    &&& forall|q: usize| #[trigger] a.heap@[q].mark_bits == o.heap@[q].mark_bits
    &&& fl.len() > 0 && fl[0] == 0 && fl.no_duplicates() && linked(&a.mem, fl) && head == fl.last() && !a.mem.live(head) && (is_cell(head) || head == 0) && c == fl.len() - 1
    &&& forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && !fl.contains(x))
    &&& listed(o, fl, n, q, lim) && retired(o.heap@, a.heap@, o.pages@, n, q, w)
    &&& q > 0 && aligned(q) && q + 0x40000 <= usize::MAX && o.heap@.dom().contains(q) && o.heap@[q].at == q && !o.pages@.take(n).contains(q)
}
pub proof fn mid_start(o: &Allocator, a: &Allocator)
    requires o.wf(), *a == (Allocator { mem: a.mem, ..*o }), a.mem.same_but(&o.mem, 0), !a.mem.live(0), a.mem.link(0) is None, !o.mem.live(0)
    ensures mid(o, a, seq![0usize], 0, 0, 0, o.current_page, 0, 0)
{
    reveal(mid); start(o);
    assert(o.in_service(o.current_page)); assert(o.arena(o.current_page));
    assert forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && !seq![0usize].contains(x)) by {};
}
pub proof fn mid_marks(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, n: int, q: usize, w: int)
    requires mid(o, a, fl, head, c, n, q, 64 * w, w)
    ensures a.heap@.dom().contains(q), a.heap@[q].mark_bits == o.heap@[q].mark_bits
{ reveal(mid); assert(a.heap@[q].mark_bits == o.heap@[q].mark_bits); }
pub proof fn mid_use(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, n: int, q: usize, w: int)
    requires o.wf(), mid(o, a, fl, head, c, n, q, 64 * w, w)
    ensures aligned(q), q > 0, q + 0x40000 <= usize::MAX, fl.len() > 0, fl.no_duplicates(), linked(&a.mem, fl), head == fl.last(), !a.mem.live(head), is_cell(head) || head == 0,
        forall|x: usize| is_cell(x) && pg(x) == q && 64 * w <= ix(x) < 64 * w + 64 ==> !#[trigger] fl.contains(x)
{ reveal(mid); apart(o, fl, q, n, w); }
pub proof fn mid_step(o: &Allocator, a: &Allocator, b: &Allocator, fl: Seq<usize>, h0: usize, h1: usize, c: int, c1: int, n: int, q: usize, w: int, k: int)
    requires o.wf(), mid(o, a, fl, h0, c, n, q, 64 * w, w), 0 <= w < 63, 0 <= k <= 64,
        *b == (Allocator { heap: b.heap, mem: b.mem, ..*a }),
        b.heap@ == a.heap@.insert(q, b.heap@[q]), b.heap@[q].at == a.heap@[q].at, b.heap@[q].mark_bits == a.heap@[q].mark_bits,
        b.heap@[q].old_bits@ == a.heap@[q].old_bits@.update(w, a.heap@[q].old_bits@[w] & o.heap@[q].mark_bits@[w]),
        fl_out(fl, addr(q, 64 * w) as usize, o.heap@[q].mark_bits@[w], k, &b.mem, h1), addr(q, 64 * w) == addr(q, 64 * w) as usize,
        c1 == c + swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], k).len(),
        forall|x: usize| #[trigger] b.mem.live(x) == (a.mem.live(x) && !swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], k).contains(x))
    ensures mid(o, b, fl + swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], k), h1, c1, n, q, 64 * w + k, w + 1)
{
    reveal(mid);
    let s = swept(addr(q, 64 * w), o.heap@[q].mark_bits@[w], k);
    let f2 = fl + s;
    advance(o, fl, q, n, w, k);
    assert forall|x: usize| #[trigger] b.mem.live(x) == (o.mem.live(x) && !f2.contains(x)) by { assert(f2.contains(x) == (fl.contains(x) || s.contains(x))); assert(a.mem.live(x) == (o.mem.live(x) && !fl.contains(x))); };
    assert(f2.contains(f2.last()));
    if s.len() > 0 { assert(s.contains(s.last())); assert(f2.last() == s.last()); } else { assert(f2 =~= fl); }
    assert forall|p: usize, j: int| 0 <= j < 63 implies #[trigger] b.heap@[p].old_bits@[j] == if o.pages@.take(n).contains(p) || (p == q && j < w + 1) { o.heap@[p].old_bits@[j] & o.heap@[p].mark_bits@[j] } else { o.heap@[p].old_bits@[j] } by {
        assert(a.heap@[p].old_bits@[j] == if o.pages@.take(n).contains(p) || (p == q && j < w) { o.heap@[p].old_bits@[j] & o.heap@[p].mark_bits@[j] } else { o.heap@[p].old_bits@[j] });
    };
    assert(b.heap@.dom() =~= a.heap@.dom());
    assert forall|p: usize| #[trigger] b.heap@[p].at == o.heap@[p].at by { assert(a.heap@[p].at == o.heap@[p].at); };
    assert forall|p: usize| #[trigger] b.heap@[p].mark_bits == o.heap@[p].mark_bits by { assert(a.heap@[p].mark_bits == o.heap@[p].mark_bits); };
}
pub proof fn mid_page(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, k: int)
    requires o.wf(), 0 <= k < o.pages@.len(), mid(o, a, fl, head, c, k, o.current_page, 0, 0)
    ensures mid(o, a, fl, head, c, k, o.pages@[k], 0, 0), a.heap@.dom().contains(o.pages@[k]), a.heap@[o.pages@[k]].at == o.pages@[k], o.heap@[o.pages@[k]].placed(), a.heap@[o.pages@[k]].placed(), o.region(o.pages@[k])
{
    reveal(mid); serve(o, k); once(o, k); swept_none(o, fl, k, o.current_page, o.pages@[k]);
    assert(a.heap@[o.pages@[k]].at == o.heap@[o.pages@[k]].at);
    let q = o.pages@[k];
    assert forall|p: usize, j: int| 0 <= j < 63 implies #[trigger] a.heap@[p].old_bits@[j] == if o.pages@.take(k).contains(p) || (p == q && j < 0) { o.heap@[p].old_bits@[j] & o.heap@[p].mark_bits@[j] } else { o.heap@[p].old_bits@[j] } by {};
}
pub proof fn mid_next(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, k: int)
    requires o.wf(), 0 <= k < o.pages@.len(), mid(o, a, fl, head, c, k, o.pages@[k], 4032, 63)
    ensures mid(o, a, fl, head, c, k + 1, o.current_page, 0, 0)
{
    reveal(mid); swept_page(o, fl, k); retired_page(o.heap@, a.heap@, o.pages@, k, o.current_page);
    assert(o.in_service(o.current_page)); assert(o.arena(o.current_page));
    let t = o.pages@.take(k + 1);
    if t.contains(o.current_page) { let j = choose|j: int| 0 <= j < t.len() && t[j] == o.current_page; assert(o.pages@[j] == o.current_page); assert(o.pages@.contains(o.current_page)); }
}
pub proof fn mid_current(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int)
    requires o.wf(), mid(o, a, fl, head, c, o.pages@.len() as int, o.current_page, 0, 0)
    ensures a.heap@.dom().contains(o.current_page), a.heap@[o.current_page].at == o.current_page, a.heap@[o.current_page].placed(), o.region(o.current_page)
{ reveal(mid); assert(o.in_service(o.current_page)); assert(o.arena(o.current_page)); assert(a.heap@[o.current_page].at == o.heap@[o.current_page].at); }
pub proof fn mid_end(o: &Allocator, a: &Allocator, fl: Seq<usize>, head: usize, c: int, n: int, q: usize, lim: int, w: int)
    requires mid(o, a, fl, head, c, n, q, lim, w)
    ensures !a.mem.live(0), *a == (Allocator { heap: a.heap, mem: a.mem, ..*o }), o.wf() ==> a.free_log@.len() <= 2097152 && a.free_log_pos < 2097152
{ reveal(mid); assert(fl.contains(fl[0])); }
pub proof fn same_but_log(o: &Allocator, a: &Allocator)
    requires o.ok(), *a == (Allocator { free_log: a.free_log, free_log_pos: a.free_log_pos, ..*o }), a.free_log@.len() <= 2097152, a.free_log_pos < 2097152
    ensures a.ok(), forall|x: usize| #[trigger] a.used(x) == o.used(x)
{
    assert forall|p: usize| #[trigger] a.arena(p) implies a.heap@.dom().contains(p) && a.heap@[p].at == p by { assert(o.arena(p)); };
    assert forall|p: usize| #[trigger] a.in_service(p) implies a.region(p) && !a.spare(p) by { assert(o.in_service(p)); };
    assert forall|p: usize| #[trigger] a.spare(p) implies a.region(p) by { assert(o.spare(p)); };
    assert forall|x: usize| #[trigger] a.used(x) == o.used(x) by {};
    assert forall|x: usize| #[trigger] a.mem.live(x) implies a.used(x) by { assert(o.used(x)); };
    assert forall|k: int| 0 <= k < a.fl@.len() implies a.used(#[trigger] a.fl@[k]) by { assert(o.used(o.fl@[k])); };
    assert forall|x: usize| #[trigger] a.mem.live(x) <==> a.used(x) && !a.fl@.contains(x) by { assert(o.mem.live(x) <==> o.used(x) && !o.fl@.contains(x)); };
}
pub proof fn small_pages(o: &Allocator)
    requires o.wf(), o.small()
    ensures o.pages@.len() <= 8191, o.used_in_current <= 4032
{}
pub open spec fn dead(h: Map<usize, Page>, p: usize) -> bool { forall|i: int| 0 <= i < 4032 ==> !#[trigger] h[p].marked(i) }
/// the page was at position k or later, with nothing marked in it
pub open spec fn gone(o: &Allocator, p: usize, k: int) -> bool { o.pages@.skip(k).contains(p) && dead(o.heap@, p) }
/// the state when the pages from position k on have been looked at
#[verifier::opaque]
pub open spec fn salv(o: &Allocator, a: &Allocator, k: int) -> bool {
    &&& a.wf()
    &&& *a == (Allocator { pages: a.pages, free_pages: a.free_pages, old_count: a.old_count, total_freed_pages: a.total_freed_pages, mem: a.mem, heap: a.heap, ..*o })
    &&& 0 <= k <= o.pages@.len() && k <= a.pages@.len() && forall|j: int| 0 <= j < k ==> #[trigger] a.pages@[j] == o.pages@[j]
    &&& forall|p: usize| #[trigger] a.pages@.contains(p) == (o.pages@.contains(p) && !gone(o, p, k))
    &&& forall|p: usize| #[trigger] a.spare(p) == (o.spare(p) || gone(o, p, k))
    &&& forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && !gone(o, pg(x), k))
    &&& forall|q: usize| #[trigger] a.heap@[q].mark_bits == o.heap@[q].mark_bits
    &&& forall|q: usize| !gone(o, q, k) ==> #[trigger] a.heap@[q].old_bits == o.heap@[q].old_bits
    &&& forall|x: usize| gone(o, pg(x), k) && is_cell(x) ==> !#[trigger] aged(a.heap@, x)
}
pub proof fn salv_start(o: &Allocator)
    requires o.wf()
    ensures salv(o, o, o.pages@.len() as int)
{ reveal(salv); assert forall|p: usize| !#[trigger] gone(o, p, o.pages@.len() as int) by {}; }
pub proof fn salv_use(o: &Allocator, a: &Allocator, k: int)
    requires o.wf(), salv(o, a, k), k > 0
    ensures k <= a.pages@.len(), a.pages@[k - 1] == o.pages@[k - 1], a.heap@.dom().contains(o.pages@[k - 1]), a.heap@[o.pages@[k - 1]].placed(), a.heap@[o.pages@[k - 1]].at == o.pages@[k - 1],
        a.heap@[o.pages@[k - 1]].mark_bits == o.heap@[o.pages@[k - 1]].mark_bits,
        forall|i: int| #[trigger] a.heap@[o.pages@[k - 1]].marked(i) == o.heap@[o.pages@[k - 1]].marked(i), dead(a.heap@, o.pages@[k - 1]) == dead(o.heap@, o.pages@[k - 1])
{ reveal(salv); serve(a, k - 1); let q = a.pages@[k - 1]; assert(a.heap@[q].mark_bits == o.heap@[q].mark_bits); assert forall|i: int| #[trigger] a.heap@[q].marked(i) == o.heap@[q].marked(i) by {}; if dead(a.heap@, q) { assert forall|i: int| 0 <= i < 4032 implies !#[trigger] o.heap@[q].marked(i) by { assert(!a.heap@[q].marked(i)); }; } }
pub proof fn skip_more(s: Seq<usize>, k: int)
    requires 0 < k <= s.len(), s.no_duplicates()
    ensures forall|q: usize| #[trigger] s.skip(k - 1).contains(q) == (s.skip(k).contains(q) || q == s[k - 1]), !s.skip(k).contains(s[k - 1])
{
    let t = s.skip(k - 1); let u = s.skip(k);
    assert(t[0] == s[k - 1]);
    assert forall|q: usize| #[trigger] s.skip(k - 1).contains(q) == (s.skip(k).contains(q) || q == s[k - 1]) by {
        if t.contains(q) { let j = choose|j: int| 0 <= j < t.len() && t[j] == q; if j > 0 { assert(u[j - 1] == q); } }
        if u.contains(q) { let j = choose|j: int| 0 <= j < u.len() && u[j] == q; assert(t[j + 1] == q); }
    };
    if u.contains(s[k - 1]) { let j = choose|j: int| 0 <= j < u.len() && u[j] == s[k - 1]; assert(s[k + j] == s[k - 1]); }
}
pub proof fn salv_keep(o: &Allocator, a: &Allocator, k: int)
    requires o.wf(), salv(o, a, k), k > 0, !dead(o.heap@, o.pages@[k - 1])
    ensures salv(o, a, k - 1)
{
    reveal(salv); skip_more(o.pages@, k);
    assert forall|p: usize| #[trigger] gone(o, p, k - 1) == gone(o, p, k) by {};
}
pub proof fn salv_step(o: &Allocator, a: &Allocator, b: &Allocator, k: int)
    requires o.wf(), salv(o, a, k), k > 0, dead(o.heap@, o.pages@[k - 1]),
        *b == (Allocator { pages: b.pages, free_pages: b.free_pages, old_count: b.old_count, total_freed_pages: b.total_freed_pages, mem: b.mem, heap: b.heap, ..*a }),
        b.pages@ == a.pages@.remove(k - 1), b.free_pages@ == a.free_pages@.push(a.pages@[k - 1]),
        ({ let q = a.pages@[k - 1];
            &&& b.heap@ == a.heap@.insert(q, b.heap@[q]) && b.heap@[q].at == a.heap@[q].at && b.heap@[q].mark_bits == a.heap@[q].mark_bits
            &&& forall|i: int| 0 <= i < 4032 ==> !#[trigger] b.heap@[q].aged(i)
            &&& forall|x: usize| #[trigger] b.mem.live(x) == (a.mem.live(x) && !(is_cell(x) && pg(x) == q)) })
    ensures salv(o, b, k - 1)
{
    reveal(salv); skip_more(o.pages@, k);
    let q = a.pages@[k - 1];
    assert(a.pages@.contains(q)); assert(o.pages@[k - 1] == q); assert(o.pages@.contains(q));
    serve(a, k - 1);
    assert forall|p: usize| #[trigger] gone(o, p, k - 1) == (gone(o, p, k) || p == q) by { assert(o.pages@.skip(k - 1).contains(p) == (o.pages@.skip(k).contains(p) || p == o.pages@[k - 1])); };
    assert forall|p: usize| #[trigger] b.pages@.contains(p) == (a.pages@.contains(p) && p != q) by {
        if b.pages@.contains(p) { let j = choose|j: int| 0 <= j < b.pages@.len() && b.pages@[j] == p; assert(a.pages@[if j < k - 1 { j } else { j + 1 }] == p); }
        if a.pages@.contains(p) && p != q { let j = choose|j: int| 0 <= j < a.pages@.len() && a.pages@[j] == p; assert(j != k - 1); assert(b.pages@[if j < k - 1 { j } else { j - 1 }] == p); }
    };
    assert forall|p: usize| #[trigger] b.spare(p) == (a.spare(p) || p == q) by {
        assert(b.free_pages@.last() == q);
        if a.spare(p) { let j = choose|j: int| 0 <= j < a.free_pages@.len() && a.free_pages@[j] == p; assert(b.free_pages@[j] == p); }
    };
    assert(a.in_service(q)); assert(!a.spare(q));
    assert forall|x: usize| #[trigger] b.mem.live(x) == (o.mem.live(x) && !gone(o, pg(x), k - 1)) by { if o.mem.live(x) { assert(o.used(x)); } assert(gone(o, pg(x), k - 1) == (gone(o, pg(x), k) || pg(x) == q)); assert(a.mem.live(x) == (o.mem.live(x) && !gone(o, pg(x), k))); };
    assert forall|p: usize| #[trigger] b.heap@[p].mark_bits == o.heap@[p].mark_bits by { assert(a.heap@[p].mark_bits == o.heap@[p].mark_bits); };
    assert forall|p: usize| !gone(o, p, k - 1) implies #[trigger] b.heap@[p].old_bits == o.heap@[p].old_bits by { assert(a.heap@[p].old_bits == o.heap@[p].old_bits); };
    assert forall|x: usize| gone(o, pg(x), k - 1) && is_cell(x) implies !#[trigger] aged(b.heap@, x) by { cell_split(x); if pg(x) == q { assert(!b.heap@[q].aged(ix(x))); } else { assert(!aged(a.heap@, x)); } };
    // b.wf()
    assert(b.heap@.dom() =~= a.heap@.dom());
    assert forall|p: usize| #[trigger] b.arena(p) implies b.heap@.dom().contains(p) && b.heap@[p].at == p by { assert(a.arena(p)); };
    assert forall|p: usize| #[trigger] b.in_service(p) implies b.region(p) && !b.spare(p) by { assert(b.pages@.contains(p) == (a.pages@.contains(p) && p != q)); assert(a.in_service(p)); assert(b.spare(p) == (a.spare(p) || p == q)); };
    assert forall|p: usize| #[trigger] b.spare(p) implies b.region(p) by { assert(b.spare(p) == (a.spare(p) || p == q)); if a.spare(p) { assert(a.region(p)); } };
    assert(b.pages@.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < b.pages@.len() && 0 <= j < b.pages@.len() && i != j implies b.pages@[i] != b.pages@[j] by { let i1 = if i < k - 1 { i } else { i + 1 }; let j1 = if j < k - 1 { j } else { j + 1 }; assert(a.pages@[i1] != a.pages@[j1]); }; };
    assert(b.free_pages@.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < b.free_pages@.len() && 0 <= j < b.free_pages@.len() && i != j implies b.free_pages@[i] != b.free_pages@[j] by { if i < a.free_pages@.len() { assert(a.free_pages@.contains(a.free_pages@[i])); } if j < a.free_pages@.len() { assert(a.free_pages@.contains(a.free_pages@[j])); } }; };
    assert(b.pages@.contains(b.current_page) == (a.pages@.contains(b.current_page) && b.current_page != q));
    assert forall|x: usize| #[trigger] b.mem.live(x) implies b.used(x) by { assert(a.mem.live(x)); assert(a.used(x)); assert(b.pages@.contains(pg(x)) == (a.pages@.contains(pg(x)) && pg(x) != q)); };
    assert forall|j: int| 0 <= j < k - 1 implies #[trigger] b.pages@[j] == o.pages@[j] by { assert(a.pages@[j] == o.pages@[j]); };
    assert forall|p: usize| #[trigger] b.pages@.contains(p) == (o.pages@.contains(p) && !gone(o, p, k - 1)) by { assert(b.pages@.contains(p) == (a.pages@.contains(p) && p != q)); assert(a.pages@.contains(p) == (o.pages@.contains(p) && !gone(o, p, k))); assert(gone(o, p, k - 1) == (gone(o, p, k) || p == q)); };
    assert forall|p: usize| #[trigger] b.spare(p) == (o.spare(p) || gone(o, p, k - 1)) by { assert(b.spare(p) == (a.spare(p) || p == q)); assert(a.spare(p) == (o.spare(p) || gone(o, p, k))); assert(gone(o, p, k - 1) == (gone(o, p, k) || p == q)); };
}
pub proof fn salv_end(o: &Allocator, a: &Allocator)
    requires o.wf(), o.marks_live(), salv(o, a, 0)
    ensures a.wf(), a.marks_live(),
        *a == (Allocator { pages: a.pages, free_pages: a.free_pages, old_count: a.old_count, total_freed_pages: a.total_freed_pages, mem: a.mem, heap: a.heap, ..*o }),
        forall|p: usize| #[trigger] a.pages@.contains(p) == (o.pages@.contains(p) && !dead(o.heap@, p)),
        forall|p: usize| #[trigger] a.spare(p) == (o.spare(p) || (o.pages@.contains(p) && dead(o.heap@, p))),
        forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && a.used(x)),
        forall|x: usize| is_cell(x) ==> #[trigger] marked(a.heap@, x) == marked(o.heap@, x),
        forall|x: usize| o.used(x) ==> #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) && a.used(x))
{
    reveal(salv);
    assert(o.pages@.skip(0) =~= o.pages@);
    assert forall|x: usize| #[trigger] a.mem.live(x) == (o.mem.live(x) && a.used(x)) by { if o.mem.live(x) { assert(o.used(x)); assert(a.pages@.contains(pg(x)) == (o.pages@.contains(pg(x)) && !gone(o, pg(x), 0))); } };
    assert forall|x: usize| is_cell(x) implies #[trigger] marked(a.heap@, x) == marked(o.heap@, x) by { assert(a.heap@[pg(x)].mark_bits == o.heap@[pg(x)].mark_bits); };
    assert forall|x: usize| o.used(x) implies #[trigger] aged(a.heap@, x) == (aged(o.heap@, x) && a.used(x)) by {
        assert(a.pages@.contains(pg(x)) == (o.pages@.contains(pg(x)) && !gone(o, pg(x), 0)));
        if gone(o, pg(x), 0) { } else { assert(a.heap@[pg(x)].old_bits == o.heap@[pg(x)].old_bits); }
    };
    assert forall|x: usize| a.used(x) && #[trigger] marked(a.heap@, x) implies a.mem.live(x) by {
        assert(a.pages@.contains(pg(x)) == (o.pages@.contains(pg(x)) && !gone(o, pg(x), 0)));
        assert(o.used(x)); assert(marked(o.heap@, x)); assert(o.mem.live(x));
    };
}
@end
