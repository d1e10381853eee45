@include hb_raw.vspec
@file hashbrown/src/raw/mod.rs
@verbatim
// ---- what is left behind when a callback panics -----------------------------------------------------
/// an element's destructor, handed down as a pointer
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DropFn<T> { x: core::marker::PhantomData<T> }
impl<T> DropFn<T> {
    /// once per element whose bucket has been emptied
    #[verifier::external_body]
    pub fn call(&self, t: &RawTableInner<T>, i: usize, c: Ghost<Seq<Tag>>, gone: Ghost<Set<int>>) requires i < t.n(), t.c()[i as int] == e_(), c@[i as int] == d_(), !gone@.contains(i as int) { unimplemented!() }
}
/// emptying a bucket that was not yet filed again
pub proof fn strong_empty<T>(c: Seq<Tag>, d: Seq<Tag>, n: int, els: Seq<(u64, T)>, x: int)
    requires ctl(c, n), ctl(d, n), n > 1, strong(c, n, els), 0 <= x < n, c[x] == d_(), d[x] == e_(), d.len() == c.len(), forall|k: int| #![trigger d[k]] 0 <= k < n && k != x ==> d[k] == c[k], forall|j: int| 0 <= j < c.len() && full(c[j]) ==> full(#[trigger] d[j])
    ensures strong(d, n, els)
{
    assert forall|y: int| 0 <= y < n && full(#[trigger] d[y]) implies d[y] == tagof(els[y].0) && filed(d, n, els[y].0 as int, y) by {
        assert(c[y] == d[y]);
        assert(filed(c, n, els[y].0 as int, y));
        filed_mono(c, d, n, els[y].0 as int, y);
    };
}
@end
@fn rehash_in_place id=rehash_in_place_guard closure=1 foriter
@ctx impl RawTableInner
@head fn rescue<T>(self_: &mut RawTableInner<T>, drop: Option<DropFn<T>>, size_of: usize, o: Ghost<Multiset<(u64, T)>>)
@spec
    requires rescuable(*old(self_), o@)
    ensures final(self_).wf(), final(self_).bucket_mask == old(self_).bucket_mask, final(self_).content() == bag(old(self_).c(), old(self_).n(), old(self_).els@, 0)
@sub 0 .. self_ . buckets ( ) ==> Steps::new(0, self_.buckets(), 1)
@sub * self_ . ctrl ( i ) ==> self_.peek(i)
@sub if let Some ( drop ) = drop ==> if let Some(drop) = &drop
@sub drop ( self_ . bucket_ptr ( i , size_of ) ) ==> { drop.call(&*self_, i, Ghost(c0), Ghost(gone)); proof { gone = gone.insert(i as int); } }
@enter
    let ghost c0 = self_.c();
    let ghost n = self_.n();
    let ghost els = self_.els@;
    let ghost mut gone: Set<int> = Set::empty();
    proof { count_bounds(c0, n); }
@loop 1
    invariant_except_break self_.shape(), n == self_.n(), n > 1, strong(self_.c(), n, els), self_.els@ == els, *self_ == (RawTableInner { mem: self_.mem, items: self_.items, ..*old(self_) }), self_.items == count(self_.c(), n, 3), self_.items <= cap_of(n), bag(self_.c(), n, els, 0) == bag(c0, n, els, 0), _it1.by == 1, _it1.end == n, _it1.at <= n,
        forall|j: int| 0 <= j < n ==> #[trigger] self_.c()[j] == if j < _it1.at && c0[j] == d_() { e_() } else { c0[j] },
        forall|j: int| #[trigger] gone.contains(j) ==> 0 <= j < _it1.at, drop is Some ==> forall|j: int| 0 <= j < _it1.at && #[trigger] c0[j] == d_() ==> gone.contains(j)
    ensures self_.shape(), n == self_.n(), n > 1, strong(self_.c(), n, els), self_.els@ == els, *self_ == (RawTableInner { mem: self_.mem, items: self_.items, ..*old(self_) }), self_.items == count(self_.c(), n, 3), self_.items <= cap_of(n), bag(self_.c(), n, els, 0) == bag(c0, n, els, 0), forall|j: int| 0 <= j < n ==> #[trigger] self_.c()[j] != d_(), drop is Some ==> forall|j: int| 0 <= j < n && #[trigger] c0[j] == d_() ==> gone.contains(j)
    decreases n - _it1.at
@loopenter 1
    let ghost c = self_.c();
@after self_ . set_ctrl ( i , Tag :: EMPTY )
    proof {
        strong_empty(c, self_.c(), n, els, i as int);
        counts_upd(c, self_.c(), n, i as int);
        count_nonneg(self_.c(), n, 3);
        bag_same(c, self_.c(), n, els, els, 0, 0);
    }
@after self_ . growth_left = bucket_mask_to_capacity
    proof {
        strong_chains(self_.c(), n, els);
        count_bounds(self_.c(), n);
        count_zero(self_.c(), n, 1);
    }
@impl impl < T , E , G , R > Drop for RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn drop id=RawTable::drop
    requires old(self).wf()
@sub self . table . drop_inner_table :: < T > ==> self.table.drop_inner_table
@endimpl
@verbatim
impl RawIter {
    /// iterating by a borrowed iterator
    #[verifier::external_body]
    pub fn snapshot(&self) -> (r: RawIter) ensures r == *self { unimplemented!() }
}
@end
@impl impl < T > RawIter < T > => impl RawIter
@fn drop_elements id=RawIter::drop_elements foriter
    requires old(self).ok(t.n()), old(self).iter.c() == t.c(), t.shape()
@sub ( & mut self ) ==> <T>(&mut self, t: &RawTableInner<T>)
@sub T :: NEEDS_DROP ==> needs_drop::<T>()
@sub item in self ==> item in self.snapshot()
@sub item . drop ( ) ==> drop_el(t, item.index, Ghost(gone))
@enter
    let ghost mut gone: Set<int> = Set::empty();
    let ghost n = t.n();
    let ghost c = t.c();
    let ghost from = self.iter.lo@;
@loop 1
    invariant_except_break _it1.ok(n), _it1.iter.c() == c, n == t.n(), c == t.c(), from <= _it1.iter.lo@, forall|i: int| #[trigger] gone.contains(i) <==> from <= i < _it1.iter.lo@ && full(c[i])
    ensures forall|i: int| #[trigger] gone.contains(i) <==> from <= i < n && full(c[i])
    decreases n - _it1.iter.lo@
@after drop_el ( t
    ; proof { gone = gone.insert(item.index as int); }
@loopexit 1
    // what had not been handed out was dropped, once each
    proof { assert(forall|i: int| #[trigger] gone.contains(i) <==> from <= i < n && full(c[i])); }
@endimpl
@item struct RawIntoIter
@sub iter : RawIter < T > ==> iter: RawIter, src: RawTableInner<T>
@sub allocation : Option < ( NonNull < u8 > , Layout ) > ==> allocation: Option<(usize, usize)>
@sub marker : PhantomData < T > ==> marker: core::marker::PhantomData<T>
@pre
#[verifier::reject_recursive_types(T)]
@item struct RawDrain
@sub iter : RawIter < T > ==> iter: RawIter
@sub table : RawTableInner , ==> table: RawTableInner<T>,
@sub orig_table : NonNull < RawTableInner > ==> orig_table: &'a mut RawTableInner<T>
@sub marker : PhantomData < & 'a RawTable < T , E , G , R >> ==> marker: core::marker::PhantomData<(T, E, G, R)>
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@verbatim
/// an iterator that takes the elements of t out, up to it.lo so far
pub open spec fn emptying<T>(it: RawIter, t: RawTableInner<T>) -> bool { t.shape() && t.els@.len() == t.n() && it.ok(t.n()) && it.iter.c() == t.c() }
pub open spec fn past<T>(it: RawIter, t: RawTableInner<T>) -> Multiset<(u64, T)> { bag(t.c(), it.iter.lo@, t.els@, 0) }
impl<T> RawTableInner<T> {
    /// an element moved out of its bucket
    #[verifier::external_body]
    pub fn out_el(&self, i: usize, lo: Ghost<int>) -> (r: T) requires i < self.n(), self.els@.len() == self.n(), full(self.c()[i as int]), lo@ <= i ensures r == self.els@[i as int].1 { unimplemented!() }
}
#[verifier::external_body]
pub fn dealloc(ptr: usize, layout: usize) { }
#[verifier::external_body]
pub fn raw_copy<T>(to: &mut RawTableInner<T>, from: &RawTableInner<T>) ensures *final(to) == *from { unimplemented!() }
pub proof fn handing<T>(t: RawTableInner<T>, lo: int)
    requires t.shape(), t.els@.len() == t.n(), 0 <= lo <= t.n()
    ensures forall|j: int| lo <= j <= t.n() && #[trigger] gap(t.c(), lo, j) ==> bag(t.c(), lo, t.els@, 0) == bag(t.c(), j, t.els@, 0),
        forall|j: int| 0 <= j < t.n() && full(#[trigger] t.c()[j]) ==> steps(bag(t.c(), j, t.els@, 0), bag(t.c(), j + 1, t.els@, 0), t.content(), t.els@[j])
{
    let c = t.c();
    let els = t.els@;
    let n = t.n();
    assert forall|j: int| lo <= j <= n && #[trigger] gap(c, lo, j) implies bag(c, lo, els, 0) == bag(c, j, els, 0) by { count_gap(c, els, lo, j); };
    assert forall|j: int| 0 <= j < n && full(#[trigger] c[j]) implies steps(bag(c, j, els, 0), bag(c, j + 1, els, 0), t.content(), els[j]) by { bag_within(c, j + 1, n, els); bag_has(c, n, els, 0, j); };
}
pub proof fn handed<T>(t: RawTableInner<T>, a: RawIter, b: RawIter, j: int, x: T)
    requires emptying(a, t), emptying(b, t), a.iter.lo@ <= j < t.n(), gap(t.c(), a.iter.lo@, j), full(t.c()[j]), b.iter.lo@ == j + 1, x == t.els@[j].1
    ensures exists|e: (u64, T)| #[trigger] steps(past(a, t), past(b, t), t.content(), e) && e.1 == x
{
    handing(t, a.iter.lo@);
    assert(steps(past(a, t), past(b, t), t.content(), t.els@[j]));
}
@end
@impl impl < T > Iterator for RawIntoIter < T > => impl<T> RawIntoIter<T>
@fn next id=RawIntoIter::next
    requires emptying(old(self).iter, old(self).src)
    ensures emptying(final(self).iter, final(self).src), final(self).src == old(self).src, match r {
        Some(x) => exists|e: (u64, T)| #[trigger] steps(past(old(self).iter, old(self).src), past(final(self).iter, old(self).src), old(self).src.content(), e) && e.1 == x,
        None => past(old(self).iter, old(self).src) == old(self).src.content() }
@sub self . iter . next ( ) ? . read ( ) ==> { let b_ = match self.iter.next() { Some(b) => b, None => return None }; let x_ = self.src.out_el(b_.index, Ghost(lo)); proof { handed(self.src, old(self).iter, self.iter, b_.index as int, x_); } x_ }
@enter
    let ghost lo = self.iter.iter.lo@;
    proof { assert(self.iter.ok(self.src.n())); handing(self.src, lo); }
@fn size_hint id=RawIntoIter::size_hint
    requires emptying(self.iter, self.src)
    ensures r.0 == self.iter.iter.rest(self.src.n()), r.1 == Some(r.0)
@endimpl
@impl impl < T > Drop for RawIntoIter < T > => impl<T> RawIntoIter<T>
@fn drop id=RawIntoIter::drop
    requires emptying(old(self).iter, old(self).src)
@sub self . iter . drop_elements ( ) ==> self.iter.drop_elements(&self.src)
@sub alloc :: alloc :: dealloc ( ptr . as_ptr ( ) , layout ) ==> dealloc(ptr, layout)
@endimpl
@impl impl < T , E , G , R > Iterator for RawDrain < '_ , T , E , G , R > => impl<T, E, G, R> RawDrain<'_, T, E, G, R>
@fn next id=RawDrain::next
    requires emptying(old(self).iter, old(self).table)
    ensures emptying(final(self).iter, final(self).table), final(self).table == old(self).table, final(self).orig_table == old(self).orig_table, match r {
        Some(x) => exists|e: (u64, T)| #[trigger] steps(past(old(self).iter, old(self).table), past(final(self).iter, old(self).table), old(self).table.content(), e) && e.1 == x,
        None => past(old(self).iter, old(self).table) == old(self).table.content() }
@sub let item = self . iter . next ( ) ? ; ==> let item = match self.iter.next() { Some(b) => b, None => return None };
@sub Some ( item . read ( ) ) ==> let x_ = self.table.out_el(item.index, Ghost(lo)); proof { handed(self.table, old(self).iter, self.iter, item.index as int, x_); } Some(x_)
@enter
    let ghost lo = self.iter.iter.lo@;
    proof { assert(self.iter.ok(self.table.n())); handing(self.table, lo); }
@fn size_hint id=RawDrain::size_hint
    requires emptying(self.iter, self.table)
    ensures r.0 == self.iter.iter.rest(self.table.n()), r.1 == Some(r.0)
@endimpl
@impl impl < T , E , G , R > Drop for RawDrain < '_ , T , E , G , R > => impl<T, E, G, R> RawDrain<'_, T, E, G, R>
@fn drop id=RawDrain::drop
    requires emptying(old(self).iter, old(self).table), old(self).orig_table.wf(), old(self).orig_table.items == 0
    ensures final(self).orig_table.wf(), final(self).orig_table.content() == Multiset::<(u64, T)>::empty(), final(self).orig_table.bucket_mask == old(self).table.bucket_mask
@sub self . iter . drop_elements ( ) ==> self.iter.drop_elements(&self.table)
@sub self . orig_table . as_ptr ( ) . copy_from_nonoverlapping ( & self . table , 1 ) ==> raw_copy(&mut *self.orig_table, &self.table)
@endimpl
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn drain id=RawTable::drain
    requires old(self).wf()
    ensures emptying(r.iter, r.table), r.iter.iter.lo@ == 0, r.table == old(self).table, (*r.orig_table).wf(), (*r.orig_table).items == 0, final(self).table == *final(r.orig_table)
@fn drain_iter_from
    requires old(self).wf(), iter.ok(old(self).table.n()), iter.iter.c() == old(self).table.c(), iter.iter.lo@ == 0
    ensures emptying(r.iter, r.table), r.iter == iter, r.table == old(self).table, (*r.orig_table).wf(), (*r.orig_table).items == 0, final(self).table == *final(r.orig_table)
@sub iter : RawIter < T > ==> iter: RawIter
@sub debug_assert_eq ! ( iter . len ( ) , self . len ( ) ) ; ==> 
@sub mem :: replace ( & mut self . table , RawTableInner :: NEW ) ==> vreplace(&mut self.table, RawTableInner::new())
@sub NonNull :: from ( & mut self . table ) ==> &mut self.table
@sub marker : PhantomData ==> marker: core::marker::PhantomData
@fn into_iter_from
    requires self.wf(), iter.ok(self.table.n()), iter.iter.c() == self.table.c(), iter.iter.lo@ == 0
    ensures emptying(r.iter, r.src), r.iter == iter, r.src == self.table
@sub iter : RawIter < T > ==> iter: RawIter
@sub debug_assert_eq ! ( iter . len ( ) , self . len ( ) ) ; ==> 
@sub let allocation = self . into_allocation ( ) ; ==> let allocation = some_alloc();
@sub RawIntoIter { iter , ==> RawIntoIter { iter, src: self.table,
@sub marker : PhantomData ==> marker: core::marker::PhantomData
@endimpl
@impl impl < T , E , G , R > IntoIterator for RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn into_iter id=RawTable::into_iter
    requires self.wf()
    ensures emptying(r.iter, r.src), r.iter.iter.lo@ == 0, r.src == self.table
@endimpl
@verbatim
#[verifier::external_body]
pub fn some_alloc() -> Option<(usize, usize)> { unimplemented!() }
@end
@item struct RawExtractIf
@sub iter : RawIter < T > ==> iter: RawIter
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@verbatim
/// bucket i after the filter was asked whether to take its element and declined
pub open spec fn declined<T>(o: RawTableInner<T>, t: RawTableInner<T>, f: spec_fn(T, T, bool) -> bool, i: int) -> bool {
    t.c()[i] == o.c()[i] && (full(o.c()[i]) ==> t.els@[i].0 == o.els@[i].0 && f(o.els@[i].1, t.els@[i].1, false))
}
/// the buckets below a and from b on as they were
pub open spec fn outside<T>(o: RawTableInner<T>, t: RawTableInner<T>, a: int, b: int) -> bool { forall|i: int| 0 <= i < a || b <= i < o.n() ==> #[trigger] t.c()[i] == o.c()[i] && t.els@[i] == o.els@[i] }
/// the buckets from a on as they were
pub open spec fn ahead<T>(c: Seq<Tag>, t: RawTableInner<T>, a: int) -> bool { forall|i: int| a <= i < t.n() ==> #[trigger] t.c()[i] == c[i] }
pub proof fn taken<T>(o: RawTableInner<T>, b0: RawTableInner<T>, b1: RawTableInner<T>, t: RawTableInner<T>, f: spec_fn(T, T, bool) -> bool, a: int, lo: int, ix: int, c: Seq<Tag>)
    requires 0 <= a <= lo <= ix < o.n(), b0.n() == o.n(), b1.n() == o.n(), t.n() == o.n(), b1.c() == b0.c(), gap(c, lo, ix), ahead(c, o, a), b1.els@ == b0.els@.update(ix, b1.els@[ix]), b0.els@.len() == o.n(), t.els == b1.els,
        forall|i: int| 0 <= i < o.n() && i != ix ==> #[trigger] t.c()[i] == b1.c()[i],
        outside(o, b0, a, lo),
        forall|i: int| a <= i < lo ==> #[trigger] declined(o, b0, f, i)
    ensures outside(o, t, a, ix + 1), forall|i: int| a <= i < ix ==> #[trigger] declined(o, t, f, i)
{
    assert forall|i: int| 0 <= i < a || ix < i < o.n() implies #[trigger] t.c()[i] == o.c()[i] && t.els@[i] == o.els@[i] by { assert(b0.c()[i] == o.c()[i]); };
    assert forall|i: int| a <= i < ix implies #[trigger] declined(o, t, f, i) by {
        assert(t.c()[i] == b1.c()[i]);
        if i < lo { assert(declined(o, b0, f, i)); } else { assert(b0.c()[i] == o.c()[i]); assert(!full(c[i])); assert(o.c()[i] == c[i]); }
    };
}
@end
@impl impl < T , E , G , R > RawExtractIf < '_ , T , E , G , R > => impl<T, E, G, R> RawExtractIf<'_, T, E, G, R>
@fn next id=RawExtractIf::next
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@spec
    requires old(self).table.wf(), old(self).iter.ok(old(self).table.table.n()), ahead(old(self).iter.iter.c(), old(self).table.table, old(self).iter.iter.lo@)
    ensures final(self).table.wf(), final(self).table.table.bucket_mask == old(self).table.table.bucket_mask, final(self).iter.ok(final(self).table.table.n()), final(self).iter.iter.c() == old(self).iter.iter.c(), ahead(final(self).iter.iter.c(), final(self).table.table, final(self).iter.iter.lo@),
        ({ let o = old(self).table.table; let t = final(self).table.table; let a = old(self).iter.iter.lo@; let b = final(self).iter.iter.lo@;
            &&& a <= b <= t.n()
            &&& outside(o, t, a, b)
            &&& match r {
                Some(x) => a < b && full(o.c()[b - 1]) && !full(t.c()[b - 1]) && (f.can())(o.els@[b - 1].1, x, true) && forall|i: int| a <= i < b - 1 ==> #[trigger] declined(o, t, f.can(), i),
                None => forall|i: int| a <= i < t.n() ==> #[trigger] declined(o, t, f.can(), i) } })
@sub < F > ( ==> (
@sub mut f : F ==> mut f: Filter<T>
@sub where F : FnMut ( & mut T ) -> bool , ==> 
@sub f ( item . as_mut ( ) ) ==> f.ask(self.table.table.mut_el(item.index))
@sub for item in & mut self . iter { ==> loop { let item = match self.iter.next() { Some(x) => x, None => break }; let ghost ix = item.index as int; let ghost bk = item; let ghost b0 = *self.table; proof { assert(self.table.table.c()[ix] == o.c()[ix]); assert(o.c()[ix] == old(self).iter.iter.c()[ix]); }
@enter
    let ghost o = self.table.table;
    let ghost n = o.n();
    let ghost a = self.iter.iter.lo@;
    let ghost can = f.can();
    let ghost mut lo_: int = self.iter.iter.lo@;
@loop 1
    invariant_except_break self.iter.ok(n), lo_ == self.iter.iter.lo@, 0 <= a <= lo_, n == o.n(), o == old(self).table.table, a == old(self).iter.iter.lo@, self.iter.iter.c() == old(self).iter.iter.c(), self.table.wf(), f.can() == can, self.table.table.bucket_mask == o.bucket_mask,
        outside(o, self.table.table, a, lo_), ahead(old(self).iter.iter.c(), o, a),
        forall|i: int| a <= i < lo_ ==> #[trigger] declined(o, self.table.table, can, i)
    ensures self.iter.ok(n), 0 <= a <= lo_ <= self.iter.iter.lo@, o == old(self).table.table, a == old(self).iter.iter.lo@, self.iter.iter.c() == old(self).iter.iter.c(), self.table.wf(), f.can() == can, self.table.table.bucket_mask == o.bucket_mask, gap(self.iter.iter.c(), lo_, n), ahead(old(self).iter.iter.c(), o, a),
        outside(o, self.table.table, a, lo_),
        forall|i: int| a <= i < lo_ ==> #[trigger] declined(o, self.table.table, can, i)
    decreases n - self.iter.iter.lo@
@sub return Some ( self . table . remove ( item ) . 0 ) ==> proof { swapped_wf(*self.table, b0, bk, self.table.at(bk).1); } let ghost b1 = *self.table; let x_ = self.table.remove(item); proof { taken(o, b0.table, b1.table, self.table.table, can, a, lo_, ix, self.iter.iter.c()); } return Some(x_.0)
@loopend 1
    proof {
        let t = self.table.table;
        assert(t.bucket_mask == b0.table.bucket_mask);
        assert(t.c() == b0.table.c());
        assert(t.els@ == b0.table.els@.update(ix, t.els@[ix]));
        swapped_wf(*self.table, b0, bk, self.table.at(bk).1);
        assert forall|i: int| a <= i < self.iter.iter.lo@ implies #[trigger] declined(o, t, can, i) by {
            if i < lo_ { assert(declined(o, b0.table, can, i)); assert(b0.table.els@[i] == t.els@[i]); }
            else if i < ix { assert(b0.table.c()[i] == o.c()[i]); assert(!full(old(self).iter.iter.c()[i])); assert(o.c()[i] == old(self).iter.iter.c()[i]); }
        };
        assert forall|i: int| 0 <= i < a || self.iter.iter.lo@ <= i < n implies #[trigger] t.c()[i] == o.c()[i] && t.els@[i] == o.els@[i] by { assert(b0.table.c()[i] == o.c()[i]); };
        lo_ = self.iter.iter.lo@;
    }
@loopexit 1
    proof {
        let t = self.table.table;
        assert forall|i: int| a <= i < n implies #[trigger] declined(o, t, can, i) by { if i >= lo_ { assert(t.c()[i] == o.c()[i]); assert(!full(self.iter.iter.c()[i])); assert(o.c()[i] == self.iter.iter.c()[i]); } };
    }
@endimpl
@verbatim
/// y is what cloning x may give
pub uninterp spec fn cloned_el<T>(x: T, y: T) -> bool;
/// the copies made so far, in the buckets below up: what the clean-up drops
pub open spec fn copies<T>(t: RawTableInner<T>, up: int, made: Set<int>) -> bool { t.shape() && t.n() > 1 && t.els@.len() == t.n() && 0 <= up <= t.n() && forall|i: int| #[trigger] made.contains(i) <==> 0 <= i < up && full(t.c()[i]) }
/// an element cloned; it may panic, and t with its copies is then left to the clean-ups
#[verifier::external_body]
pub fn clone_el<T>(x: &T, t: &RawTableInner<T>, up: usize, made: Ghost<Set<int>>) -> (r: T) requires copies(*t, up as int, made@) ensures cloned_el(*x, r) { unimplemented!() }
impl<T> RawTableInner<T> {
    #[verifier::external_body]
    pub fn copy_all_ctrl(&mut self, from: &RawTableInner<T>, k: usize) requires k <= from.mem@.len(), k <= old(self).mem@.len(), old(self).n() > 1
        ensures *final(self) == (RawTableInner { mem: final(self).mem, ..*old(self) }), final(self).mem@ == from.mem@.subrange(0, k as int) + old(self).mem@.subrange(k as int, old(self).mem@.len() as int) { unimplemented!() }
    /// t is a copy of self, bucket by bucket
    pub open spec fn copied(&self, t: RawTableInner<T>) -> bool {
        &&& t.bucket_mask == self.bucket_mask && t.items == self.items && t.growth_left == self.growth_left && t.c() == self.c()
        &&& forall|i: int| 0 <= i < self.n() && full(#[trigger] self.c()[i]) ==> t.els@[i].0 == self.els@[i].0 && cloned_el(self.els@[i].1, t.els@[i].1)
    }
}
pub proof fn singles<T>(a: RawTableInner<T>)
    requires a.wf(), a.n() == 1
    ensures forall|t: RawTableInner<T>| #[trigger] t.wf() && t.n() == 1 ==> a.copied(t)
{
    assert forall|t: RawTableInner<T>| #[trigger] t.wf() && t.n() == 1 implies a.copied(t) by {
        assert(t.c() =~= a.c());
        count_zero(a.c(), 1, 0);
        count_zero(a.c(), 1, 1);
        assert(cap_of(1) == 0);
    };
}
@end
@fn clone_from_impl id=clone_from_impl_guard closure=1 foriter
@ctx impl < T : Clone , E , G , R > RawTable < T , E , G , R >
@head fn undo<T, E, G, R>(p_: (usize, &mut RawTable<T, E, G, R>), made: Ghost<Set<int>>)
@spec
    requires copies(old(p_.1).table, p_.0 as int, made@)
    ensures *final(p_.1) == *old(p_.1)
@sub T :: NEEDS_DROP ==> needs_drop::<T>()
@sub 0 .. * index ==> Steps::new(0, index, 1)
@sub self_ . bucket ( i ) . drop ( ) ==> { drop_el(&self_.table, i, Ghost(gone)); proof { gone = gone.insert(i as int); } }
@enter
    let ghost t0 = *p_.1;
    let ghost mut gone: Set<int> = Set::empty();
@loop 1
    invariant_except_break *self_ == t0, copies(t0.table, index as int, made@), _it1.by == 1, _it1.end == index, _it1.at <= index, forall|i: int| #[trigger] gone.contains(i) <==> 0 <= i < _it1.at && full(t0.table.c()[i])
    ensures *self_ == t0, forall|i: int| #[trigger] gone.contains(i) <==> made@.contains(i)
    decreases index - _it1.at
@loopexit 1
    // every copy was dropped, once each
    proof { assert(forall|i: int| #[trigger] gone.contains(i) <==> made@.contains(i)); }
@impl impl < T : Clone , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn clone_from_impl foriter
    requires source.wf(), old(self).table.bucket_mask == source.table.bucket_mask, source.table.n() > 1, old(self).table.els@.len() == source.table.n(), old(self).table.c().len() == source.table.c().len()
    ensures final(self).wf(), source.table.copied(final(self).table)
@sub source . table . ctrl ( 0 ) . copy_to_nonoverlapping ( self . table . ctrl ( 0 ) , self . table . num_ctrl_bytes ( ) ) ==> { let k_ = self.table.num_ctrl_bytes(); self.table.copy_all_ctrl(&source.table, k_) }
@sub let mut guard = guard ( ( 0 , & mut * self ) , $a ) ; ==> let mut upto: usize = 0;
@sub guard . 1 . bucket ( index ) ==> self.bucket(index)
@sub to . write ( from . as_ref ( ) . clone ( ) ) ==> let copy_ = clone_el(source.table.ref_el(from.index), &self.table, upto, Ghost(made)); let hash_ = source.table.hash_of(from.index); self.table.put_el(to.index, hash_, copy_); proof { made = made.insert(to.index as int); }
@sub guard . 0 = ==> upto =
@sub mem :: forget ( guard ) ; ==> 
@enter
    let ghost mut made: Set<int> = Set::empty();
    let ghost s = source.table;
    let ghost n = s.n();
    let ghost t0 = self.table;
@before let mut upto
    proof { assert(self.table.c() =~= s.c()); }
@loop 1
    invariant_except_break _it1.ok(n), _it1.iter.c() == s.c(), s == source.table, source.wf(), n == s.n(), n > 1, self.table == (RawTableInner { mem: self.table.mem, els: self.table.els, ..t0 }), t0.bucket_mask == s.bucket_mask, self.table.c() == s.c(), copies(self.table, upto as int, made), upto <= _it1.iter.lo@, gap(s.c(), upto as int, _it1.iter.lo@),
        forall|i: int| 0 <= i < upto && full(#[trigger] s.c()[i]) ==> self.table.els@[i].0 == s.els@[i].0 && cloned_el(s.els@[i].1, self.table.els@[i].1)
    ensures self.table == (RawTableInner { mem: self.table.mem, els: self.table.els, ..t0 }), self.table.c() == s.c(), self.table.els@.len() == n, forall|i: int| 0 <= i < n && full(#[trigger] s.c()[i]) ==> self.table.els@[i].0 == s.els@[i].0 && cloned_el(s.els@[i].1, self.table.els@[i].1)
    decreases n - _it1.iter.lo@
@after self . table . growth_left = source
    proof {
        let t = self.table;
        assert(chains(t.c(), n, t.els@)) by { assert forall|i: int| 0 <= i < n && full(#[trigger] t.c()[i]) implies t.c()[i] == tagof(t.els@[i].0) && placed(t.c(), n, t.els@[i].0 as int, i) by { assert(full(s.c()[i])); }; };
    }
@endimpl
@impl impl < T , E , G , R > RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn new_uninitialized id=RawTable::new_uninitialized
    requires p2(buckets as int), buckets > 1
    ensures r.table.n() == buckets, r.table.c().len() == buckets + 16, r.table.els@.len() == buckets, r.table.items == 0
@sub debug_assert ! ( buckets . is_power_of_two ( ) ) ; ==> 
@sub marker : PhantomData ==> marker: core::marker::PhantomData
@endimpl
@impl impl < T : Clone , E , G , R > Clone for RawTable < T , E , G , R > => impl<T, E, G, R> RawTable<T, E, G, R>
@fn clone id=RawTable::clone
    requires self.wf()
    ensures r.wf(), self.table.copied(r.table)
@sub new_table . clone_from_spec ( self ) ==> new_table.clone_from_impl(self)
@enter
    proof { if self.table.n() == 1 { singles(self.table); } }
@fn clone_from id=RawTable::clone_from
    requires old(self).wf(), source.wf()
    ensures final(self).wf(), source.table.copied(final(self).table)
@sub mem :: replace ( & mut self . table , RawTableInner :: NEW ) ==> vreplace(&mut self.table, RawTableInner::new())
@sub mem :: replace ( & mut self_ . table , new_inner ) ==> vreplace(&mut self.table, new_inner)
@sub old_inner . drop_inner_table :: < T > ==> old_inner.drop_inner_table
@sub let mut self_ = guard ( self , | self_ | { self_ . clear_no_drop ( ) ; } ) ; ==> 
@sub self_ . table . drop_elements :: < T > ( ) ==> self.table.drop_elements()
@sub self_ . clone_from_spec ( source ) ==> self.clone_from_impl(source)
@sub ScopeGuard :: into_inner ( self_ ) ; ==> 
@sub self_ . buckets ==> self.buckets
@enter
    proof { if source.table.n() == 1 { singles(source.table); } }
@endimpl
