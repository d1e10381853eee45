// Equality and hashing of containers: ruby_traits/src/lib.rs
@include base.inc
@verbatim
/// what a hasher has been fed
pub trait Hasher { spec fn st(&self) -> Seq<u64>; }
/// errors raised so far, in order, as the execution context sees them
pub uninterp spec fn raised<E, R>(e: E) -> Seq<R>;
/// an answer without an error raises nothing; an error returned is the one error raised, and the last thing done
pub open spec fn passes<E, R, T>(e0: E, e1: E, r: Result<T, R>) -> bool {
    match r { Ok(_) => raised::<E, R>(e1) == raised::<E, R>(e0), Err(x) => raised::<E, R>(e1) == raised::<E, R>(e0).push(x) }
}
pub trait RubyEql<E, G, R> {
    spec fn same(&self, other: &Self) -> bool;
    proof fn reflexive(&self) ensures self.same(self);
    proof fn symmetric(&self, other: &Self) requires self.same(other) ensures other.same(self);
    proof fn transitive(&self, b: &Self, c: &Self) requires self.same(b), b.same(c) ensures self.same(c);
    fn eql(&self, other: &Self, e: &mut E, g: &mut G) -> (r: Result<bool, R>)
        ensures r matches Ok(b) ==> b == self.same(other), passes(*old(e), *final(e), r);
}
pub trait RubyHash<E, G, R> {
    spec fn writes(&self) -> Seq<u64>;
    fn ruby_hash<H: Hasher>(&self, state: &mut H, e: &mut E, g: &mut G) -> (r: Result<(), R>)
        ensures r is Ok ==> final(state).st() == old(state).st() + self.writes(), passes(*old(e), *final(e), r);
}
/// eql keys feed the same input to a hasher
pub trait Key<E, G, R>: RubyEql<E, G, R> + RubyHash<E, G, R> {
    proof fn coherent(&self, other: &Self) requires self.same(other) ensures self.writes() == other.writes();
}
pub trait Borrow<Q: ?Sized> {
    spec fn lent(&self) -> &Q;
    fn borrow(&self) -> (r: &Q) ensures r == self.lent();
}
pub trait Equivalent<K: ?Sized, E, G, R> {
    spec fn eqv(&self, key: &K) -> bool;
    fn equivalent(&self, key: &K, e: &mut E, g: &mut G) -> (r: Result<bool, R>)
        ensures r matches Ok(b) ==> b == self.eqv(key), passes(*old(e), *final(e), r);
}
pub trait RubySymEql { spec fn ssame(&self, other: &Self) -> bool; fn eql(&self, other: &Self) -> (r: bool) ensures r == self.ssame(other); }
pub trait SymEquivalent<K: ?Sized> { spec fn seqv(&self, key: &K) -> bool; fn equivalent(&self, key: &K) -> (r: bool) ensures r == self.seqv(key); }

pub open spec fn all_same<T: RubyEql<E, G, R>, E, G, R>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].same(&b[i])
}
pub proof fn all_refl<T: RubyEql<E, G, R>, E, G, R>(a: Seq<T>) ensures all_same::<T, E, G, R>(a, a)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i].same(&a[i]) by { a[i].reflexive(); } }
pub proof fn all_symm<T: RubyEql<E, G, R>, E, G, R>(a: Seq<T>, b: Seq<T>) requires all_same::<T, E, G, R>(a, b) ensures all_same::<T, E, G, R>(b, a)
{ assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies b[i].same(&a[i]) by { a[i].symmetric(&b[i]); } }
pub proof fn all_trans<T: RubyEql<E, G, R>, E, G, R>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires all_same::<T, E, G, R>(a, b), all_same::<T, E, G, R>(b, c) ensures all_same::<T, E, G, R>(a, c)
{ assert forall|i: int| #![trigger a[i]] #![trigger c[i]] 0 <= i < a.len() implies a[i].same(&c[i]) by { assert(a[i].same(&b[i])); a[i].transitive(&b[i], &c[i]); } }
/// what hashing the elements in turn writes
pub open spec fn all_writes<T: RubyHash<E, G, R>, E, G, R>(a: Seq<T>) -> Seq<u64>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { all_writes::<T, E, G, R>(a.drop_last()) + a.last().writes() } }
pub proof fn all_writes_push<T: RubyHash<E, G, R>, E, G, R>(a: Seq<T>, k: int)
    requires 0 <= k < a.len()
    ensures all_writes::<T, E, G, R>(a.subrange(0, k + 1)) == all_writes::<T, E, G, R>(a.subrange(0, k)) + a[k].writes()
{ assert(a.subrange(0, k + 1).drop_last() =~= a.subrange(0, k)); }
pub proof fn all_coherent<T: Key<E, G, R>, E, G, R>(a: Seq<T>, b: Seq<T>)
    requires all_same::<T, E, G, R>(a, b)
    ensures all_writes::<T, E, G, R>(a) == all_writes::<T, E, G, R>(b)
    decreases a.len()
{
    if a.len() > 0 { assert(a.last().same(&b.last())); a.last().coherent(&b.last()); all_coherent::<T, E, G, R>(a.drop_last(), b.drop_last()); }
}
impl<T: Key<E, G, R>, E, G, R> Key<E, G, R> for Vec<T> { proof fn coherent(&self, other: &Self) { all_coherent::<T, E, G, R>(self@, other@); } }
impl<T: Key<E, G, R>, E, G, R> Key<E, G, R> for Option<T> { proof fn coherent(&self, other: &Self) { if let (Some(a), Some(b)) = (self, other) { a.coherent(b); } } }
@end
@file ruby_traits/src/lib.rs
@impl impl<T, E, G, R> RubyEql<E, G, R> for Option<T> where T: RubyEql<E, G, R>,
@verbatim
    open spec fn same(&self, other: &Self) -> bool { match (self, other) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } }
    proof fn reflexive(&self) { if let Some(a) = self { a.reflexive(); } }
    proof fn symmetric(&self, other: &Self) { if let (Some(a), Some(b)) = (self, other) { a.symmetric(b); } }
    proof fn transitive(&self, b: &Self, c: &Self) { if let (Some(x), Some(y), Some(z)) = (self, b, c) { x.transitive(y, z); } }
@end
@fn eql id=Option::eql nopub
@endimpl
@impl impl<T, E, G, R> RubyHash<E, G, R> for Option<T> where T: RubyHash<E, G, R>,
@verbatim
    open spec fn writes(&self) -> Seq<u64> { match self { Some(v) => v.writes(), None => Seq::empty() } }
@end
@fn ruby_hash id=Option::ruby_hash nopub
@sub std :: hash :: Hasher ==> Hasher
@endimpl
@impl impl<T, E, G, R> RubyEql<E, G, R> for Vec<T> where T: RubyEql<E, G, R>,
@verbatim
    open spec fn same(&self, other: &Self) -> bool { all_same::<T, E, G, R>(self@, other@) }
    proof fn reflexive(&self) { all_refl::<T, E, G, R>(self@) }
    proof fn symmetric(&self, other: &Self) { all_symm::<T, E, G, R>(self@, other@) }
    proof fn transitive(&self, b: &Self, c: &Self) { all_trans::<T, E, G, R>(self@, b@, c@) }
@end
@fn eql id=Vec::eql nopub
@loop 1
    invariant _n1 == self@.len(), self@.len() == other@.len(), raised::<E, R>(*e) == raised::<E, R>(*old(e)), forall|i: int| 0 <= i < _k1 ==> (#[trigger] self@[i]).same(&other@[i]),
@endimpl
@impl impl<T, E, G, R> RubyEql<E, G, R> for [T] where T: RubyEql<E, G, R>,
@verbatim
    open spec fn same(&self, other: &Self) -> bool { all_same::<T, E, G, R>(self@, other@) }
    proof fn reflexive(&self) { all_refl::<T, E, G, R>(self@) }
    proof fn symmetric(&self, other: &Self) { all_symm::<T, E, G, R>(self@, other@) }
    proof fn transitive(&self, b: &Self, c: &Self) { all_trans::<T, E, G, R>(self@, b@, c@) }
@end
@fn eql id=slice::eql nopub
@loop 1
    invariant _n1 == self@.len(), self@.len() == other@.len(), raised::<E, R>(*e) == raised::<E, R>(*old(e)), forall|i: int| 0 <= i < _k1 ==> (#[trigger] self@[i]).same(&other@[i]),
@endimpl
@impl impl<T, E, G, R> RubyHash<E, G, R> for Vec<T> where T: RubyHash<E, G, R>,
@verbatim
    open spec fn writes(&self) -> Seq<u64> { all_writes::<T, E, G, R>(self@) }
@end
@fn ruby_hash id=Vec::ruby_hash nopub
@sub std :: hash :: Hasher ==> Hasher
@enter
    proof { assert(self@.subrange(0, 0) =~= Seq::empty()); assert(self@.subrange(0, self@.len() as int) =~= self@); assert(old(state).st() + Seq::<u64>::empty() =~= old(state).st()); }
@loop 1
    invariant _n1 == self@.len(), raised::<E, R>(*e) == raised::<E, R>(*old(e)), state.st() == old(state).st() + all_writes::<T, E, G, R>(self@.subrange(0, _k1 as int)),
@loopend 1
    proof { all_writes_push::<T, E, G, R>(self@, _k1 as int); assert(state.st() =~= old(state).st() + all_writes::<T, E, G, R>(self@.subrange(0, _k1 + 1))); }
@endimpl
@impl impl<Q: ?Sized, K: ?Sized, E, G, R> Equivalent<K, E, G, R> for Q where Q: RubyEql<E, G, R>, K: Borrow<Q>,
@verbatim
    open spec fn eqv(&self, key: &K) -> bool { self.same(key.lent()) }
@end
@fn equivalent id=blanket::equivalent nopub
@endimpl
@impl impl<Q: ?Sized, K: ?Sized> SymEquivalent<K> for Q where Q: RubySymEql, K: Borrow<Q>,
@verbatim
    open spec fn seqv(&self, key: &K) -> bool { self.ssame(key.lent()) }
@end
@fn equivalent id=sym::equivalent nopub
@endimpl
