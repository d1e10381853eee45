// Bulk operations of the ordered map and set: rubymap/src/map.rs, rubymap/src/map/core.rs, rubymap/src/set.rs
@include rubymap_core.vspec
@verbatim
use core::ops::Range;
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
/// the standard range forms: a start and an end bound
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<T>;
    spec fn hi(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>) ensures match (r, self.lo()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
    fn end_bound(&self) -> (r: Bound<&T>) ensures match (r, self.hi()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
}
/// the range `..`
pub struct Whole;
impl RangeBounds<usize> for Whole {
    open spec fn lo(&self) -> Bound<usize> { Bound::Unbounded }
    open spec fn hi(&self) -> Bound<usize> { Bound::Unbounded }
    fn start_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
    fn end_bound(&self) -> (r: Bound<&usize>) { Bound::Unbounded }
}
/// the positions meant: from first(r) up to but not including past(r, len)
pub open spec fn from_pos<R: RangeBounds<usize>>(r: R) -> int { match r.lo() { Bound::Included(i) => i as int, Bound::Excluded(i) => i + 1, Bound::Unbounded => 0 } }
pub open spec fn to_pos<R: RangeBounds<usize>>(r: R, len: int) -> int { match r.hi() { Bound::Included(i) => i + 1, Bound::Excluded(i) => i as int, Bound::Unbounded => len } }
pub open spec fn in_range<R: RangeBounds<usize>>(r: R, len: int) -> bool { from_pos(r) <= to_pos(r, len) <= len }
/// a panic is a refusal: it must not happen to a valid request
#[verifier::external_body]
pub fn vrefuse(Ghost(refused): Ghost<bool>) -> ! requires refused { panic!() }
/// an iterator given by the caller: rest() is what it will still hand out; its lower size bound is that of items in memory
pub trait Feed<X>: Sized {
    spec fn rest(&self) -> Seq<X>;
    fn next(&mut self) -> (r: Option<X>) ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 };
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= isize::MAX;
    fn into_iter(self) -> (r: Self) ensures r == self;
}
/// Iterator::map with the closure |x| (x, ())
pub struct Paired<I> { pub it: I }
pub open spec fn paired_with_unit<T>(s: Seq<T>) -> Seq<(T, ())> { Seq::new(s.len(), |i: int| (s[i], ())) }
impl<T, I: Feed<T>> Feed<(T, ())> for Paired<I> {
    open spec fn rest(&self) -> Seq<(T, ())> { paired_with_unit(self.it.rest()) }
    fn next(&mut self) -> (r: Option<(T, ())>) {
        let ghost was = self.it.rest();
        match self.it.next() { Some(k) => { assert(self.rest() =~= paired_with_unit(was).skip(1)); Some((k, ())) } None => None }
    }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { self.it.size_hint() }
    fn into_iter(self) -> (r: Self) { self }
}
/// vec::Drain over a range, taken to its end or dropped: the vector is left without the range
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDrain<T> { v: Vec<T> }
impl<T> VecDrain<T> { pub uninterp spec fn left(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn vec_drain<T>(v: &mut Vec<T>, r: Range<usize>) -> (d: VecDrain<T>)
    requires r.start <= r.end <= old(v)@.len()
    ensures d.left() == old(v)@.subrange(r.start as int, r.end as int), final(v)@ == cut(old(v)@, r.start as int, r.end as int)
{ unimplemented!() }
/// the draining iterator of a map: Bucket::key_value of every entry left (iter.rs, by the macro iterator_methods)
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Drain<K, V> { pub iter: VecDrain<Bucket<K, V>> }
pub open spec fn pairs_of<K, V>(s: Seq<Bucket<K, V>>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (s[i].key, s[i].value)) }
impl<K, V> Feed<(K, V)> for Drain<K, V> {
    open spec fn rest(&self) -> Seq<(K, V)> { pairs_of(self.iter.left()) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(K, V)>) { unimplemented!() }
    #[verifier::external_body]
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    fn into_iter(self) -> (r: Self) { self }
}
/// the list of entries after filing v under k: the value replaced where the key is found, or a new last entry
pub open spec fn files_one<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(s: &S, a: Seq<Bucket<K, V>>, b: Seq<Bucket<K, V>>, k: K, v: V) -> bool {
    (nokey::<K, V, E, G, R, K>(a, &k) && b == a.push(Bucket { hash: finished(s, k.writes()), key: k, value: v }))
        || exists|i: int| #[trigger] keyed::<K, V, E, G, R, K>(a, &k, i) && b == set_value(a, i, v)
}
/// t lists the states in which the first pairs of l are filed one by one
pub open spec fn files_each<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(s: &S, l: Seq<(K, V)>, t: Seq<Seq<Bucket<K, V>>>) -> bool {
    0 < t.len() <= l.len() + 1 && forall|n: int| #![trigger t[n]] 1 <= n < t.len() ==> files_one::<K, V, E, G, R, S>(s, t[n - 1], t[n], l[n - 1].0, l[n - 1].1)
}
/// b is a with every pair of l filed in turn
pub open spec fn filed_all<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(s: &S, a: Seq<Bucket<K, V>>, l: Seq<(K, V)>, b: Seq<Bucket<K, V>>) -> bool {
    exists|t: Seq<Seq<Bucket<K, V>>>| #[trigger] files_each::<K, V, E, G, R, S>(s, l, t) && t[0] == a && t.last() == b && t.len() == l.len() + 1
}
/// b is a with fewer than all pairs of l filed, from the front
pub open spec fn filed_some<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(s: &S, a: Seq<Bucket<K, V>>, l: Seq<(K, V)>, b: Seq<Bucket<K, V>>) -> bool {
    exists|t: Seq<Seq<Bucket<K, V>>>| #[trigger] files_each::<K, V, E, G, R, S>(s, l, t) && t[0] == a && t.last() == b && t.len() <= l.len()
}
pub open spec fn keys_behave<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, E, G, R>() -> bool { qcoh::<K, E, G, R, K>() && symmetric::<K, E, G, R>() }
#[verifier::external_body]
pub fn fresh_builder<S>() -> S { unimplemented!() }
/// into_iter().map(f).collect() of a vector
#[verifier::external_body]
pub fn vec_map<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| #[trigger] f.requires((a,))
    ensures r@.len() == v@.len(), forall|i: int| #![trigger v@[i]] #![trigger r@[i]] 0 <= i < v@.len() ==> f.ensures((v@[i],), r@[i])
{ v.into_iter().map(f).collect() }
@end
@file rubymap/src/util.rs
@fn simplify_range refpats
    ensures in_range(range, len as int), r.start == from_pos(range), r.end == to_pos(range, len as int)
@sub panic ! ( $a ) ==> vrefuse(Ghost(!in_range(range, len as int)))
@file rubymap/src/map/core.rs
@impl impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R>
@fn drain id=core::drain
    requires old(self).inv()
    ensures in_range(range, old(self).entries@.len() as int), r is Ok, final(self).inv(),
        final(self).entries@ == cut(old(self).entries@, from_pos(range), to_pos(range, old(self).entries@.len() as int)),
        r->Ok_0.left() == old(self).entries@.subrange(from_pos(range), to_pos(range, old(self).entries@.len() as int)),
@sub vec :: Drain < '_ , Bucket < K , V >> ==> VecDrain<Bucket<K, V>>
@sub self . entries . drain ( $a ) ==> vec_drain(&mut self.entries, $a)
@fn map_keys id=core::map_keys
    requires self.inv(), forall|k: K| #[trigger] f.requires((k,))
    ensures r.inv(), r.linear == self.linear, r.entries@.len() == self.entries@.len(),
        forall|i: int| #![trigger r.entries@[i]] 0 <= i < r.entries@.len() ==> r.entries@[i].hash == self.entries@[i].hash && r.entries@[i].value == self.entries@[i].value && f.ensures((self.entries@[i].key,), r.entries@[i].key),
@sub mut f : impl FnMut ( K ) -> K2 ==> f: impl Fn(K) -> K2
@sub self . entries . into_iter ( ) . map ( $c ) . collect ( ) ==> vec_map(self.entries, $c)
@closure 1 (Bucket<K, V>) -> (x: Bucket<K2, V>)
    requires f.requires((b.key,))
    ensures x.hash == b.hash, x.value == b.value, f.ensures((b.key,), x.key)
@endimpl
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn drain id=Map::drain
    requires old(self).inv()
    ensures in_range(range, old(self).es().len() as int), r is Ok, final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        final(self).es() == cut(old(self).es(), from_pos(range), to_pos(range, old(self).es().len() as int)),
        r->Ok_0.iter.left() == old(self).es().subrange(from_pos(range), to_pos(range, old(self).es().len() as int)),
@sub Drain < '_ , K , V > ==> Drain<K, V>
@sub Drain :: new ( $a ) ==> Drain { iter: $a }
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where S: BuildHasher,
@fn map_keys id=Map::map_keys
    requires self.inv(), forall|k: K| #[trigger] f.requires((k,))
    ensures r.inv(), r.hash_builder == self.hash_builder, r.es().len() == self.es().len(),
        forall|i: int| #![trigger r.es()[i]] 0 <= i < r.es().len() ==> r.es()[i].hash == self.es()[i].hash && r.es()[i].value == self.es()[i].value && f.ensures((self.es()[i].key,), r.es()[i].key),
@sub f : impl FnMut ( K ) -> K2 ==> f: impl Fn(K) -> K2
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where K: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn append id=Map::append
    requires old(self).inv(), old(self).hashed(), keys_behave::<K, E, G, R>(), distinct::<K, V, E, G, R>(old(self).es()), old(other).inv()
    ensures final(self).inv(), final(self).hashed(), distinct::<K, V, E, G, R>(final(self).es()), final(self).hash_builder == old(self).hash_builder,
        final(other).inv(), final(other).es().len() == 0,
        r is Ok ==> filed_all::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), pairs_of(old(other).es()), final(self).es()),
        r is Err ==> filed_some::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), pairs_of(old(other).es()), final(self).es()),
@sub other . drain ( .. , ==> other.drain(Whole,
@enter
    proof { assert(other.es().subrange(0, other.es().len() as int) =~= other.es()); }
@fn extend id=Map::extend foriter
    requires old(self).inv(), old(self).hashed(), keys_behave::<K, E, G, R>(), distinct::<K, V, E, G, R>(old(self).es())
    ensures final(self).inv(), final(self).hashed(), distinct::<K, V, E, G, R>(final(self).es()), final(self).hash_builder == old(self).hash_builder,
        r is Ok ==> filed_all::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), iterable.rest(), final(self).es()),
        r is Err ==> filed_some::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), iterable.rest(), final(self).es()),
@sub I : IntoIterator < Item = ( K , V ) >> ==> I: Feed<(K, V)>>
@enter
    let ghost l = iterable.rest();
    let ghost mut n: int = 0;
    let ghost mut t: Seq<Seq<Bucket<K, V>>> = seq![self.es()];
@loop 1
    invariant_except_break _it1.rest() == l.skip(n), 0 <= n <= l.len(), l == iterable.rest(), self.inv(), self.hashed(), keys_behave::<K, E, G, R>(), distinct::<K, V, E, G, R>(self.es()), self.hash_builder == old(self).hash_builder,
        t.len() == n + 1, t[0] == old(self).es(), t.last() == self.es(), files_each::<K, V, E, G, R, S>(&old(self).hash_builder, l, t)
    ensures self.inv(), self.hashed(), distinct::<K, V, E, G, R>(self.es()), self.hash_builder == old(self).hash_builder, t.len() == l.len() + 1, t[0] == old(self).es(), t.last() == self.es(), files_each::<K, V, E, G, R, S>(&old(self).hash_builder, l, t)
    decreases l.len() - n
@loopenter 1
    proof { assert(l.skip(n)[0] == l[n]); assert(l.skip(n).skip(1) =~= l.skip(n + 1)); }
@loopend 1
    proof { t = t.push(self.es()); n = n + 1; }
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where K: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher + Default, => impl<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn from_iter id=Map::from_iter
    requires keys_behave::<K, E, G, R>()
    ensures r matches Ok(m) ==> m.inv() && m.hashed() && distinct::<K, V, E, G, R>(m.es()) && filed_all::<K, V, E, G, R, S>(&m.hash_builder, Seq::empty(), iterable.rest(), m.es())
@sub I : IntoIterator < Item = ( K , V ) >> ==> I: Feed<(K, V)>>
@sub < _ > :: default ( ) ==> fresh_builder::<S>()
@after let mut map = Self :: with_capacity_and_hasher
    proof { assert(map.es() =~= Seq::empty()); }
@endimpl
@verbatim
/// every entry offered once, in order, with its key and a changeable value; keys stay
#[verifier::prophetic]
pub open spec fn offered_pairs<K, V, F: Fn(&K, &mut V) -> bool>(s: Seq<Bucket<K, V>>, t: Seq<Bucket<K, V>>, kept: Seq<bool>, f: F) -> bool {
    &&& t.len() == s.len() && kept.len() == s.len()
    &&& forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() ==> t[i].hash == s[i].hash && t[i].key == s[i].key
        && exists|v: &mut V| *v == s[i].value && *final(v) == t[i].value && #[trigger] f.ensures((&s[i].key, v), kept[i])
}
pub open spec fn offered_keys<T, F: Fn(&T) -> bool>(s: Seq<Bucket<T, ()>>, kept: Seq<bool>, f: F) -> bool {
    kept.len() == s.len() && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> f.ensures((&s[i].key,), kept[i])
}
@end
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn retain id=Map::retain
    requires old(self).inv(), forall|k: &K, v: &mut V| #[trigger] keep.requires((k, v))
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        exists|t: Seq<Bucket<K, V>>, kept: Seq<bool>| #[trigger] offered_pairs(old(self).es(), t, kept, keep) && final(self).es() == filter_by(t, kept),
@sub mut keep : F ==> keep: F
@sub F : FnMut ( & K , & mut V ) -> bool ==> F: Fn(&K, &mut V) -> bool + Copy
@sub self . core . retain_in_order ( $c ) ==> let f_ = $c; self.core.retain_in_order(f_)
@closure 1 (&mut K, &mut V) -> (b: bool)
    ensures *final(k) == *old(k), exists|w: &mut V| *w == *old(v) && *final(w) == *final(v) && #[trigger] keep.ensures((&*old(k), w), b)
@after self . core . retain_in_order (
    proof {
        let s0 = old(self).es();
        let (t, kept) = choose|t: Seq<Bucket<K, V>>, kept: Seq<bool>| #[trigger] offered(s0, t, kept, f_) && self.es() == filter_by(t, kept);
        assert forall|i: int| #![trigger t[i]] #![trigger s0[i]] 0 <= i < s0.len() implies t[i].hash == s0[i].hash && t[i].key == s0[i].key
            && exists|v: &mut V| *v == s0[i].value && *final(v) == t[i].value && #[trigger] keep.ensures((&s0[i].key, v), kept[i]) by {
            let (k, v) = choose|k: &mut K, v: &mut V| *k == s0[i].key && *v == s0[i].value && *final(k) == t[i].key && *final(v) == t[i].value && #[trigger] f_.ensures((k, v), kept[i]);
            assert(f_.ensures((k, v), kept[i]));
        }
        assert(offered_pairs(s0, t, kept, keep));
    }
@endimpl
@file rubymap/src/set.rs
@verbatim
pub mod sdrain {
use vstd::prelude::*;
use super::{Bucket, VecDrain};
/// the draining iterator of a set
#[verifier::reject_recursive_types(T)]
pub struct Drain<T> { pub iter: VecDrain<Bucket<T, ()>> }
}
@end
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S>
@fn drain id=Set::drain
    requires old(self).inv()
    ensures in_range(range, old(self).es().len() as int), r is Ok, final(self).inv(), final(self).hb() == old(self).hb(),
        final(self).es() == cut(old(self).es(), from_pos(range), to_pos(range, old(self).es().len() as int)),
        r->Ok_0.iter.left() == old(self).es().subrange(from_pos(range), to_pos(range, old(self).es().len() as int)),
@sub Drain < '_ , T > ==> sdrain::Drain<T>
@sub Drain :: new ( $a ) ==> sdrain::Drain { iter: $a }
@fn retain id=Set::retain
    requires old(self).inv(), forall|k: &T| #[trigger] keep.requires((k,))
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        exists|kept: Seq<bool>| #[trigger] offered_keys(old(self).es(), kept, keep) && final(self).es() == filter_by(old(self).es(), kept),
@sub mut keep : F ==> keep: F
@sub F : FnMut ( & T ) -> bool ==> F: Fn(&T) -> bool + Copy
@sub self . map . retain ( $c ) ==> let f_ = $c; self.map.retain(f_);
@sub | x , & mut ( ) | ==> | x , u_ |
@closure 1 (&T, &mut ()) -> (b: bool)
    ensures keep.ensures((x,), b)
@after self . map . retain (
    proof {
        let s0 = old(self).es();
        let (t, kept) = choose|t: Seq<Bucket<T, ()>>, kept: Seq<bool>| #[trigger] offered_pairs(s0, t, kept, f_) && self.es() == filter_by(t, kept);
        assert forall|i: int| #![trigger s0[i]] #![trigger t[i]] 0 <= i < s0.len() implies keep.ensures((&s0[i].key,), kept[i]) && t[i] == s0[i] by {
            let v = choose|v: &mut ()| *v == s0[i].value && *final(v) == t[i].value && #[trigger] f_.ensures((&s0[i].key, v), kept[i]);
            assert(f_.ensures((&s0[i].key, v), kept[i]));
            assert(t[i].value == ()); assert(s0[i].value == ());
        }
        assert(t =~= s0);
        assert(offered_keys(s0, kept, keep));
    }
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where T: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn append id=Set::append
    requires old(self).inv(), old(self).hashed(), keys_behave::<T, E, G, R>(), distinct::<T, (), E, G, R>(old(self).es()), old(other).inv()
    ensures final(self).inv(), final(self).hashed(), distinct::<T, (), E, G, R>(final(self).es()), final(self).hb() == old(self).hb(),
        final(other).inv(), final(other).es().len() == 0,
        r is Ok ==> filed_all::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).es(), pairs_of(old(other).es()), final(self).es()),
        r is Err ==> filed_some::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).es(), pairs_of(old(other).es()), final(self).es()),
@fn extend id=Set::extend
    requires old(self).inv(), old(self).hashed(), keys_behave::<T, E, G, R>(), distinct::<T, (), E, G, R>(old(self).es())
    ensures final(self).inv(), final(self).hashed(), distinct::<T, (), E, G, R>(final(self).es()), final(self).hb() == old(self).hb(),
        r is Ok ==> filed_all::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).es(), paired_with_unit(iterable.rest()), final(self).es()),
        r is Err ==> filed_some::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).es(), paired_with_unit(iterable.rest()), final(self).es()),
@sub I : IntoIterator < Item = T >> ==> I: Feed<T>>
@sub iterable . into_iter ( ) . map ( | x | ( x , ( ) ) ) ==> Paired { it: iterable.into_iter() }
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where T: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher + Default, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn from_iter id=Set::from_iter
    requires keys_behave::<T, E, G, R>()
    ensures r matches Ok(m) ==> m.inv() && m.hashed() && distinct::<T, (), E, G, R>(m.es()) && filed_all::<T, (), E, G, R, S>(&m.map.hash_builder, Seq::empty(), paired_with_unit(iterable.rest()), m.es())
@sub I : IntoIterator < Item = T >> ==> I: Feed<T>>
@sub iterable . into_iter ( ) . map ( | x | ( x , ( ) ) ) ==> Paired { it: iterable.into_iter() }
@endimpl
@verbatim
use core::cmp::Ordering;
/// t holds the elements of s, the one at i coming from p[i]
pub open spec fn permuted<T>(p: Seq<int>, s: Seq<T>, t: Seq<T>) -> bool {
    &&& p.len() == s.len() && t.len() == s.len()
    &&& forall|i: int| #![trigger p[i]] #![trigger t[i]] 0 <= i < p.len() ==> 0 <= p[i] < s.len() && t[i] == s[p[i]]
    &&& forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> p[i] != p[j]
}
pub open spec fn total<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] c(a, b) == Ordering::Less <==> c(b, a) == Ordering::Greater
    &&& forall|a: T, b: T| #[trigger] c(a, b) == Ordering::Equal <==> c(b, a) == Ordering::Equal
    &&& forall|a: T, b: T, d: T| #[trigger] c(a, b) != Ordering::Greater && #[trigger] c(b, d) != Ordering::Greater ==> c(a, d) != Ordering::Greater
}
pub open spec fn in_order<T>(t: Seq<T>, p: Seq<int>, c: spec_fn(T, T) -> Ordering, stable: bool) -> bool {
    forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> c(t[i], t[j]) == Ordering::Less || (c(t[i], t[j]) == Ordering::Equal && (stable ==> p[i] < p[j]))
}
/// the answers of a comparison are those of c
pub open spec fn answers<T, F: Fn(&T, &T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering) -> bool { forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == c(*a, *b) }
pub open spec fn sorts_by<T, F: Fn(&T, &T) -> Ordering>(s: Seq<T>, t: Seq<T>, p: Seq<int>, f: F, stable: bool) -> bool {
    permuted(p, s, t) && forall|c: spec_fn(T, T) -> Ordering| #[trigger] answers(f, c) && total(c) ==> in_order(t, p, c, stable)
}
/// the sorts of slices in std
#[verifier::external_body]
pub fn slice_sort_by<T, F: Fn(&T, &T) -> Ordering>(s: &mut [T], f: F)
    requires forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    ensures final(s)@.len() == old(s)@.len(), exists|p: Seq<int>| #[trigger] sorts_by(old(s)@, final(s)@, p, f, true)
{ s.sort_by(f) }
#[verifier::external_body]
pub fn slice_sort_unstable_by<T, F: Fn(&T, &T) -> Ordering>(s: &mut [T], f: F)
    requires forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    ensures final(s)@.len() == old(s)@.len(), exists|p: Seq<int>| #[trigger] sorts_by(old(s)@, final(s)@, p, f, false)
{ s.sort_unstable_by(f) }
/// Ord
pub trait Ranked: Sized {
    spec fn rank(&self, other: &Self) -> Ordering;
    fn cmp(&self, other: &Self) -> (r: Ordering) ensures r == self.rank(other);
}
pub open spec fn by_key<K: Ranked, V>() -> spec_fn(Bucket<K, V>, Bucket<K, V>) -> Ordering { |a: Bucket<K, V>, b: Bucket<K, V>| a.key.rank(&b.key) }
pub open spec fn ranked<K: Ranked>() -> spec_fn(K, K) -> Ordering { |a: K, b: K| a.rank(&b) }
/// c on the pairs of two entries
pub open spec fn on_pairs<K, V>(c: spec_fn(K, V, K, V) -> Ordering) -> spec_fn(Bucket<K, V>, Bucket<K, V>) -> Ordering { |a: Bucket<K, V>, b: Bucket<K, V>| c(a.key, a.value, b.key, b.value) }
pub open spec fn pair_answers<K, V, F: Fn(&K, &V, &K, &V) -> Ordering>(f: F, c: spec_fn(K, V, K, V) -> Ordering) -> bool {
    forall|a: &K, x: &V, b: &K, y: &V, o: Ordering| #[trigger] f.ensures((a, x, b, y), o) ==> o == c(*a, *x, *b, *y)
}
pub open spec fn sorted_pairs<K, V, F: Fn(&K, &V, &K, &V) -> Ordering>(s: Seq<Bucket<K, V>>, t: Seq<Bucket<K, V>>, p: Seq<int>, f: F, stable: bool) -> bool {
    permuted(p, s, t) && forall|c: spec_fn(K, V, K, V) -> Ordering| #[trigger] pair_answers(f, c) && total(on_pairs(c)) ==> in_order(t, p, on_pairs(c), stable)
}
/// c on two elements
pub open spec fn on_elements<T>(c: spec_fn(T, T) -> Ordering) -> spec_fn(Bucket<T, ()>, Bucket<T, ()>) -> Ordering { |a: Bucket<T, ()>, b: Bucket<T, ()>| c(a.key, b.key) }
pub open spec fn sorted_elements<T, F: Fn(&T, &T) -> Ordering>(s: Seq<Bucket<T, ()>>, t: Seq<Bucket<T, ()>>, p: Seq<int>, f: F, stable: bool) -> bool {
    permuted(p, s, t) && forall|c: spec_fn(T, T) -> Ordering| #[trigger] answers(f, c) && total(on_elements(c)) ==> in_order(t, p, on_elements(c), stable)
}
/// the order of what k makes of the elements
pub open spec fn by_keying<T, B: Ranked>(k: spec_fn(T) -> B) -> spec_fn(T, T) -> Ordering { |a: T, b: T| k(a).rank(&k(b)) }
pub open spec fn gives<T, B, F: Fn(&T) -> B>(f: F, k: spec_fn(T) -> B) -> bool { forall|a: &T, o: B| #[trigger] f.ensures((a,), o) ==> o == k(*a) }
pub open spec fn gives_pair<K, V, B, F: Fn(&K, &V) -> B>(f: F, k: spec_fn(K, V) -> B) -> bool { forall|a: &K, b: &V, o: B| #[trigger] f.ensures((a, b), o) ==> o == k(*a, *b) }
pub open spec fn on_pair<K, V, B>(k: spec_fn(K, V) -> B) -> spec_fn(Bucket<K, V>) -> B { |b: Bucket<K, V>| k(b.key, b.value) }
pub open spec fn sorts_by_key<T, B: Ranked, F: Fn(&T) -> B>(s: Seq<T>, t: Seq<T>, p: Seq<int>, f: F) -> bool {
    permuted(p, s, t) && forall|k: spec_fn(T) -> B| #[trigger] gives(f, k) && total(ranked::<B>()) ==> in_order(t, p, by_keying(k), true)
}
pub open spec fn sorted_cached<K, V, B: Ranked, F: Fn(&K, &V) -> B>(s: Seq<Bucket<K, V>>, t: Seq<Bucket<K, V>>, p: Seq<int>, f: F) -> bool {
    permuted(p, s, t) && forall|k: spec_fn(K, V) -> B| #[trigger] gives_pair(f, k) && total(ranked::<B>()) ==> in_order(t, p, by_keying(on_pair(k)), true)
}
#[verifier::external_body]
pub fn slice_sort_by_cached_key<T, B: Ranked, F: Fn(&T) -> B>(s: &mut [T], f: F)
    requires forall|a: &T| #[trigger] f.requires((a,))
    ensures final(s)@.len() == old(s)@.len(), exists|p: Seq<int>| #[trigger] sorts_by_key(old(s)@, final(s)@, p, f)
{ unimplemented!() }
/// the owning iterator: the entries it will hand out
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IntoIter<K, V> { pub iter: Vec<Bucket<K, V>> }
pub open spec fn sorted_keys<K: Ranked, V>(s: Seq<Bucket<K, V>>, t: Seq<Bucket<K, V>>, p: Seq<int>, stable: bool) -> bool {
    permuted(p, s, t) && (total(by_key::<K, V>()) ==> in_order(t, p, by_key::<K, V>(), stable))
}
@end
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> Entries for RubyMap<K, V, E, G, R, S> => impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn with_entries id=Map::with_entries
    requires old(self).inv(), forall|m: &mut [Bucket<K, V>]| (*m)@ == old(self).es() ==> #[trigger] f.requires((m,)),
        forall|m: &mut [Bucket<K, V>]| #[trigger] f.ensures((m,), ()) ==> (*final(m))@.len() == (*m)@.len(), // a slice cannot change its length
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|m: &mut [Bucket<K, V>]| (*m)@ == old(self).es() && (*final(m))@ == final(self).es() && #[trigger] f.ensures((m,), ()),
@sub Self :: Entry ==> Bucket<K, V>
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn sort_keys id=Map::sort_keys
    requires old(self).inv()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|p: Seq<int>| #[trigger] sorted_keys(old(self).es(), final(self).es(), p, true)
@sub K : Ord ==> K: Ranked
@sub entries . sort_by ( $a ) ==> let g_ = $a; slice_sort_by(entries, g_)
@sub self . with_entries ( $c ) ==> let f_ = $c; self.with_entries(f_)
@closure 1 (&mut [Bucket<K, V>]) -> (u: ())
    ensures final(entries)@.len() == old(entries)@.len(), exists|p: Seq<int>| #[trigger] sorted_keys(old(entries)@, final(entries)@, p, true)
@center 1
    let ghost s0 = entries@;
@closure 2 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures o == by_key::<K, V>()(*a, *b)
@after slice_sort_by (
    proof {
        assert(answers(g_, by_key::<K, V>()));
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, true);
        assert(sorted_keys(s0, entries@, p, true));
    }
@fn sort_unstable_keys id=Map::sort_unstable_keys
    requires old(self).inv()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|p: Seq<int>| #[trigger] sorted_keys(old(self).es(), final(self).es(), p, false)
@sub K : Ord ==> K: Ranked
@sub entries . sort_unstable_by ( $a ) ==> let g_ = $a; slice_sort_unstable_by(entries, g_)
@sub self . with_entries ( $c ) ==> let f_ = $c; self.with_entries(f_)
@closure 1 (&mut [Bucket<K, V>]) -> (u: ())
    ensures final(entries)@.len() == old(entries)@.len(), exists|p: Seq<int>| #[trigger] sorted_keys(old(entries)@, final(entries)@, p, false)
@center 1
    let ghost s0 = entries@;
@closure 2 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures o == by_key::<K, V>()(*a, *b)
@after slice_sort_unstable_by (
    proof {
        assert(answers(g_, by_key::<K, V>()));
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, false);
        assert(sorted_keys(s0, entries@, p, false));
    }
@fn sort_by id=Map::sort_by
    requires old(self).inv(), forall|a: &K, x: &V, b: &K, y: &V| #[trigger] cmp.requires((a, x, b, y))
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|p: Seq<int>| #[trigger] sorted_pairs(old(self).es(), final(self).es(), p, cmp, true)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & K , & V , & K , & V ) -> Ordering ==> F: Fn(&K, &V, &K, &V) -> Ordering + Copy
@sub entries . sort_by ( $a ) ==> let g_ = $a; slice_sort_by(entries, g_)
@sub self . with_entries ( $c ) ==> let f_ = $c; self.with_entries(f_)
@closure 1 (&mut [Bucket<K, V>]) -> (u: ())
    ensures final(entries)@.len() == old(entries)@.len(), exists|p: Seq<int>| #[trigger] sorted_pairs(old(entries)@, final(entries)@, p, cmp, true)
@center 1
    let ghost s0 = entries@;
@closure 2 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures cmp.ensures((&a.key, &a.value, &b.key, &b.value), o)
@after slice_sort_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, true);
        assert forall|c: spec_fn(K, V, K, V) -> Ordering| #[trigger] pair_answers(cmp, c) && total(on_pairs(c)) implies in_order(entries@, p, on_pairs(c), true) by { assert(answers(g_, on_pairs(c))); };
        assert(sorted_pairs(s0, entries@, p, cmp, true));
    }
@fn sort_unstable_by id=Map::sort_unstable_by
    requires old(self).inv(), forall|a: &K, x: &V, b: &K, y: &V| #[trigger] cmp.requires((a, x, b, y))
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|p: Seq<int>| #[trigger] sorted_pairs(old(self).es(), final(self).es(), p, cmp, false)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & K , & V , & K , & V ) -> Ordering ==> F: Fn(&K, &V, &K, &V) -> Ordering + Copy
@sub entries . sort_unstable_by ( $a ) ==> let g_ = $a; slice_sort_unstable_by(entries, g_)
@sub self . with_entries ( $c ) ==> let f_ = $c; self.with_entries(f_)
@closure 1 (&mut [Bucket<K, V>]) -> (u: ())
    ensures final(entries)@.len() == old(entries)@.len(), exists|p: Seq<int>| #[trigger] sorted_pairs(old(entries)@, final(entries)@, p, cmp, false)
@center 1
    let ghost s0 = entries@;
@closure 2 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures cmp.ensures((&a.key, &a.value, &b.key, &b.value), o)
@after slice_sort_unstable_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, false);
        assert forall|c: spec_fn(K, V, K, V) -> Ordering| #[trigger] pair_answers(cmp, c) && total(on_pairs(c)) implies in_order(entries@, p, on_pairs(c), false) by { assert(answers(g_, on_pairs(c))); };
        assert(sorted_pairs(s0, entries@, p, cmp, false));
    }
@fn sorted_by id=Map::sorted_by
    requires forall|a: &K, x: &V, b: &K, y: &V| #[trigger] cmp.requires((a, x, b, y))
    ensures exists|p: Seq<int>| #[trigger] sorted_pairs(self.core.entries@, r.iter@, p, cmp, true)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & K , & V , & K , & V ) -> Ordering ==> F: Fn(&K, &V, &K, &V) -> Ordering + Copy
@sub entries . sort_by ( $a ) ==> let g_ = $a; let ghost s0 = entries@; slice_sort_by(entries.as_mut_slice(), g_)
@sub IntoIter :: new ( $a ) ==> { let ghost es_ = $a@; let out_ = IntoIter { iter: $a }; assert(out_.iter@ == es_); assert(exists|p: Seq<int>| #[trigger] sorted_pairs(self.core.entries@, es_, p, cmp, true)); out_ }
@closure 1 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures cmp.ensures((&a.key, &a.value, &b.key, &b.value), o)
@after slice_sort_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, true);
        assert forall|c: spec_fn(K, V, K, V) -> Ordering| #[trigger] pair_answers(cmp, c) && total(on_pairs(c)) implies in_order(entries@, p, on_pairs(c), true) by { assert(answers(g_, on_pairs(c))); };
        assert(sorted_pairs(self.core.entries@, entries@, p, cmp, true));
    }
@fn sorted_unstable_by id=Map::sorted_unstable_by
    requires forall|a: &K, x: &V, b: &K, y: &V| #[trigger] cmp.requires((a, x, b, y))
    ensures exists|p: Seq<int>| #[trigger] sorted_pairs(self.core.entries@, r.iter@, p, cmp, false)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & K , & V , & K , & V ) -> Ordering ==> F: Fn(&K, &V, &K, &V) -> Ordering + Copy
@sub entries . sort_unstable_by ( $a ) ==> let g_ = $a; let ghost s0 = entries@; slice_sort_unstable_by(entries.as_mut_slice(), g_)
@sub IntoIter :: new ( $a ) ==> { let ghost es_ = $a@; let out_ = IntoIter { iter: $a }; assert(out_.iter@ == es_); assert(exists|p: Seq<int>| #[trigger] sorted_pairs(self.core.entries@, es_, p, cmp, false)); out_ }
@closure 1 (&Bucket<K, V>, &Bucket<K, V>) -> (o: Ordering)
    ensures cmp.ensures((&a.key, &a.value, &b.key, &b.value), o)
@after slice_sort_unstable_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts_by(s0, entries@, p, g_, false);
        assert forall|c: spec_fn(K, V, K, V) -> Ordering| #[trigger] pair_answers(cmp, c) && total(on_pairs(c)) implies in_order(entries@, p, on_pairs(c), false) by { assert(answers(g_, on_pairs(c))); };
        assert(sorted_pairs(self.core.entries@, entries@, p, cmp, false));
    }
@fn sort_by_cached_key id=Map::sort_by_cached_key
    requires old(self).inv(), forall|k: &K, v: &V| #[trigger] sort_key.requires((k, v))
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, exists|p: Seq<int>| #[trigger] sorted_cached(old(self).es(), final(self).es(), p, sort_key)
@sub mut sort_key : F ==> sort_key: F
@sub T : Ord ==> T: Ranked
@sub F : FnMut ( & K , & V ) -> T ==> F: Fn(&K, &V) -> T + Copy
@sub entries . sort_by_cached_key ( $a ) ==> let g_ = $a; slice_sort_by_cached_key(entries, g_)
@sub self . with_entries ( $c ) ==> let f_ = $c; self.with_entries(f_)
@closure 1 (&mut [Bucket<K, V>]) -> (u: ())
    ensures final(entries)@.len() == old(entries)@.len(), exists|p: Seq<int>| #[trigger] sorted_cached(old(entries)@, final(entries)@, p, sort_key)
@center 1
    let ghost s0 = entries@;
@closure 2 (&Bucket<K, V>) -> (o: T)
    ensures sort_key.ensures((&a.key, &a.value), o)
@after slice_sort_by_cached_key (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorts_by_key(s0, entries@, p, g_);
        assert forall|c: spec_fn(K, V) -> T| #[trigger] gives_pair(sort_key, c) && total(ranked::<T>()) implies in_order(entries@, p, by_keying(on_pair(c)), true) by { assert(gives(g_, on_pair(c))); };
        assert(sorted_cached(s0, entries@, p, sort_key));
    }
@endimpl
@file rubymap/src/set.rs
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S>
@fn sort id=Set::sort
    requires old(self).inv()
    ensures final(self).inv(), final(self).hb() == old(self).hb(), exists|p: Seq<int>| #[trigger] sorted_keys(old(self).map.es(), final(self).map.es(), p, true)
@sub T : Ord ==> T: Ranked
@fn sort_unstable id=Set::sort_unstable
    requires old(self).inv()
    ensures final(self).inv(), final(self).hb() == old(self).hb(), exists|p: Seq<int>| #[trigger] sorted_keys(old(self).map.es(), final(self).map.es(), p, false)
@sub T : Ord ==> T: Ranked
@fn sort_by id=Set::sort_by
    requires old(self).inv(), forall|a: &T, b: &T| #[trigger] cmp.requires((a, b))
    ensures final(self).inv(), final(self).hb() == old(self).hb(), exists|p: Seq<int>| #[trigger] sorted_elements(old(self).es(), final(self).es(), p, cmp, true)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & T , & T ) -> Ordering ==> F: Fn(&T, &T) -> Ordering + Copy
@sub self . map . sort_by ( $c ) ==> let f_ = $c; self.map.sort_by(f_);
@sub | a , _ , b , _ | ==> | a , u_ , b , w_ |
@closure 1 (&T, &(), &T, &()) -> (o: Ordering)
    ensures cmp.ensures((a, b), o)
@after self . map . sort_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorted_pairs(old(self).es(), self.es(), p, f_, true);
        assert forall|c: spec_fn(T, T) -> Ordering| #[trigger] answers(cmp, c) && total(on_elements(c)) implies in_order(self.es(), p, on_elements(c), true) by {
            let d = |a: T, x: (), b: T, y: ()| c(a, b);
            assert(pair_answers(f_, d));
            assert(on_pairs(d) =~= on_elements(c));
        };
        assert(sorted_elements(old(self).es(), self.es(), p, cmp, true));
    }
@fn sort_unstable_by id=Set::sort_unstable_by
    requires old(self).inv(), forall|a: &T, b: &T| #[trigger] cmp.requires((a, b))
    ensures final(self).inv(), final(self).hb() == old(self).hb(), exists|p: Seq<int>| #[trigger] sorted_elements(old(self).es(), final(self).es(), p, cmp, false)
@sub mut cmp : F ==> cmp: F
@sub F : FnMut ( & T , & T ) -> Ordering ==> F: Fn(&T, &T) -> Ordering + Copy
@sub self . map . sort_unstable_by ( $c ) ==> let f_ = $c; self.map.sort_unstable_by(f_);
@sub | a , _ , b , _ | ==> | a , u_ , b , w_ |
@closure 1 (&T, &(), &T, &()) -> (o: Ordering)
    ensures cmp.ensures((a, b), o)
@after self . map . sort_unstable_by (
    proof {
        let p = choose|p: Seq<int>| #[trigger] sorted_pairs(old(self).es(), self.es(), p, f_, false);
        assert forall|c: spec_fn(T, T) -> Ordering| #[trigger] answers(cmp, c) && total(on_elements(c)) implies in_order(self.es(), p, on_elements(c), false) by {
            let d = |a: T, x: (), b: T, y: ()| c(a, b);
            assert(pair_answers(f_, d));
            assert(on_pairs(d) =~= on_elements(c));
        };
        assert(sorted_elements(old(self).es(), self.es(), p, cmp, false));
    }
@endimpl
@verbatim
/// what a binary search for c answers
pub open spec fn searched<T>(s: Seq<T>, r: Result<usize, usize>, c: spec_fn(T) -> Ordering) -> bool {
    match r {
        Ok(i) => i < s.len() && c(s[i as int]) == Ordering::Equal,
        Err(i) => i <= s.len() && (rising(s, c) ==> forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> c(s[j]) == (if j < i { Ordering::Less } else { Ordering::Greater })),
    }
}
pub open spec fn rising<T>(s: Seq<T>, c: spec_fn(T) -> Ordering) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> c(s[i]) == Ordering::Less || c(s[j]) == Ordering::Greater || (c(s[i]) == Ordering::Equal && c(s[j]) == Ordering::Equal)
}
pub open spec fn keyed_against<K: Ranked, V>(x: K) -> spec_fn(Bucket<K, V>) -> Ordering { |b: Bucket<K, V>| b.key.rank(&x) }
impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> {
    /// unit views proves this contract on the source
    #[verifier::external_body]
    pub fn binary_search_keys(&self, x: &K) -> (r: Result<usize, usize>) where K: Ranked ensures searched(self.es(), r, keyed_against::<K, V>(*x)) { unimplemented!() }
}
/// the value replaced where the search finds the key, else the pair put where it belongs
pub open spec fn put_sorted<K: Ranked + RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(hb: &S, a: Seq<Bucket<K, V>>, b: Seq<Bucket<K, V>>, k: K, v: V, at: int, was: Option<V>, s: Result<usize, usize>) -> bool {
    searched(a, s, keyed_against::<K, V>(k)) && match s {
        Ok(j) => at == j && was == Some(a[j as int].value) && b == set_value(a, j as int, v),
        Err(j) => match was {
            None => at == j && nokey::<K, V, E, G, R, K>(a, &k) && b == a.insert(j as int, Bucket { hash: finished(hb, k.writes()), key: k, value: v }),
            Some(w) => exists|i: int| #[trigger] keyed::<K, V, E, G, R, K>(a, &k, i) && w == a[i].value && at == (if j > i { j - 1 } else { j as int }) && b == moved_seq(set_value(a, i, v), i, at),
        },
    }
}
pub open spec fn puts_sorted<K: Ranked + RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher>(hb: &S, a: Seq<Bucket<K, V>>, b: Seq<Bucket<K, V>>, k: K, v: V, at: int, was: Option<V>) -> bool {
    exists|s: Result<usize, usize>| #[trigger] put_sorted::<K, V, E, G, R, S>(hb, a, b, k, v, at, was, s)
}
@end
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> IndexMut<usize> for RubyMap<K, V, E, G, R, S> => impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn index_mut id=Map::index_mut
    requires old(self).inv(), index < old(self).es().len()
    ensures *r == old(self).es()[index as int].value, final(self).inv(), final(self).hash_builder == old(self).hash_builder, final(self).es() == set_value(old(self).es(), index as int, *final(r))
@sub panic ! ( $a ) ==> vrefuse(Ghost(false))
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where K: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn insert_sorted id=Map::insert_sorted
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok((i, o)) ==> puts_sorted::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), final(self).es(), key, value, i as int, o),
        r is Err ==> final(self).es() == old(self).es(),
@sub K : Ord ==> K: Ranked
@sub Ok ( match self . binary_search_keys ( & key ) { $a } ) ==> let s_ = self.binary_search_keys(&key); let r_ = match s_ { $a }; assert(put_sorted::<K, V, E, G, R, S>(&old(self).hash_builder, old(self).es(), self.es(), k0, v0, r_.0 as int, r_.1, s_)); Ok(r_)
@sub & mut self [ i ] ==> self.index_mut(i)
@enter
    let ghost k0 = key;
    let ghost v0 = value;
@endimpl
@file rubymap/src/set.rs
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where T: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn insert_sorted id=Set::insert_sorted
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok((i, b)) ==> (b ==> puts_sorted::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).map.es(), final(self).map.es(), value, (), i as int, None)),
        r matches Ok((i, b)) ==> (!b ==> puts_sorted::<T, (), E, G, R, S>(&old(self).map.hash_builder, old(self).map.es(), final(self).map.es(), value, (), i as int, Some(()))),
        r is Err ==> final(self).es() == old(self).es(),
@sub T : Ord ==> T: Ranked
@after let ( index , existing ) =
    proof { if existing is Some { assert(existing->Some_0 == ()); assert(existing == Some(())); } }
@endimpl
@file rubymap/src/map/core/entry.rs
@verbatim
/// unit views proves this contract on the source (through Slice::binary_search_keys)
#[verifier::external_body]
pub fn search_entries<K: Ranked, V>(s: &Vec<Bucket<K, V>>, x: &K) -> (r: Result<usize, usize>) ensures searched(s@, r, keyed_against::<K, V>(*x)) { unimplemented!() }
/// Result::unwrap_err: panics on Ok
#[verifier::external_body]
pub fn missed(r: Result<usize, usize>) -> (i: usize) ensures r == Err::<usize, usize>(i) { r.unwrap_err() }
@end
@impl impl<'a, K, V, E, G, R> VacantEntry<'a, K, V, E, G, R>
@fn insert_sorted id=VacantEntry::insert_sorted
    requires self.vinv()
    ensures r is Ok, searched((*old(self.map.entries))@, Err(r->Ok_0.0), keyed_against::<K, V>(self.key)), *r->Ok_0.1 == value,
        (*final(self.map.entries))@ == (*old(self.map.entries))@.insert(r->Ok_0.0 as int, Bucket { hash: self.hash, key: self.key, value: *final(r->Ok_0.1) }),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@sub K : Ord ==> K: Ranked
@sub let slice = crate :: map :: Slice :: from_slice ( $a ) ; let i = slice . binary_search_keys ( $b ) . unwrap_err ( ) ==> let i = missed(search_entries($a, $b))
@endimpl
