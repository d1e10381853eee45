// The unordered set: hashbrown/src/set.rs over the map of hb_map.vspec.
@include hb_map.vspec
@include hb_guard.vspec
@verbatim
/// a caller's filter over values
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ValueFilter<T> { x: core::marker::PhantomData<T> }
impl<T> ValueFilter<T> {
    pub uninterp spec fn can(&self) -> spec_fn(T, bool) -> bool;
    #[verifier::external_body]
    pub fn ask(&mut self, k: &T) -> (r: bool) ensures final(self).can() == old(self).can(), (old(self).can())(*k, r) { unimplemented!() }
}
pub open spec fn by_value<T>(f: spec_fn(T, bool) -> bool) -> spec_fn(T, (), (), bool) -> bool { |k: T, a: (), b: (), r: bool| f(k, r) }
/// the closure the set hands to the map; its body is proved below
#[verifier::external_body]
pub fn value_filter<T>(f: ValueFilter<T>) -> (r: PairFilter<T, ()>) ensures r.can() == by_value(f.can()) { unimplemented!() }
/// a caller's function making a value from a borrowed one
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
#[verifier::reject_recursive_types(T)]
pub struct Maker<Q, T> { x: core::marker::PhantomData<(Q, T)> }
impl<Q, T> Maker<Q, T> {
    pub uninterp spec fn can(&self) -> spec_fn(Q, T) -> bool;
    #[verifier::external_body]
    pub fn make(self, q: &Q) -> (r: T) ensures (self.can())(*q, r) { unimplemented!() }
}
/// assert!: panics unless b
#[verifier::external_body]
pub fn insist(b: bool) ensures b { assert!(b); }
pub proof fn unit_pair<T>(x: (u64, (T, ()))) ensures x == (x.0, (x.1.0, ())) { let u = x.1.1; assert(u == ()); }
pub proof fn unit_pairs<T>(m: Pairs<T, ()>)
    ensures forall|x: (u64, (T, ()))| #[trigger] m.contains(x) ==> x == (x.0, (x.1.0, ())), forall|x: (u64, (T, ()))| m.contains(x) ==> #[trigger] put(m, x, ()) == m
{
    assert forall|x: (u64, (T, ()))| #[trigger] m.contains(x) implies x == (x.0, (x.1.0, ())) by { unit_pair(x); };
    assert forall|x: (u64, (T, ()))| m.contains(x) implies #[trigger] put(m, x, ()) == m by { unit_pair(x); assert(put(m, x, ()) =~= m); };
}
/// the value filed under x's hash replaced by an equivalent one
pub proof fn mapped_key<K, V, S>(m: Pairs<K, V>, s: S, x: (u64, (K, V)), k: K)
    requires mapped(m, s), m.contains(x), kc(k) == kc(x.1.0)
    ensures mapped(m.remove(x).insert((x.0, (k, x.1.1))), s)
{ mapped_del(m, s, x); mapped_add(m.remove(x), s, (x.0, (k, x.1.1))); }
pub open spec fn within<T>(a: Pairs<T, ()>, b: Pairs<T, ()>) -> bool { forall|x: (u64, (T, ()))| #[trigger] a.contains(x) ==> known(b, kc(x.1.0)) }
pub open spec fn known<K, V>(m: Pairs<K, V>, c: int) -> bool { exists|x: (u64, (K, V))| #[trigger] has(m, c, x) }
/// distinct classes of a, each of them in b: no more of them than b has elements
pub proof fn fits<T, S, U>(a: Pairs<T, ()>, b: Pairs<T, ()>, s: S, u: U)
    requires mapped(a, s), mapped(b, u), within(a, b)
    ensures a.len() <= b.len()
    decreases a.len()
{
    vstd::multiset::lemma_multiset_empty_len(a);
    if a.len() > 0 {
        let x = a.choose();
        assert(a.contains(x)) by { vstd::multiset::lemma_multiset_empty_len(a); if !a.contains(x) { assert(a =~= Multiset::empty()); } };
        assert(known(b, kc(x.1.0)));
        let y = choose|y: (u64, (T, ()))| has(b, kc(x.1.0), y);
        mapped_del(a, s, x);
        mapped_del(b, u, y);
        assert forall|z: (u64, (T, ()))| #[trigger] a.remove(x).contains(z) implies known(b.remove(y), kc(z.1.0)) by {
            assert(a.remove(x).count(z) <= a.count(z));
            assert(a.contains(z));
            assert(known(b, kc(z.1.0)));
            let w = choose|w: (u64, (T, ()))| has(b, kc(z.1.0), w);
            assert(kc(z.1.0) != kc(x.1.0));
            assert(w != y);
            assert(b.remove(y).count(w) == b.count(w));
            assert(has(b.remove(y), kc(z.1.0), w));
        };
        fits(a.remove(x), b.remove(y), s, u);
    }
}
@end
@file hashbrown/src/map.rs
@item struct Keys
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@verbatim
impl<'a, K, V> Keys<'a, K, V> {
    pub open spec fn ok(&self) -> bool { self.inner.ok() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
@end
@impl impl < 'a , K , V > Iterator for Keys < 'a , K , V > => impl<'a, K, V> Keys<'a, K, V>
@fn next id=Keys::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).inner.marker == old(self).inner.marker, match r {
        Some(p) => final(self).inner.left() < old(self).inner.left() && exists|x: (u64, (K, V))| steps(old(self).inner.past(), final(self).inner.past(), old(self).inner.marker.content(), x) && *p == (#[trigger] x.1).0,
        None => old(self).inner.past() == old(self).inner.marker.content() }
@fn size_hint id=Keys::size_hint
    requires self.ok()
    ensures r.0 == self.inner.inner.iter.rest(self.inner.marker.n()), r.1 == Some(r.0)
@endimpl
@verbatim
/// ExactSizeIterator::len as std provides it: the lower bound of the size hint
impl RawIter { pub fn len(&self) -> (r: usize) ensures forall|n: int| #[trigger] self.ok(n) ==> r == self.iter.rest(n) { self.size_hint().0 } }
impl<T> RawIntoIter<T> { pub fn len(&self) -> (r: usize) requires emptying(self.iter, self.src) ensures r == self.iter.iter.rest(self.src.n()) { self.size_hint().0 } }
impl<T, E, G, R> RawDrain<'_, T, E, G, R> { pub fn len(&self) -> (r: usize) requires emptying(self.iter, self.table) ensures r == self.iter.iter.rest(self.table.n()) { self.size_hint().0 } }
@end
@item struct Values
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@verbatim
impl<'a, K, V> Values<'a, K, V> { pub open spec fn ok(&self) -> bool { self.inner.ok() } }
@end
@impl impl < K , V > ExactSizeIterator for Iter < '_ , K , V > => impl<'a, K, V> Iter<'a, K, V>
@fn len id=Iter::len
    requires self.ok()
    ensures r == self.inner.iter.rest(self.marker.n())
@endimpl
@impl impl < K , V > ExactSizeIterator for Keys < '_ , K , V > => impl<'a, K, V> Keys<'a, K, V>
@fn len id=Keys::len
    requires self.ok()
    ensures r == self.inner.inner.iter.rest(self.inner.marker.n())
@endimpl
@impl impl < 'a , K , V > Iterator for Values < 'a , K , V > => impl<'a, K, V> Values<'a, K, V>
@fn next id=Values::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).inner.marker == old(self).inner.marker, match r {
        Some(p) => final(self).inner.left() < old(self).inner.left() && exists|x: (u64, (K, V))| steps(old(self).inner.past(), final(self).inner.past(), old(self).inner.marker.content(), x) && *p == (#[trigger] x.1).1,
        None => old(self).inner.past() == old(self).inner.marker.content() }
@fn size_hint id=Values::size_hint
    requires self.ok()
    ensures r.0 == self.inner.inner.iter.rest(self.inner.marker.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V > ExactSizeIterator for Values < '_ , K , V > => impl<'a, K, V> Values<'a, K, V>
@fn len id=Values::len
    requires self.ok()
    ensures r == self.inner.inner.iter.rest(self.inner.marker.n())
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn keys id=HashMap::keys
    requires self.inv()
    ensures r.ok(), r.inner.marker == &self.table.table, r.inner.past() == Multiset::<(u64, (K, V))>::empty()
@fn values id=HashMap::values
    requires self.inv()
    ensures r.ok(), r.inner.marker == &self.table.table, r.inner.past() == Multiset::<(u64, (K, V))>::empty()
@endimpl
@verbatim
/// an iterator given by the caller: rest() is what it will still hand out; a lower size bound of usize::MAX is not possible for items in memory
pub trait Feed<X>: Sized {
    spec fn rest(&self) -> Seq<X>;
    fn next(&mut self) -> (r: Option<X>) ensures match r { Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 };
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 < usize::MAX;
    fn into_iter(self) -> (r: Self) ensures r == self;
}
/// Iterator::map with the closure |k| (k, ())
pub struct Paired<I> { pub it: I }
impl<T, I: Feed<T>> Feed<(T, ())> for Paired<I> {
    open spec fn rest(&self) -> Seq<(T, ())> { paired_with_unit(self.it.rest()) }
    fn next(&mut self) -> (r: Option<(T, ())>) {
        let ghost was = self.it.rest();
        match self.it.next() { Some(k) => { assert(self.rest() =~= paired_with_unit(was).skip(1)); Some((k, ())) } None => None }
    }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { self.it.size_hint() }
    fn into_iter(self) -> (r: Self) { self }
}
pub open spec fn paired_with_unit<T>(s: Seq<T>) -> Seq<(T, ())> { Seq::new(s.len(), |i: int| (s[i], ())) }
/// the pairs after filing v under k
pub open spec fn stored<K, V, S>(m: Pairs<K, V>, s: S, k: K, v: V) -> Pairs<K, V> {
    if known(m, kc(k)) { put(m, choose|x: (u64, (K, V))| has(m, kc(k), x), v) } else { m.insert((hk(s, kc(k)), (k, v))) }
}
pub open spec fn stored_all<K, V, S>(m: Pairs<K, V>, s: S, l: Seq<(K, V)>) -> Pairs<K, V> decreases l.len() {
    if l.len() == 0 { m } else { stored(stored_all(m, s, l.drop_last()), s, l.last().0, l.last().1) }
}
pub open spec fn stored_some<K, V, S>(m: Pairs<K, V>, s: S, l: Seq<(K, V)>, d: Pairs<K, V>) -> bool { exists|n: int| 0 <= n < l.len() && d == #[trigger] stored_all(m, s, l.take(n)) }
/// what an insertion answers is what stored says
pub proof fn files<K, V, S>(m: Pairs<K, V>, s: S, k: K, v: V)
    requires mapped(m, s)
    ensures without(m, kc(k)) ==> stored(m, s, k, v) == m.insert((hk(s, kc(k)), (k, v))), forall|x: (u64, (K, V))| has(m, kc(k), x) ==> stored(m, s, k, v) == #[trigger] put(m, x, v)
{
    assert forall|x: (u64, (K, V))| has(m, kc(k), x) implies stored(m, s, k, v) == #[trigger] put(m, x, v) by {
        assert(known(m, kc(k)));
        let y = choose|x: (u64, (K, V))| has(m, kc(k), x);
        assert(y == x);
    };
}
pub proof fn files_next<K, V, S>(m: Pairs<K, V>, s: S, l: Seq<(K, V)>, n: int)
    requires 0 <= n < l.len()
    ensures stored_all(m, s, l.take(n + 1)) == stored(stored_all(m, s, l.take(n)), s, l[n].0, l[n].1), l.skip(n)[0] == l[n], l.skip(n).skip(1) == l.skip(n + 1)
{
    assert(l.take(n + 1).drop_last() =~= l.take(n));
    assert(l.skip(n).skip(1) =~= l.skip(n + 1));
}
#[verifier::external_body]
pub fn fresh_builder<S>() -> S { unimplemented!() }
/// Result::unwrap: panics on an error
#[verifier::external_body]
pub fn got<X, R>(r: Result<X, R>) -> (x: X) ensures r == Ok::<X, R>(x) { match r { Ok(x) => x, Err(_) => panic!() } }
/// == of values
pub trait Plain: Sized { fn same(&self, other: &Self) -> (r: bool) ensures r == (kc(*self) == kc(*other)); }
impl Plain for () { fn same(&self, other: &Self) -> (r: bool) { assert(*self == *other); true } }
/// != of options of references
pub fn differ<V: Plain>(a: Option<&V>, b: Option<&V>) -> (r: bool)
    ensures r == match (a, b) { (Some(x), Some(y)) => kc(*x) != kc(*y), (None, None) => false, _ => true }
{ match (a, b) { (Some(x), Some(y)) => !x.same(y), (None, None) => false, _ => true } }
@end
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > where K : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<K: RubyEql<E, G, R> + Hash, V, E, G, R, S: BuildHasher> HashMap<K, V, E, G, R, S>
@fn extend id=HashMap::extend foriter
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(_) => final(self)@ == stored_all(old(self)@, old(self).hash_builder, iter_.rest()),
        Err(x) => stored_some(old(self)@, old(self).hash_builder, iter_.rest(), final(self)@) }
@sub T : IntoIterator < Item = ( K , V ) >> ==> T: Feed<(K, V)>>
@sub iter : T ==> iter_: T
@sub let iter = iter . into_iter ( ) ==> let iter = iter_.into_iter()
@enter
    let ghost l = iter_.rest();
    let ghost m0 = self@;
    let ghost s = self.hash_builder;
    let ghost mut n: int = 0;
@loop 1
    invariant_except_break _it1.rest() == l.skip(n), 0 <= n <= l.len(), self.inv(), self.hash_builder == s, self@ == stored_all(m0, s, l.take(n)), m0 == old(self)@, s == old(self).hash_builder, l == iter_.rest()
    ensures self.inv(), self.hash_builder == s, 0 <= n <= l.len(), l.skip(n).len() == 0, self@ == stored_all(m0, s, l.take(n))
    decreases l.len() - n
@loopenter 1
    proof { files_next(m0, s, l, n); files(self@, s, k, v); }
@loopend 1
    proof { n = n + 1; }
@loopexit 1
    proof { assert(l.take(n) =~= l); }
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > where K : RubyEql < E , G , R > + Hash , S : BuildHasher + Default , => impl<K: RubyEql<E, G, R> + Hash, V, E, G, R, S: BuildHasher> HashMap<K, V, E, G, R, S>
@fn from_iter id=HashMap::from_iter foriter
    ensures r matches Ok(m) ==> m.inv() && m@ == stored_all(Multiset::<(u64, (K, V))>::empty(), m.hash_builder, iter_.rest())
@sub T : IntoIterator < Item = ( K , V ) >> ==> T: Feed<(K, V)>>
@sub iter : T ==> iter_: T
@sub let iter = iter . into_iter ( ) ==> let iter = iter_.into_iter()
@sub S :: default ( ) ==> fresh_builder::<S>()
@enter
    let ghost l = iter_.rest();
    let ghost m0 = Multiset::<(u64, (K, V))>::empty();
    let ghost mut n: int = 0;
@after let mut map = Self :: with_capacity_and_hasher
    let ghost s = map.hash_builder;
@loop 1
    invariant_except_break _it1.rest() == l.skip(n), 0 <= n <= l.len(), map.inv(), map.hash_builder == s, map@ == stored_all(m0, s, l.take(n))
    ensures map.inv(), map.hash_builder == s, 0 <= n <= l.len(), l.skip(n).len() == 0, map@ == stored_all(m0, s, l.take(n))
    decreases l.len() - n
@loopenter 1
    proof { files_next(m0, s, l, n); files(map@, s, k, v); }
@loopend 1
    proof { n = n + 1; }
@loopexit 1
    proof { assert(l.take(n) =~= l); }
@endimpl
@impl impl < K : PartialEq + RubyEql < ( ) , ( ) , ( ) > + Hash , V : PartialEq > PartialEq for HashMap < K , V , ( ) , ( ) , ( ) > => impl<K: RubyEql<(), (), ()> + Hash, V: Plain, S: BuildHasher> HashMap<K, V, (), (), (), S>
@fn eq id=HashMap::eq foriter
    requires self.inv(), other.inv()
    ensures r == same_map(self@, other@)
@sub if Some ( v1 ) != other . get ( k1 , & mut ( ) , & mut ( ) ) . unwrap ( ) ==> if differ(Some(v1), got(other.get(k1, &mut (), &mut ())))
@enter
    let ghost mut was: Pairs<K, V> = Multiset::empty();
@loop 1
    invariant_except_break was == _it1.past(), self.inv(), other.inv(), _it1.ok(), _it1.marker == &self.table.table, self@.len() == other@.len(), forall|x: (u64, (K, V))| #[trigger] _it1.past().contains(x) ==> paired(x, other@)
    ensures forall|x: (u64, (K, V))| #[trigger] self@.contains(x) ==> paired(x, other@), self@.len() == other@.len()
    decreases _it1.left()
@loopenter 1
    let ghost x = choose|x: (u64, (K, V))| steps(was, _it1.past(), self@, x) && (*k1, *v1) == #[trigger] x.1;
@loopend 1
    proof {
        assert(paired(x, other@));
        assert forall|y: (u64, (K, V))| #[trigger] _it1.past().contains(y) implies paired(y, other@) by { if y != x { assert(was.contains(y)); } };
        was = _it1.past();
    }
@endimpl
@item struct Drain
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct IntoIter
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@item struct ExtractIf
@sub , F , ==> ,
@sub f : F ==> f: PairFilter<K, V>
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@verbatim
impl<'a, K, V, E, G, R> Drain<'a, K, V, E, G, R> {
    pub open spec fn ok(&self) -> bool { emptying(self.inner.iter, self.inner.table) }
    pub open spec fn past(&self) -> Pairs<K, V> { past(self.inner.iter, self.inner.table) }
    pub open spec fn all(&self) -> Pairs<K, V> { self.inner.table.content() }
}
impl<K, V> IntoIter<K, V> {
    pub open spec fn ok(&self) -> bool { emptying(self.inner.iter, self.inner.src) }
    pub open spec fn past(&self) -> Pairs<K, V> { past(self.inner.iter, self.inner.src) }
    pub open spec fn all(&self) -> Pairs<K, V> { self.inner.src.content() }
}
/// the hash builder copied: it hashes alike
#[verifier::external_body]
pub fn clone_builder<S>(s: &S) -> (r: S) ensures seed(r) == seed(*s) { unimplemented!() }
#[verifier::external_body]
pub fn clone_builder_from<S>(t: &mut S, s: &S) ensures seed(*final(t)) == seed(*s) { unimplemented!() }
/// copies of keys are equivalent to them
pub open spec fn faithful<K, V>() -> bool { forall|x: (K, V), y: (K, V)| #[trigger] cloned_el(x, y) ==> kc(x.0) == kc(y.0) }
/// d is m with every pair copied
pub open spec fn copy_of<K, V>(m: Pairs<K, V>, d: Pairs<K, V>) -> bool {
    &&& forall|x: (u64, (K, V))| #[trigger] m.contains(x) ==> exists|y: (u64, (K, V))| #[trigger] d.contains(y) && y.0 == x.0 && cloned_el(x.1, y.1)
    &&& forall|y: (u64, (K, V))| #[trigger] d.contains(y) ==> exists|x: (u64, (K, V))| #[trigger] m.contains(x) && y.0 == x.0 && cloned_el(x.1, y.1)
}
pub proof fn copies_map<K, V, S>(a: RawTableInner<(K, V)>, b: RawTableInner<(K, V)>, s: S, u: S)
    requires a.wf(), b.wf(), a.copied(b), mapped(a.content(), s), faithful::<K, V>(), seed(u) == seed(s)
    ensures mapped(b.content(), u), copy_of(a.content(), b.content()), b.content().len() == a.content().len()
{
    let n = a.n();
    keyed_of(a.c(), n, a.els@, s);
    bag_len(a.c(), n, a.els@, 0);
    bag_len(b.c(), n, b.els@, 0);
    assert(b.c() == a.c() && b.n() == n);
    assert(keyed(b.c(), n, b.els@, u)) by {
        assert forall|i: int| 0 <= i < n && full(#[trigger] b.c()[i]) implies b.els@[i].0 == hk(u, kc(b.els@[i].1.0)) by { assert(full(a.c()[i])); };
        assert forall|i: int, j: int| 0 <= i < j < n && full(#[trigger] b.c()[i]) && full(#[trigger] b.c()[j]) implies kc(b.els@[i].1.0) != kc(b.els@[j].1.0) by { assert(full(a.c()[i]) && full(a.c()[j])); };
    };
    mapped_of(b.c(), n, b.els@, u);
    assert forall|x: (u64, (K, V))| #[trigger] a.content().contains(x) implies exists|y: (u64, (K, V))| #[trigger] b.content().contains(y) && y.0 == x.0 && cloned_el(x.1, y.1) by {
        let i = bag_find(a.c(), n, a.els@, x);
        assert(full(a.c()[i]));
        bag_has(b.c(), n, b.els@, 0, i);
        assert(b.content().contains(b.els@[i]));
    };
    assert forall|y: (u64, (K, V))| #[trigger] b.content().contains(y) implies exists|x: (u64, (K, V))| #[trigger] a.content().contains(x) && y.0 == x.0 && cloned_el(x.1, y.1) by {
        let i = bag_find(b.c(), n, b.els@, y);
        assert(full(a.c()[i]));
        bag_has(a.c(), n, a.els@, 0, i);
        assert(a.content().contains(a.els@[i]));
    };
}
@end
@impl impl < K , V , E , G , R > Iterator for Drain < '_ , K , V , E , G , R > => impl<'a, K, V, E, G, R> Drain<'a, K, V, E, G, R>
@fn next id=Drain::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).inner.table == old(self).inner.table, final(self).inner.orig_table == old(self).inner.orig_table, match r {
        Some(p) => exists|x: (u64, (K, V))| #[trigger] steps(past(old(self).inner.iter, old(self).inner.table), past(final(self).inner.iter, old(self).inner.table), old(self).inner.table.content(), x) && x.1 == p,
        None => old(self).past() == old(self).all() }
@fn size_hint id=Drain::size_hint
    requires self.ok()
    ensures r.0 == self.inner.iter.iter.rest(self.inner.table.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V , E , G , R > ExactSizeIterator for Drain < '_ , K , V , E , G , R > => impl<'a, K, V, E, G, R> Drain<'a, K, V, E, G, R>
@fn len id=Drain::len
    requires self.ok()
    ensures r == self.inner.iter.iter.rest(self.inner.table.n())
@endimpl
@impl impl < K , V > Iterator for IntoIter < K , V > => impl<K, V> IntoIter<K, V>
@fn next id=IntoIter::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).inner.src == old(self).inner.src, match r {
        Some(p) => exists|x: (u64, (K, V))| #[trigger] steps(past(old(self).inner.iter, old(self).inner.src), past(final(self).inner.iter, old(self).inner.src), old(self).inner.src.content(), x) && x.1 == p,
        None => old(self).past() == old(self).all() }
@fn size_hint id=IntoIter::size_hint
    requires self.ok()
    ensures r.0 == self.inner.iter.iter.rest(self.inner.src.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn drain id=HashMap::drain
    requires old(self).inv()
    ensures r.ok(), r.all() == old(self)@, r.inner.iter.iter.lo@ == 0, (*r.inner.orig_table).wf(), (*r.inner.orig_table).items == 0, final(self).table.table == *final(r.inner.orig_table), final(self).kin(*old(self))
@endimpl
@impl impl < K , V , E , G , R , S > IntoIterator for HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn into_iter id=HashMap::into_iter
    requires self.inv()
    ensures r.ok(), r.all() == self@, r.inner.iter.iter.lo@ == 0
@endimpl
@impl impl < K , V > ExactSizeIterator for IntoIter < K , V > => impl<K, V> IntoIter<K, V>
@fn len id=IntoIter::len
    requires self.ok()
    ensures r == self.inner.iter.iter.rest(self.inner.src.n())
@endimpl
@item struct IntoKeys
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@impl impl < K , V > Iterator for IntoKeys < K , V > => impl<K, V> IntoKeys<K, V>
@fn next id=IntoKeys::next
    requires old(self).inner.ok()
    ensures final(self).inner.ok(), final(self).inner.inner.src == old(self).inner.inner.src, match r {
        Some(p) => exists|x: (u64, (K, V))| #[trigger] steps(past(old(self).inner.inner.iter, old(self).inner.inner.src), past(final(self).inner.inner.iter, old(self).inner.inner.src), old(self).inner.inner.src.content(), x) && x.1.0 == p,
        None => old(self).inner.past() == old(self).inner.all() }
@closure 1 ((K, V)) -> (o: K)
    ensures o == _a0.0
@fn size_hint id=IntoKeys::size_hint
    requires self.inner.ok()
    ensures r.0 == self.inner.inner.iter.iter.rest(self.inner.inner.src.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V > ExactSizeIterator for IntoKeys < K , V > => impl<K, V> IntoKeys<K, V>
@fn len id=IntoKeys::len
    requires self.inner.ok()
    ensures r == self.inner.inner.iter.iter.rest(self.inner.inner.src.n())
@endimpl
@item struct IntoValues
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@impl impl < K , V > Iterator for IntoValues < K , V > => impl<K, V> IntoValues<K, V>
@fn next id=IntoValues::next
    requires old(self).inner.ok()
    ensures final(self).inner.ok(), final(self).inner.inner.src == old(self).inner.inner.src, match r {
        Some(p) => exists|x: (u64, (K, V))| #[trigger] steps(past(old(self).inner.inner.iter, old(self).inner.inner.src), past(final(self).inner.inner.iter, old(self).inner.inner.src), old(self).inner.inner.src.content(), x) && x.1.1 == p,
        None => old(self).inner.past() == old(self).inner.all() }
@closure 1 ((K, V)) -> (o: V)
    ensures o == _a0.1
@fn size_hint id=IntoValues::size_hint
    requires self.inner.ok()
    ensures r.0 == self.inner.inner.iter.iter.rest(self.inner.inner.src.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V > ExactSizeIterator for IntoValues < K , V > => impl<K, V> IntoValues<K, V>
@fn len id=IntoValues::len
    requires self.inner.ok()
    ensures r == self.inner.inner.iter.iter.rest(self.inner.inner.src.n())
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn into_keys id=HashMap::into_keys
    requires self.inv()
    ensures r.inner.ok(), r.inner.all() == self@, r.inner.inner.iter.iter.lo@ == 0
@fn into_values id=HashMap::into_values
    requires self.inv()
    ensures r.inner.ok(), r.inner.all() == self@, r.inner.inner.iter.iter.lo@ == 0
@endimpl
@verbatim
/// what Default::default of the value type gives
pub uninterp spec fn plain<V>() -> V;
#[verifier::external_body]
pub fn default_value<V>() -> (r: V) ensures r == plain::<V>() { unimplemented!() }
@end
@impl impl < 'a , K , V : Default , E , G , R , S > Entry < 'a , K , V , E , G , R , S > => impl<'a, K, V, E, G, R, S> Entry<'a, K, V, E, G, R, S>
@fn or_default id=Entry::or_default
    requires self.ok()
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        Entry::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        Entry::Vacant(v) => *r == plain::<V>() && final(v.table)@ == (*v.table)@.insert((v.hash, (v.key, *final(r)))) }
@sub Default :: default ( ) ==> default_value()
@endimpl
@impl impl < 'a , 'b , K , Q : ? Sized , V : Default , E , G , R , S > EntryRef < 'a , 'b , K , Q , V , E , G , R , S > => impl<'a, 'b, K, Q, V, E, G, R, S> EntryRef<'a, 'b, K, Q, V, E, G, R, S>
@fn or_default id=EntryRef::or_default
    requires self.ok()
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        EntryRef::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        EntryRef::Vacant(v) => *r == plain::<V>() && added((*v.table)@, final(v.table)@, v.hash, *v.key, *final(r)) }
@sub Default :: default ( ) ==> default_value()
@endimpl
@impl impl < K : Clone , V : Clone , E , G , R , S : Clone > Clone for HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn clone id=HashMap::clone
    requires self.inv(), faithful::<K, V>()
    ensures r.inv(), copy_of(self@, r@), r@.len() == self@.len(), seed(r.hash_builder) == seed(self.hash_builder)
@sub self . hash_builder . clone ( ) ==> clone_builder(&self.hash_builder)
@enter
    proof { assert forall|t: RawTableInner<(K, V)>, u: S| #![trigger self.table.table.copied(t), seed(u)] t.wf() && self.table.table.copied(t) && seed(u) == seed(self.hash_builder) implies mapped(t.content(), u) && copy_of(self@, t.content()) && t.content().len() == self@.len() by { copies_map(self.table.table, t, self.hash_builder, u); }; }
@fn clone_from id=HashMap::clone_from
    requires old(self).inv(), source.inv(), faithful::<K, V>()
    ensures final(self).inv(), copy_of(source@, final(self)@), final(self)@.len() == source@.len(), seed(final(self).hash_builder) == seed(source.hash_builder)
@sub self . hash_builder . clone_from ( & source . hash_builder ) ==> clone_builder_from(&mut self.hash_builder, &source.hash_builder)
@enter
    proof { assert forall|t: RawTableInner<(K, V)>, u: S| #![trigger source.table.table.copied(t), seed(u)] t.wf() && source.table.table.copied(t) && seed(u) == seed(source.hash_builder) implies mapped(t.content(), u) && copy_of(source@, t.content()) && t.content().len() == source@.len() by { copies_map(source.table.table, t, source.hash_builder, u); }; }
@endimpl
@verbatim
/// the closure extract_if hands to the table; its body is proved below
#[verifier::external_body]
pub fn pair_filter<K, V>(f: &mut PairFilter<K, V>) -> (r: Filter<(K, V)>) ensures r.can() == on_pairs(old(f).can()), final(f).can() == old(f).can() { unimplemented!() }
@end
@fn next id=extract_if_closure closure=1
@ctx impl < K , V , F , E , G , R > Iterator for ExtractIf < '_ , K , V , F , E , G , R > where F : FnMut ( & K , & mut V ) -> bool ,
    ensures (on_pairs(old(f).can()))(*old(p_), *final(p_), r)
@head fn extract_answer<K, V>(f: &mut PairFilter<K, V>, p_: &mut (K, V)) -> bool
@sub ( self . f ) ( k , v ) ==> f.ask(k, v)
@impl impl < K , V , F , E , G , R > Iterator for ExtractIf < '_ , K , V , F , E , G , R > where F : FnMut ( & K , & mut V ) -> bool , => impl<'a, K, V, E, G, R> ExtractIf<'a, K, V, E, G, R>
@fn next id=ExtractIf::next
    requires old(self).inner.table.wf(), old(self).inner.iter.ok(old(self).inner.table.table.n()), ahead(old(self).inner.iter.iter.c(), old(self).inner.table.table, old(self).inner.iter.iter.lo@)
    ensures final(self).inner.table.wf(), final(self).inner.iter.ok(final(self).inner.table.table.n()), ahead(final(self).inner.iter.iter.c(), final(self).inner.table.table, final(self).inner.iter.iter.lo@), final(self).f.can() == old(self).f.can(),
        ({ let o = old(self).inner.table.table; let t = final(self).inner.table.table; let a = old(self).inner.iter.iter.lo@; let b = final(self).inner.iter.iter.lo@; let can = on_pairs(old(self).f.can());
            &&& a <= b <= t.n()
            &&& outside(o, t, a, b)
            &&& match r {
                Some(x) => a < b && full(o.c()[b - 1]) && !full(t.c()[b - 1]) && can(o.els@[b - 1].1, x, true) && forall|i: int| a <= i < b - 1 ==> #[trigger] declined(o, t, can, i),
                None => forall|i: int| a <= i < t.n() ==> #[trigger] declined(o, t, can, i) } })
@sub Self :: Item ==> (K, V)
@lift 1 ==> pair_filter(&mut self.f)
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn extract_if id=HashMap::extract_if
    requires old(self).inv()
    ensures *r.inner.table == old(self).table, final(self).table == *final(r.inner.table), final(self).kin(*old(self)), r.f == f, r.inner.iter.ok(old(self).table.table.n()), r.inner.iter.iter.lo@ == 0, ahead(r.inner.iter.iter.c(), old(self).table.table, 0)
@sub < F > ( ==> (
@sub , f : F ) ==> , f: PairFilter<K, V>)
@sub ExtractIf < '_ , K , V , F , E , G , R > ==> ExtractIf<'_, K, V, E, G, R>
@sub where F : FnMut ( & K , & mut V ) -> bool , ==> 
@endimpl
@verbatim
pub mod set {
use super::*;
@end
@file hashbrown/src/set.rs
@item struct HashSet
@sub E = ( ) , G = ( ) , R = ( ) , S = DefaultHashBuilder ==> E, G, R, S
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item struct Iter
@pre
#[verifier::reject_recursive_types(K)]
@item struct IntoIter
@sub map :: ==> super::
@pre
#[verifier::reject_recursive_types(K)]
@item struct Drain
@sub map :: ==> super::
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct OccupiedEntry
@sub map :: ==> super::
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item struct VacantEntry
@sub map :: ==> super::
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item enum Entry
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@verbatim
impl<T, E, G, R, S> HashSet<T, E, G, R, S> {
    pub open spec fn view(&self) -> Pairs<T, ()> { self.map@ }
    pub open spec fn inv(&self) -> bool { self.map.inv() }
    pub open spec fn kin(&self, o: Self) -> bool { self.map.kin(o.map) }
    /// the hash of a value of class c
    pub open spec fn h(&self, c: int) -> u64 { hk(self.map.hash_builder, c) }
}
impl<'a, K> Iter<'a, K> {
    pub open spec fn ok(&self) -> bool { self.iter.ok() }
    pub open spec fn past(&self) -> Pairs<K, ()> { self.iter.inner.past() }
    pub open spec fn of(&self) -> &RawTableInner<(K, ())> { self.iter.inner.marker }
    pub open spec fn left(&self) -> int { self.iter.inner.left() }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
impl<'a, T, E, G, R, S> Entry<'a, T, E, G, R, S> {
    pub open spec fn ok(self) -> bool { match self { Entry::Occupied(o) => o.inner.ok(), Entry::Vacant(v) => v.inner.ok() } }
    pub open spec fn t(self) -> &'a mut HashMap<T, (), E, G, R, S> { match self { Entry::Occupied(o) => o.inner.table, Entry::Vacant(v) => v.inner.table } }
}
@end
@impl impl < 'a , K > Iterator for Iter < 'a , K > => impl<'a, K> Iter<'a, K>
@fn next id=SetIter::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).of() == old(self).of(), match r {
        Some(p) => final(self).left() < old(self).left() && exists|x: (u64, (K, ()))| steps(old(self).past(), final(self).past(), old(self).of().content(), x) && *p == (#[trigger] x.1).0,
        None => old(self).past() == old(self).of().content() }
@fn size_hint id=SetIter::size_hint
    requires self.ok()
    ensures r.0 == self.iter.inner.inner.iter.rest(self.of().n()), r.1 == Some(r.0)
@endimpl
@impl impl < K > ExactSizeIterator for Iter < '_ , K > => impl<'a, K> Iter<'a, K>
@fn len id=SetIter::len
    requires self.ok()
    ensures r == self.iter.inner.inner.iter.rest(self.of().n())
@endimpl
@impl impl < T , E , G , R , S > HashSet < T , E , G , R , S > => impl<T, E, G, R, S> HashSet<T, E, G, R, S>
@fn capacity id=HashSet::capacity
    requires self.inv()
    ensures r == self.map.table.table.items + self.map.table.table.growth_left
@fn iter id=HashSet::iter
    requires self.inv()
    ensures r.ok(), r.of() == &self.map.table.table, r.past() == Multiset::<(u64, (T, ()))>::empty()
@fn len id=HashSet::len
    requires self.inv()
    ensures r == self@.len()
@fn is_empty id=HashSet::is_empty
    requires self.inv()
    ensures r == (self@.len() == 0)
@fn retain id=HashSet::retain
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), forall|x: (u64, (T, ()))| #[trigger] old(self)@.contains(x) ==> sifted(by_value(f.can()), x, final(self)@), forall|y: (u64, (T, ()))| #[trigger] final(self)@.contains(y) ==> stems(by_value(f.can()), y, old(self)@)
@sub < F > ( ==> (
@sub mut f : F ) ==> f: ValueFilter<T>)
@sub where F : FnMut ( & T ) -> bool , ==> 
@lift 1 ==> value_filter(f)
@fn clear id=HashSet::clear
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == Multiset::<(u64, (T, ()))>::empty(), final(self).kin(*old(self))
@fn with_hasher id=HashSet::with_hasher
    ensures r.inv(), r@ == Multiset::<(u64, (T, ()))>::empty(), r.map.hash_builder == hasher
@fn with_capacity_and_hasher id=HashSet::with_capacity_and_hasher
    ensures r.inv(), r@ == Multiset::<(u64, (T, ()))>::empty(), r.map.hash_builder == hasher, r.map.table.table.growth_left >= capacity
@endimpl
@fn retain id=set_retain_closure closure=1
@ctx impl < T , E , G , R , S > HashSet < T , E , G , R , S >
    ensures (by_value(old(f).can()))(*k, (), (), r)
@head fn retain_answer<T>(f: &mut ValueFilter<T>, k: &T, _v: &mut ()) -> bool
@sub f ( k ) ==> f.ask(k)
@impl impl < T , E , G , R , S > HashSet < T , E , G , R , S > where T : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<T: RubyEql<E, G, R> + Hash, E, G, R, S: BuildHasher> HashSet<T, E, G, R, S>
@fn reserve id=HashSet::reserve
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self)), final(self).map.table.table.growth_left >= additional
@fn shrink_to_fit id=HashSet::shrink_to_fit
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self))
@fn shrink_to id=HashSet::shrink_to
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self))
@fn contains id=HashSet::contains
    requires self.inv()
    ensures match r {
        Ok(true) => known(self@, kc(*value)),
        Ok(false) => without(self@, kc(*value)),
        Err(x) => raised(self@, *value, x) }
@fn get id=HashSet::get
    requires self.inv()
    ensures match r {
        Ok(Some(k)) => exists|x: (u64, (T, ()))| has(self@, kc(*value), x) && *k == (#[trigger] x.1).0,
        Ok(None) => without(self@, kc(*value)),
        Err(x) => raised(self@, *value, x) }
@fn get_or_insert id=HashSet::get_or_insert
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(k) => known(old(self)@, kc(value)) && final(self)@ == old(self)@ && has(old(self)@, kc(value), (old(self).h(kc(value)), (*k, ())))
            || without(old(self)@, kc(value)) && *k == value && final(self)@ == old(self)@.insert((old(self).h(kc(value)), (value, ()))),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, value, x) }
@enter
    proof { unit_pairs(self@); }
@sub & bucket . as_ref ( ) . 0 ==> &self.map.table.table.ref_el(bucket.index).0
@before self . map . table . insert_in_slot
    proof { mapped_add(self@, self.map.hash_builder, (hash, (value, ()))); }
@fn get_or_insert_with id=HashSet::get_or_insert_with
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(k) => known(old(self)@, kc(*value)) && final(self)@ == old(self)@ && has(old(self)@, kc(*value), (old(self).h(kc(*value)), (*k, ())))
            || without(old(self)@, kc(*value)) && (f.can())(*value, *k) && kc(*k) == kc(*value) && final(self)@ == old(self)@.insert((old(self).h(kc(*value)), (*k, ()))),
        Err(x) => final(self)@ == old(self)@ && (raised(old(self)@, *value, x) || exists|k: T| (f.can())(*value, k) && #[trigger] may_err(*value, k, x)) }
@sub < Q , F > ==> <Q>
@sub f : F ==> f: Maker<Q, T>
@sub F : FnOnce ( & Q ) -> T , ==> 
@sub f ( value ) ==> f.make(value)
@sub assert ! ( value . equivalent ( & new , e , g ) ? , $a ) ==> let same_ = value.equivalent(&new, e, g)?; insist(same_)
@enter
    proof { unit_pairs(self@); }
@sub & bucket . as_ref ( ) . 0 ==> &self.map.table.table.ref_el(bucket.index).0
@before self . map . table . insert_in_slot
    proof { mapped_add(self@, self.map.hash_builder, (hash, (new, ()))); }
@fn entry id=HashSet::entry
    requires old(self).inv()
    ensures match r {
        Ok(Entry::Occupied(o)) => o.inner.ok() && *o.inner.table == old(self).map && *final(o.inner.table) == final(self).map && has(old(self)@, kc(value), o.inner.cur()),
        Ok(Entry::Vacant(v)) => v.inner.ok() && *v.inner.table == old(self).map && *final(v.inner.table) == final(self).map && v.inner.key == value,
        Err(x) => *final(self) == *old(self) && raised(old(self)@, value, x) }
@sub map :: Entry ==> super::Entry
@fn is_subset id=HashSet::is_subset foriter
    requires self.inv(), other.inv()
    ensures r matches Ok(b) ==> b == within(self@, other@)
@enter
    let ghost mut was: Pairs<T, ()> = Multiset::empty();
    proof { if within(self@, other@) { fits(self@, other@, self.map.hash_builder, other.map.hash_builder); } }
@loop 1
    invariant_except_break was == _it1.past(), self.inv(), other.inv(), _it1.ok(), _it1.of() == &self.map.table.table, forall|x: (u64, (T, ()))| #[trigger] _it1.past().contains(x) ==> known(other@, kc(x.1.0))
    ensures within(self@, other@)
    decreases _it1.left()
@loopenter 1
    let ghost x = choose|x: (u64, (T, ()))| steps(was, _it1.past(), self@, x) && *v == (#[trigger] x.1).0;
    proof { assert(self@.contains(x)); }
@loopend 1
    proof {
        assert forall|y: (u64, (T, ()))| #[trigger] _it1.past().contains(y) implies known(other@, kc(y.1.0)) by { if y != x { assert(was.contains(y)); } };
        was = _it1.past();
    }
@fn is_superset id=HashSet::is_superset
    requires self.inv(), other.inv()
    ensures r matches Ok(b) ==> b == within(other@, self@)
@fn insert id=HashSet::insert
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(true) => without(old(self)@, kc(value)) && final(self)@ == old(self)@.insert((old(self).h(kc(value)), (value, ()))),
        Ok(false) => known(old(self)@, kc(value)) && final(self)@ == old(self)@,
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, value, x) }
@enter
    proof { unit_pairs(self@); }
@fn insert_unique_unchecked id=HashSet::insert_unique_unchecked
    requires old(self).inv(), without(old(self)@, kc(value))
    ensures final(self).inv(), final(self).kin(*old(self)), *r == value, final(self)@ == old(self)@.insert((old(self).h(kc(value)), (value, ())))
@fn replace id=HashSet::replace
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(Some(u)) => { let x = (old(self).h(kc(value)), (u, ())); has(old(self)@, kc(value), x) && final(self)@ == old(self)@.remove(x).insert((x.0, (value, ()))) },
        Ok(None) => without(old(self)@, kc(value)) && final(self)@ == old(self)@.insert((old(self).h(kc(value)), (value, ()))),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, value, x) }
@sub mem :: replace ( unsafe { & mut bucket . as_mut ( ) . 0 } , value ) ==> { let ghost mid = self.map; let was_ = vswap(&mut self.map.table.table.mut_el(bucket.index).0, value); proof { swapped_wf(self.map.table, mid.table, bucket, (value, ())); mapped_key(mid@, mid.hash_builder, mid.table.at(bucket), value); } was_ }
@before self . map . table . insert_in_slot
    proof { mapped_add(self@, self.map.hash_builder, (hash, (value, ()))); }
@fn remove id=HashSet::remove
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(true) => exists|x: (u64, (T, ()))| #[trigger] has(old(self).map@, kc(*value), x) && final(self).map@ == old(self).map@.remove(x),
        Ok(false) => final(self)@ == old(self)@ && without(old(self)@, kc(*value)),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, *value, x) }
@fn take id=HashSet::take
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(Some(u)) => { let x = (old(self).h(kc(*value)), (u, ())); has(old(self)@, kc(*value), x) && final(self)@ == old(self)@.remove(x) },
        Ok(None) => final(self)@ == old(self)@ && without(old(self)@, kc(*value)),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, *value, x) }
@enter
    proof { unit_pairs(self@); }
@endimpl
@impl impl < T , E , G , R , S > RubyEql < E , G , R > for HashSet < T , E , G , R , S > where T : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<T: RubyEql<E, G, R> + Hash, E, G, R, S: BuildHasher> HashSet<T, E, G, R, S>
@fn eql id=HashSet::eql foriter
    requires self.inv(), other.inv()
    ensures r matches Ok(b) ==> b == (self@.len() == other@.len() && within(self@, other@))
@enter
    let ghost mut was: Pairs<T, ()> = Multiset::empty();
@loop 1
    invariant_except_break was == _it1.past(), self.inv(), other.inv(), _it1.ok(), _it1.of() == &self.map.table.table, forall|x: (u64, (T, ()))| #[trigger] _it1.past().contains(x) ==> known(other@, kc(x.1.0))
    ensures within(self@, other@)
    decreases _it1.left()
@loopenter 1
    let ghost x = choose|x: (u64, (T, ()))| steps(was, _it1.past(), self@, x) && *key == (#[trigger] x.1).0;
    proof { assert(self@.contains(x)); }
@loopend 1
    proof {
        assert forall|y: (u64, (T, ()))| #[trigger] _it1.past().contains(y) implies known(other@, kc(y.1.0)) by { if y != x { assert(was.contains(y)); } };
        was = _it1.past();
    }
@endimpl
@impl impl < T , E , G , R , S > HashSet < T , E , G , R , S > where T : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<T: RubyEql<E, G, R> + Hash, E, G, R, S: BuildHasher> HashSet<T, E, G, R, S>
@fn extend id=HashSet::extend
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(_) => final(self)@ == stored_all(old(self)@, old(self).map.hash_builder, paired_with_unit(iter.rest())),
        Err(x) => stored_some(old(self)@, old(self).map.hash_builder, paired_with_unit(iter.rest()), final(self)@) }
@sub I : IntoIterator < Item = T >> ==> I: Feed<T>>
@sub iter . into_iter ( ) . map ( | k | ( k , ( ) ) ) ==> Paired { it: iter.into_iter() }
@endimpl
@impl impl < T , E , G , R , S > HashSet < T , E , G , R , S > where T : RubyEql < E , G , R > + Hash , S : BuildHasher + Default , => impl<T: RubyEql<E, G, R> + Hash, E, G, R, S: BuildHasher> HashSet<T, E, G, R, S>
@fn from_iter id=HashSet::from_iter
    ensures r matches Ok(m) ==> m.inv() && m@ == stored_all(Multiset::<(u64, (T, ()))>::empty(), m.map.hash_builder, paired_with_unit(iter.rest()))
@sub I : IntoIterator < Item = T >> ==> I: Feed<T>>
@sub Default :: default ( ) ==> fresh_builder::<S>()
@endimpl
@impl impl < T : PartialEq + RubyEql < ( ) , ( ) , ( ) > + Hash > PartialEq for HashSet < T , ( ) , ( ) , ( ) > => impl<T: RubyEql<(), (), ()> + Hash, S: BuildHasher> HashSet<T, (), (), (), S>
@fn eq id=HashSet::eq
    requires self.inv(), other.inv()
    ensures r == same_map(self@, other@)
@sub self . map == other . map ==> self.map.eq(&other.map)
@endimpl
@impl impl < T , E , G , R , S > From < HashMap < T , ( ) , E , G , R , S >> for HashSet < T , E , G , R , S > => impl<T, E, G, R, S> HashSet<T, E, G, R, S>
@fn from id=HashSet::from
    requires map.inv()
    ensures r.inv(), r@ == map@
@endimpl
@impl impl < K > Iterator for IntoIter < K > => impl<K> IntoIter<K>
@fn next id=SetIntoIter::next
    requires old(self).iter.ok()
    ensures final(self).iter.ok(), final(self).iter.inner.src == old(self).iter.inner.src, match r {
        Some(k) => exists|x: (u64, (K, ()))| #[trigger] steps(past(old(self).iter.inner.iter, old(self).iter.inner.src), past(final(self).iter.inner.iter, old(self).iter.inner.src), old(self).iter.inner.src.content(), x) && x.1.0 == k,
        None => old(self).iter.past() == old(self).iter.all() }
@fn size_hint id=SetIntoIter::size_hint
    requires self.iter.ok()
    ensures r.0 == self.iter.inner.iter.iter.rest(self.iter.inner.src.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K > ExactSizeIterator for IntoIter < K > => impl<K> IntoIter<K>
@fn len id=SetIntoIter::len
    requires self.iter.ok()
    ensures r == self.iter.inner.iter.iter.rest(self.iter.inner.src.n())
@endimpl
@impl impl < K , E , G , R > Iterator for Drain < '_ , K , E , G , R > => impl<'a, K, E, G, R> Drain<'a, K, E, G, R>
@fn next id=SetDrain::next
    requires old(self).iter.ok()
    ensures final(self).iter.ok(), final(self).iter.inner.table == old(self).iter.inner.table, final(self).iter.inner.orig_table == old(self).iter.inner.orig_table, match r {
        Some(k) => exists|x: (u64, (K, ()))| #[trigger] steps(past(old(self).iter.inner.iter, old(self).iter.inner.table), past(final(self).iter.inner.iter, old(self).iter.inner.table), old(self).iter.inner.table.content(), x) && x.1.0 == k,
        None => old(self).iter.past() == old(self).iter.all() }
@fn size_hint id=SetDrain::size_hint
    requires self.iter.ok()
    ensures r.0 == self.iter.inner.iter.iter.rest(self.iter.inner.table.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , E , G , R > ExactSizeIterator for Drain < '_ , K , E , G , R > => impl<'a, K, E, G, R> Drain<'a, K, E, G, R>
@fn len id=SetDrain::len
    requires self.iter.ok()
    ensures r == self.iter.inner.iter.iter.rest(self.iter.inner.table.n())
@endimpl
@impl impl < T , E , G , R , S > HashSet < T , E , G , R , S > => impl<T, E, G, R, S> HashSet<T, E, G, R, S>
@fn drain id=HashSet::drain
    requires old(self).inv()
    ensures r.iter.ok(), r.iter.all() == old(self)@, r.iter.inner.iter.iter.lo@ == 0, (*r.iter.inner.orig_table).wf(), (*r.iter.inner.orig_table).items == 0, final(self).map.table.table == *final(r.iter.inner.orig_table), final(self).kin(*old(self))
@endimpl
@impl impl < T , E , G , R , S > IntoIterator for HashSet < T , E , G , R , S > => impl<T, E, G, R, S> HashSet<T, E, G, R, S>
@fn into_iter id=HashSet::into_iter
    requires self.inv()
    ensures r.iter.ok(), r.iter.all() == self@, r.iter.inner.iter.iter.lo@ == 0
@endimpl
@impl impl < T : Clone , E , G , R , S : Clone + Clone > Clone for HashSet < T , E , G , R , S > => impl<T, E, G, R, S> HashSet<T, E, G, R, S>
@fn clone id=HashSet::clone
    requires self.inv(), faithful::<T, ()>()
    ensures r.inv(), copy_of(self@, r@), r@.len() == self@.len(), seed(r.map.hash_builder) == seed(self.map.hash_builder)
@fn clone_from id=HashSet::clone_from
    requires old(self).inv(), source.inv(), faithful::<T, ()>()
    ensures final(self).inv(), copy_of(source@, final(self)@), final(self)@.len() == source@.len(), seed(final(self).map.hash_builder) == seed(source.map.hash_builder)
@endimpl
@impl impl < T , E , G , R , S > OccupiedEntry < '_ , T , E , G , R , S > => impl<'a, T, E, G, R, S> OccupiedEntry<'a, T, E, G, R, S>
@fn get id=SetOccupied::get
    requires self.inner.ok()
    ensures *r == self.inner.cur().1.0
@fn remove id=SetOccupied::remove
    requires self.inner.ok()
    ensures r == self.inner.cur().1.0, final(self.inner.table).inv(), final(self.inner.table)@ == (*old(self.inner.table))@.remove(self.inner.cur()), final(self.inner.table).kin(*old(self.inner.table))
@endimpl
@impl impl < 'a , T , E , G , R , S > VacantEntry < 'a , T , E , G , R , S > => impl<'a, T, E, G, R, S> VacantEntry<'a, T, E, G, R, S>
@fn get id=SetVacant::get
    ensures *r == self.inner.key
@fn into_value id=SetVacant::into_value
    ensures r == self.inner.key
@fn insert id=SetVacant::insert
    requires self.inner.ok()
    ensures r.inner.ok(), r.inner.cur() == (self.inner.hash, (self.inner.key, ())), r.inner.table@ == (*old(self.inner.table))@.insert(r.inner.cur()), *final(r.inner.table) == *final(self.inner.table), r.inner.table.kin(*old(self.inner.table))
@endimpl
@impl impl < 'a , T , E , G , R , S > Entry < 'a , T , E , G , R , S > => impl<'a, T, E, G, R, S> Entry<'a, T, E, G, R, S>
@fn insert id=SetEntry::insert
    requires self.ok()
    ensures match self {
        Entry::Occupied(o) => r == o,
        Entry::Vacant(v) => r.inner.ok() && r.inner.cur() == (v.inner.hash, (v.inner.key, ())) && r.inner.table@ == (*v.inner.table)@.insert(r.inner.cur()) && *final(r.inner.table) == *final(v.inner.table) && r.inner.table.kin(*v.inner.table) }
@fn or_insert id=SetEntry::or_insert
    requires self.ok()
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        Entry::Occupied(o) => *final(o.inner.table) == *o.inner.table,
        Entry::Vacant(v) => final(v.inner.table)@ == (*v.inner.table)@.insert((v.inner.hash, (v.inner.key, ()))) }
@fn get id=SetEntry::get
    requires self.ok()
    ensures *r == match *self { Entry::Occupied(o) => o.inner.cur().1.0, Entry::Vacant(v) => v.inner.key }
@sub match * self ==> match self
@sub Entry :: Occupied ( ref entry ) ==> Entry::Occupied(entry)
@sub Entry :: Vacant ( ref entry ) ==> Entry::Vacant(entry)
@endimpl
@verbatim
}
@end
