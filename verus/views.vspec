// Ranges and slice views: rubymap/src/util.rs, rubymap/src/map/slice.rs, rubymap/src/set/slice.rs
@include std_assumed.inc
@verbatim
use core::ops::Range;
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
/// the standard range forms: a start and an end bound
pub trait RangeBounds<T> {
    spec fn lo(&self) -> Bound<T>;
    spec fn hi(&self) -> Bound<T>;
    fn start_bound(&self) -> (r: Bound<&T>) ensures match (r, self.lo()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
    fn end_bound(&self) -> (r: Bound<&T>) ensures match (r, self.hi()) { (Bound::Included(a), Bound::Included(b)) => *a == b, (Bound::Excluded(a), Bound::Excluded(b)) => *a == b, (Bound::Unbounded, Bound::Unbounded) => true, _ => false };
}
/// the positions meant: from first(r) up to but not including past(r, len)
pub open spec fn first<R: RangeBounds<usize>>(r: R) -> int { match r.lo() { Bound::Included(i) => i as int, Bound::Excluded(i) => i + 1, Bound::Unbounded => 0 } }
pub open spec fn past<R: RangeBounds<usize>>(r: R, len: usize) -> int { match r.hi() { Bound::Included(i) => i + 1, Bound::Excluded(i) => i as int, Bound::Unbounded => len as int } }
pub open spec fn in_range<R: RangeBounds<usize>>(r: R, len: usize) -> bool { first(r) <= past(r, len) <= len }
/// a panic is a refusal: it must not happen to a valid request
#[verifier::external_body]
pub fn vrefuse(Ghost(refused): Ghost<bool>) -> ! requires refused { panic!() }
@end
@file rubymap/src/util.rs
@fn third
    ensures r == t.2
@fn simplify_range refpats
    ensures in_range(range, len), r.start == first(range), r.end == past(range, len)
@sub panic ! ( $a ) ==> vrefuse(Ghost(!in_range(range, len)))
@fn try_simplify_range refpats
    ensures r is Some == in_range(range, len), r matches Some(x) ==> x.start == first(range) && x.end == past(range, len)
@fn slice_eq
    requires forall|a: &T, b: &U| #[trigger] eq.requires((a, b)),
    ensures r ==> left@.len() == right@.len() && forall|i: int| 0 <= i < left@.len() ==> eq.ensures((&#[trigger] left@[i], &right@[i]), true),
        !r ==> left@.len() != right@.len() || exists|i: int| 0 <= i < left@.len() && eq.ensures((&#[trigger] left@[i], &right@[i]), false),
@loop 1
    invariant left@.len() == right@.len(), forall|a: &T, b: &U| #[trigger] eq.requires((a, b)), forall|j: int| 0 <= j < i ==> eq.ensures((&#[trigger] left@[j], &right@[j]), true),
@file rubymap/src/lib.rs
@item struct HashValue
@pre
#[derive(Clone, Copy)]
@item struct Bucket
@impl impl<K, V> Bucket<K, V>
@fn refs
    ensures *r.0 == self.key, *r.1 == self.value
@fn ref_mut
    ensures *r.0 == old(self).key, *r.1 == old(self).value, final(self).hash == old(self).hash, final(self).key == old(self).key, final(self).value == *final(r.1)
@fn key_ref
    ensures *r == self.key
@fn value_ref
    ensures *r == self.value
@fn value_mut
    ensures *r == old(self).value, final(self).hash == old(self).hash, final(self).key == old(self).key, final(self).value == *final(r)
@fn key
    ensures r == self.key
@fn value
    ensures r == self.value
@fn key_value
    ensures r.0 == self.key, r.1 == self.value
@endimpl
@item enum GetDisjointMutError
@verbatim
pub struct Slice<K, V> { pub entries: [Bucket<K, V>] }
pub open spec fn with_value<K, V>(b: Bucket<K, V>, v: V) -> Bucket<K, V> { Bucket { hash: b.hash, key: b.key, value: v } }
/// the transparent wrapper around a slice
impl<K, V> Slice<K, V> {
    pub open spec fn es(&self) -> Seq<Bucket<K, V>> { self.entries@ }
    #[verifier::external_body]
    pub fn from_slice(entries: &[Bucket<K, V>]) -> (r: &Self) ensures r.es() == entries@ { unsafe { &*(entries as *const [Bucket<K, V>] as *const Self) } }
    #[verifier::external_body]
    pub fn from_mut_slice(entries: &mut [Bucket<K, V>]) -> (r: &mut Self) ensures r.es() == old(entries)@, final(r).es() == final(entries)@ { unsafe { &mut *(entries as *mut [Bucket<K, V>] as *mut Self) } }
}
/// the references handed out for checked positions: each needs its own, existing entry
#[verifier::external_body]
pub fn vpick<K, V, const N: usize>(s: &mut Slice<K, V>, indices: [Option<usize>; N]) -> [Option<(&K, &mut V)>; N]
    requires forall|i: int| 0 <= i < N && (#[trigger] indices@[i]) is Some ==> indices@[i]->Some_0 < old(s).es().len(),
        forall|i: int, j: int| 0 <= i < j < N && (#[trigger] indices@[i]) is Some && (#[trigger] indices@[j]) is Some ==> indices@[i] != indices@[j]
{ unimplemented!() }
#[verifier::external_body]
pub fn vhas<const N: usize>(a: &[Option<usize>; N], n: usize, x: &Option<usize>) -> (r: bool)
    requires n <= N
    ensures r == exists|j: int| 0 <= j < n && #[trigger] a@[j] == *x
{ a[..n].contains(x) }
@end
@file rubymap/src/map/slice.rs
@impl impl<K, V> Slice<K, V>
@fn len
    ensures r == self.es().len()
@fn is_empty
    ensures r == (self.es().len() == 0)
@fn get_index
    ensures index < self.es().len() ==> r is Some && *r->Some_0.0 == self.es()[index as int].key && *r->Some_0.1 == self.es()[index as int].value, index >= self.es().len() ==> r is None
@fn get_index_mut
    ensures index >= old(self).es().len() ==> r is None && final(self).es() == old(self).es(),
        index < old(self).es().len() ==> r is Some && *r->Some_0.0 == old(self).es()[index as int].key && *r->Some_0.1 == old(self).es()[index as int].value
            && final(self).es() =~= old(self).es().update(index as int, with_value(old(self).es()[index as int], *final(r->Some_0.1))),
@fn get_range
    ensures r is Some == in_range(range, self.es().len() as usize), r matches Some(s) ==> s.es() =~= self.es().subrange(first(range), past(range, self.es().len() as usize))
@fn first
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0.0 == self.es()[0].key && *r->Some_0.1 == self.es()[0].value, self.es().len() == 0 ==> r is None
@fn last
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0.0 == self.es().last().key && *r->Some_0.1 == self.es().last().value, self.es().len() == 0 ==> r is None
@fn split_at
    requires index <= self.es().len()
    ensures r.0.es() =~= self.es().subrange(0, index as int), r.1.es() =~= self.es().subrange(index as int, self.es().len() as int)
@fn get_range_mut
    ensures r is Some == in_range(range, old(self).es().len() as usize), r is None ==> final(self).es() == old(self).es(),
        r matches Some(s) ==> s.es() =~= old(self).es().subrange(first(range), past(range, old(self).es().len() as usize))
            && final(self).es() =~= old(self).es().subrange(0, first(range)) + final(s).es() + old(self).es().subrange(past(range, old(self).es().len() as usize), old(self).es().len() as int),
@fn first_mut
    ensures old(self).es().len() == 0 ==> r is None && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && *r->Some_0.0 == old(self).es()[0].key && *r->Some_0.1 == old(self).es()[0].value && final(self).es() =~= old(self).es().update(0, with_value(old(self).es()[0], *final(r->Some_0.1))),
@fn last_mut
    ensures old(self).es().len() == 0 ==> r is None && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && *r->Some_0.0 == old(self).es().last().key && *r->Some_0.1 == old(self).es().last().value
            && final(self).es() =~= old(self).es().update(old(self).es().len() - 1, with_value(old(self).es().last(), *final(r->Some_0.1))),
@fn split_at_mut
    requires index <= old(self).es().len()
    ensures r.0.es() =~= old(self).es().subrange(0, index as int), r.1.es() =~= old(self).es().subrange(index as int, old(self).es().len() as int), final(self).es() =~= final(r.0).es() + final(r.1).es()
@fn get_disjoint_opt_mut
    ensures
        r is Ok ==> forall|i: int| 0 <= i < N && (#[trigger] indices@[i]) is Some ==> indices@[i]->Some_0 < old(self).es().len(),
        r is Ok ==> forall|i: int, j: int| 0 <= i < j < N && (#[trigger] indices@[i]) is Some && (#[trigger] indices@[j]) is Some ==> indices@[i] != indices@[j],
        r matches Err(GetDisjointMutError::IndexOutOfBounds) ==> exists|i: int| 0 <= i < N && (#[trigger] indices@[i]) is Some && indices@[i]->Some_0 >= old(self).es().len(),
        r matches Err(GetDisjointMutError::OverlappingIndices) ==> exists|i: int, j: int| 0 <= i < j < N && (#[trigger] indices@[i]) is Some && (#[trigger] indices@[j]) == indices@[i],
@sub let entries_ptr = self . entries . as_mut_ptr ( ) ; let out = indices . map ( $a ) ; Ok ( out ) ==> Ok(vpick(self, indices))
@sub indices [ .. i ] . contains ( $a ) ==> vhas(&indices, i, $a)
@loop 1
    invariant len == self.es().len(), self.es() == old(self).es(),
        forall|k: int| 0 <= k < i && (#[trigger] indices@[k]) is Some ==> indices@[k]->Some_0 < old(self).es().len(),
        forall|k: int, j: int| 0 <= k < j < i && (#[trigger] indices@[k]) is Some && (#[trigger] indices@[j]) is Some ==> indices@[k] != indices@[j],
@endimpl
@impl impl<K, V> Index<usize> for Slice<K, V> => impl<K, V> Slice<K, V>
@fn index
    requires index < self.es().len()
    ensures *r == self.es()[index as int].value
@endimpl
@impl impl<K, V> IndexMut<usize> for Slice<K, V> => impl<K, V> Slice<K, V>
@fn index_mut
    requires index < old(self).es().len()
    ensures *r == old(self).es()[index as int].value, final(self).es() =~= old(self).es().update(index as int, with_value(old(self).es()[index as int], *final(r)))
@endimpl
@verbatim
/// any owner of a list of entries
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct RubyMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K, V> RubyMap<K, V> {
    pub uninterp spec fn es(&self) -> Seq<Bucket<K, V>>;
    #[verifier::external_body]
    pub fn as_entries(&self) -> (r: &[Bucket<K, V>]) ensures r@ == self.es() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_entries_mut(&mut self) -> (r: &mut [Bucket<K, V>]) ensures r@ == old(self).es(), final(r)@ == final(self).es() { unimplemented!() }
}
@end
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn as_slice id=Map::as_slice
    ensures r.es() == self.es()
@fn as_mut_slice id=Map::as_mut_slice
    ensures r.es() == old(self).es(), final(r).es() == final(self).es()
@fn get_range id=Map::get_range
    ensures r is Some == in_range(range, self.es().len() as usize), r matches Some(s) ==> s.es() =~= self.es().subrange(first(range), past(range, self.es().len() as usize))
@fn get_range_mut id=Map::get_range_mut
    ensures r is Some == in_range(range, old(self).es().len() as usize), r is None ==> final(self).es() == old(self).es(),
        r matches Some(s) ==> s.es() =~= old(self).es().subrange(first(range), past(range, old(self).es().len() as usize))
            && final(self).es() =~= old(self).es().subrange(0, first(range)) + final(s).es() + old(self).es().subrange(past(range, old(self).es().len() as usize), old(self).es().len() as int),
@fn first_mut id=Map::first_mut
    ensures old(self).es().len() == 0 ==> r is None && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && *r->Some_0.0 == old(self).es()[0].key && *r->Some_0.1 == old(self).es()[0].value && final(self).es() =~= old(self).es().update(0, with_value(old(self).es()[0], *final(r->Some_0.1))),
@fn last_mut id=Map::last_mut
    ensures old(self).es().len() == 0 ==> r is None && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && *r->Some_0.0 == old(self).es().last().key && *r->Some_0.1 == old(self).es().last().value
            && final(self).es() =~= old(self).es().update(old(self).es().len() - 1, with_value(old(self).es().last(), *final(r->Some_0.1))),
@endimpl
@verbatim
pub struct SetSlice<T> { pub entries: [Bucket<T, ()>] }
impl<T> SetSlice<T> {
    pub open spec fn es(&self) -> Seq<Bucket<T, ()>> { self.entries@ }
    #[verifier::external_body]
    pub fn from_slice(entries: &[Bucket<T, ()>]) -> (r: &Self) ensures r.es() == entries@ { unsafe { &*(entries as *const [Bucket<T, ()>] as *const Self) } }
}
@end
@file rubymap/src/set/slice.rs
@impl impl<T> Slice<T> => impl<T> SetSlice<T>
@fn len id=SetSlice::len
    ensures r == self.es().len()
@fn is_empty id=SetSlice::is_empty
    ensures r == (self.es().len() == 0)
@fn get_index id=SetSlice::get_index
    ensures index < self.es().len() ==> r is Some && *r->Some_0 == self.es()[index as int].key, index >= self.es().len() ==> r is None
@fn get_range id=SetSlice::get_range
    ensures r is Some == in_range(range, self.es().len() as usize), r matches Some(s) ==> s.es() =~= self.es().subrange(first(range), past(range, self.es().len() as usize))
@fn first id=SetSlice::first
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0 == self.es()[0].key, self.es().len() == 0 ==> r is None
@fn last id=SetSlice::last
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0 == self.es().last().key, self.es().len() == 0 ==> r is None
@fn split_at id=SetSlice::split_at
    requires index <= self.es().len()
    ensures r.0.es() =~= self.es().subrange(0, index as int), r.1.es() =~= self.es().subrange(index as int, self.es().len() as int)
@endimpl
@verbatim
use core::cmp::Ordering;
/// what a binary search for c answers: a position of an equal element, or the only place for one when the list is in order for c
pub open spec fn searched<T>(s: Seq<T>, r: Result<usize, usize>, c: spec_fn(T) -> Ordering) -> bool {
    match r {
        Ok(i) => i < s.len() && c(s[i as int]) == Ordering::Equal,
        Err(i) => i <= s.len() && (rising(s, c) ==> forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> c(s[j]) == (if j < i { Ordering::Less } else { Ordering::Greater })),
    }
}
pub open spec fn rising<T>(s: Seq<T>, c: spec_fn(T) -> Ordering) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> c(s[i]) == Ordering::Less || c(s[j]) == Ordering::Greater || (c(s[i]) == Ordering::Equal && c(s[j]) == Ordering::Equal)
}
/// r splits the list into the elements with p and those without, when there is such a place
pub open spec fn parted<T>(s: Seq<T>, r: int, p: spec_fn(T) -> bool) -> bool {
    0 <= r <= s.len() && ((forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && p(s[j]) ==> p(s[i])) ==> forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> p(s[j]) == (j < r))
}
/// the answers of f are those of c
pub open spec fn gives<T, B, F: Fn(&T) -> B>(f: F, c: spec_fn(T) -> B) -> bool { forall|a: &T, o: B| #[trigger] f.ensures((a,), o) ==> o == c(*a) }
pub open spec fn gives_pair<K, V, B, F: Fn(&K, &V) -> B>(f: F, c: spec_fn(K, V) -> B) -> bool { forall|a: &K, b: &V, o: B| #[trigger] f.ensures((a, b), o) ==> o == c(*a, *b) }
pub open spec fn on_pair<K, V, B>(c: spec_fn(K, V) -> B) -> spec_fn(Bucket<K, V>) -> B { |b: Bucket<K, V>| c(b.key, b.value) }
pub open spec fn on_key<T, B>(c: spec_fn(T) -> B) -> spec_fn(Bucket<T, ()>) -> B { |b: Bucket<T, ()>| c(b.key) }
/// Ord
pub trait Ranked: Sized {
    spec fn rank(&self, other: &Self) -> Ordering;
    fn cmp(&self, other: &Self) -> (r: Ordering) ensures r == self.rank(other);
}
pub open spec fn keyed_against<K: Ranked, V>(x: K) -> spec_fn(Bucket<K, V>) -> Ordering { |b: Bucket<K, V>| b.key.rank(&x) }
pub open spec fn made_against<T, B: Ranked>(k: spec_fn(T) -> B, x: B) -> spec_fn(T) -> Ordering { |b: T| k(b).rank(&x) }
pub open spec fn rank_pair<K: Ranked, V>(x: K) -> spec_fn(K, V) -> Ordering { |k: K, v: V| k.rank(&x) }
pub open spec fn rank_one<K: Ranked>(x: K) -> spec_fn(K) -> Ordering { |k: K| k.rank(&x) }
pub open spec fn made_pair<K, V, B: Ranked>(c: spec_fn(K, V) -> B, x: B) -> spec_fn(K, V) -> Ordering { |k: K, v: V| c(k, v).rank(&x) }
#[verifier::external_body]
pub fn slice_binary_search_by<T, F: Fn(&T) -> Ordering>(s: &[T], f: F) -> (r: Result<usize, usize>)
    requires forall|a: &T| #[trigger] f.requires((a,))
    ensures forall|c: spec_fn(T) -> Ordering| #[trigger] gives(f, c) ==> searched(s@, r, c)
{ s.binary_search_by(f) }
#[verifier::external_body]
pub fn slice_partition_point<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: usize)
    requires forall|a: &T| #[trigger] f.requires((a,))
    ensures forall|c: spec_fn(T) -> bool| #[trigger] gives(f, c) ==> parted(s@, r as int, c)
{ s.partition_point(f) }
@end
@file rubymap/src/map/slice.rs
@impl impl<K, V> Slice<K, V>
@fn binary_search_keys id=Slice::binary_search_keys
    ensures searched(self.es(), r, keyed_against::<K, V>(*x))
@sub K : Ord ==> K: Ranked
@sub | p , _ | ==> | p , u_ |
@sub self . binary_search_by ( $c ) ==> let f_ = $c; let r_ = self.binary_search_by(f_); proof { let c = rank_pair::<K, V>(*x); assert(gives_pair(f_, c)); assert(on_pair(c) =~= keyed_against::<K, V>(*x)); } r_
@closure 1 (&K, &V) -> (o: Ordering)
    ensures o == p.rank(x)
@fn binary_search_by id=Slice::binary_search_by
    requires forall|k: &K, v: &V| #[trigger] f.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> Ordering| #[trigger] gives_pair(f, c) ==> searched(self.es(), r, on_pair(c))
@sub FnMut ( & 'a K , & 'a V ) -> Ordering ==> Fn(&K, &V) -> Ordering + Copy
@sub mut f : F ==> f: F
@sub self . entries . binary_search_by ( $c ) ==> let f_ = $c; let r_ = slice_binary_search_by(&self.entries, f_); proof { assert forall|c: spec_fn(K, V) -> Ordering| #[trigger] gives_pair(f, c) implies searched(self.es(), r_, on_pair(c)) by { assert(gives(f_, on_pair(c))); }; } r_
@closure 1 (&Bucket<K, V>) -> (o: Ordering)
    ensures f.ensures((&a.key, &a.value), o)
@fn binary_search_by_key id=Slice::binary_search_by_key
    requires forall|k: &K, v: &V| #[trigger] f.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> B| #[trigger] gives_pair(f, c) ==> searched(self.es(), r, made_against(on_pair(c), *b))
@sub B : Ord ==> B: Ranked
@sub FnMut ( & 'a K , & 'a V ) -> B ==> Fn(&K, &V) -> B + Copy
@sub mut f : F ==> f: F
@sub self . binary_search_by ( $c ) ==> let f_ = $c; let r_ = self.binary_search_by(f_); proof { assert forall|c: spec_fn(K, V) -> B| #[trigger] gives_pair(f, c) implies searched(self.es(), r_, made_against(on_pair(c), *b)) by { let d = made_pair(c, *b); assert(gives_pair(f_, d)); assert(on_pair(d) =~= made_against(on_pair(c), *b)); }; } r_
@closure 1 (&K, &V) -> (o: Ordering)
    ensures exists|m: B| #[trigger] f.ensures((k, v), m) && o == m.rank(b)
@fn partition_point id=Slice::partition_point
    requires forall|k: &K, v: &V| #[trigger] pred.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> bool| #[trigger] gives_pair(pred, c) ==> parted(self.es(), r as int, on_pair(c))
@sub P : FnMut ( & K , & V ) -> bool ==> P: Fn(&K, &V) -> bool + Copy
@sub mut pred : P ==> pred: P
@sub self . entries . partition_point ( $c ) ==> let f_ = $c; let r_ = slice_partition_point(&self.entries, f_); proof { assert forall|c: spec_fn(K, V) -> bool| #[trigger] gives_pair(pred, c) implies parted(self.es(), r_ as int, on_pair(c)) by { assert(gives(f_, on_pair(c))); }; } r_
@closure 1 (&Bucket<K, V>) -> (o: bool)
    ensures pred.ensures((&a.key, &a.value), o)
@endimpl
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn binary_search_keys id=Map::binary_search_keys
    ensures searched(self.es(), r, keyed_against::<K, V>(*x))
@sub K : Ord ==> K: Ranked
@fn binary_search_by id=Map::binary_search_by
    requires forall|k: &K, v: &V| #[trigger] f.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> Ordering| #[trigger] gives_pair(f, c) ==> searched(self.es(), r, on_pair(c))
@sub FnMut ( & 'a K , & 'a V ) -> Ordering ==> Fn(&K, &V) -> Ordering + Copy
@fn binary_search_by_key id=Map::binary_search_by_key
    requires forall|k: &K, v: &V| #[trigger] f.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> B| #[trigger] gives_pair(f, c) ==> searched(self.es(), r, made_against(on_pair(c), *b))
@sub B : Ord ==> B: Ranked
@sub FnMut ( & 'a K , & 'a V ) -> B ==> Fn(&K, &V) -> B + Copy
@fn partition_point id=Map::partition_point
    requires forall|k: &K, v: &V| #[trigger] pred.requires((k, v))
    ensures forall|c: spec_fn(K, V) -> bool| #[trigger] gives_pair(pred, c) ==> parted(self.es(), r as int, on_pair(c))
@sub P : FnMut ( & K , & V ) -> bool ==> P: Fn(&K, &V) -> bool + Copy
@endimpl
@file rubymap/src/set/slice.rs
@impl impl<T> Slice<T> => impl<T> SetSlice<T>
@fn binary_search id=SetSlice::binary_search
    ensures searched(self.es(), r, keyed_against::<T, ()>(*x))
@sub T : Ord ==> T: Ranked
@sub self . binary_search_by ( $c ) ==> let f_ = $c; let r_ = self.binary_search_by(f_); proof { let c = rank_one::<T>(*x); assert(gives(f_, c)); assert(on_key(c) =~= keyed_against::<T, ()>(*x)); } r_
@closure 1 (&T) -> (o: Ordering)
    ensures o == p.rank(x)
@fn binary_search_by id=SetSlice::binary_search_by
    requires forall|k: &T| #[trigger] f.requires((k,))
    ensures forall|c: spec_fn(T) -> Ordering| #[trigger] gives(f, c) ==> searched(self.es(), r, on_key(c))
@sub FnMut ( & 'a T ) -> Ordering ==> Fn(&T) -> Ordering + Copy
@sub mut f : F ==> f: F
@sub self . entries . binary_search_by ( $c ) ==> let f_ = $c; let r_ = slice_binary_search_by(&self.entries, f_); proof { assert forall|c: spec_fn(T) -> Ordering| #[trigger] gives(f, c) implies searched(self.es(), r_, on_key(c)) by { assert(gives(f_, on_key(c))); }; } r_
@closure 1 (&Bucket<T, ()>) -> (o: Ordering)
    ensures f.ensures((&a.key,), o)
@fn binary_search_by_key id=SetSlice::binary_search_by_key
    requires forall|k: &T| #[trigger] f.requires((k,))
    ensures forall|c: spec_fn(T) -> B| #[trigger] gives(f, c) ==> searched(self.es(), r, made_against(on_key(c), *b))
@sub B : Ord ==> B: Ranked
@sub FnMut ( & 'a T ) -> B ==> Fn(&T) -> B + Copy
@sub mut f : F ==> f: F
@sub self . binary_search_by ( $c ) ==> let f_ = $c; let r_ = self.binary_search_by(f_); proof { assert forall|c: spec_fn(T) -> B| #[trigger] gives(f, c) implies searched(self.es(), r_, made_against(on_key(c), *b)) by { let d = made_against(c, *b); assert(gives(f_, d)); assert(on_key(d) =~= made_against(on_key(c), *b)); }; } r_
@closure 1 (&T) -> (o: Ordering)
    ensures exists|m: B| #[trigger] f.ensures((k,), m) && o == m.rank(b)
@fn partition_point id=SetSlice::partition_point
    requires forall|k: &T| #[trigger] pred.requires((k,))
    ensures forall|c: spec_fn(T) -> bool| #[trigger] gives(pred, c) ==> parted(self.es(), r as int, on_key(c))
@sub P : FnMut ( & T ) -> bool ==> P: Fn(&T) -> bool + Copy
@sub mut pred : P ==> pred: P
@sub self . entries . partition_point ( $c ) ==> let f_ = $c; let r_ = slice_partition_point(&self.entries, f_); proof { assert forall|c: spec_fn(T) -> bool| #[trigger] gives(pred, c) implies parted(self.es(), r_ as int, on_key(c)) by { assert(gives(f_, on_key(c))); }; } r_
@closure 1 (&Bucket<T, ()>) -> (o: bool)
    ensures pred.ensures((&a.key,), o)
@endimpl
