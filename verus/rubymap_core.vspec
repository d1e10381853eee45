// Ordered map core: rubymap/src/map/core.rs
@include std_assumed.inc
@include hash_table.inc
@gsub hash_table :: HashTable ==> HashTable
@gsub hash_table :: Entry ==> HEntry
@gsub hash_table :: OccupiedEntry ==> HOccupied
@gsub K : RubyEql < E , G , R > ==> K : Equivalent<K, E, G, R>
@verbatim
pub trait Equivalent<K: ?Sized, E, G, R> {
    spec fn eqv(&self, key: &K) -> bool;
    fn equivalent(&self, key: &K, e: &mut E, g: &mut G) -> (r: Result<bool, R>)
        ensures r matches Ok(b) ==> b == self.eqv(key);
}
@end
@file rubymap/src/lib.rs
@item struct HashValue
@pre
#[derive(Clone, Copy)]
@item struct Bucket
@verbatim
impl PartialEqSpecImpl for HashValue {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &HashValue) -> bool { self.0 == other.0 }
}
impl PartialEq for HashValue {
    fn eq(&self, other: &HashValue) -> (r: bool) { self.0 == other.0 }
}
@end
@verbatim
pub mod el {
use vstd::prelude::*;
use super::tl::*;
use super::fl::*;
use super::{Bucket, HashValue};
pub open spec fn hv(h: HashValue) -> u64 { h.0 as u64 }
/// the hash stored for every entry position
pub open spec fn emap<K, V>(es: Seq<Bucket<K, V>>) -> IMap<int, u64> {
    IMap::new(|i: int| 0 <= i < es.len(), |i: int| hv(es[i].hash))
}
/// slots produced by filing `es` at positions n, n+1, ...
pub open spec fn bulk<K, V>(n: int, es: Seq<Bucket<K, V>>) -> Seq<(u64, usize)> {
    Seq::new(es.len(), |j: int| (hv(es[j].hash), (n + j) as usize))
}
pub broadcast proof fn bulk_cm<K, V>(n: int, es: Seq<Bucket<K, V>>)
    requires es.len() <= usize::MAX, n == 0
    ensures tok(#[trigger] bulk(n, es)), cm(bulk(n, es)) == emap(es)
{
    let s = bulk(0, es);
    assert forall|i: int| #[trigger] emap(es).dom().contains(i) implies has_slot(s, i) by { assert(s[i].1 == i); }
    cm_is(s, emap(es));
}
pub broadcast proof fn emap_at<K, V>(es: Seq<Bucket<K, V>>, i: int)
    requires 0 <= i < es.len()
    ensures #![trigger emap(es), es[i]] emap(es).dom().contains(i), emap(es)[i] == hv(es[i].hash)
{}
pub broadcast proof fn emap_push<K, V>(es: Seq<Bucket<K, V>>, b: Bucket<K, V>)
    ensures #[trigger] emap(es.push(b)) == emap(es).insert(es.len() as int, hv(b.hash))
{ assert(emap(es.push(b)) =~= emap(es).insert(es.len() as int, hv(b.hash))); }
pub broadcast proof fn emap_update<K, V>(es: Seq<Bucket<K, V>>, i: int, b: Bucket<K, V>)
    requires 0 <= i < es.len(), b.hash == es[i].hash
    ensures #[trigger] emap(es.update(i, b)) == emap(es)
{ assert(emap(es.update(i, b)) =~= emap(es)); }
/// a vector of buckets (at least eight bytes each) cannot have more elements than fit an allocation
#[verifier::external_body]
pub broadcast proof fn bucket_vec_len<K, V>(v: Vec<Bucket<K, V>>)
    ensures #[trigger] v@.len() <= isize::MAX / 8
{ }
/// positions a..b moved down by one; position a-1 is free before, b-1 after
pub open spec fn dec_map(m: IMap<int, u64>, a: int, b: int) -> IMap<int, u64> {
    IMap::new(|i: int| if a - 1 <= i < b - 1 { m.dom().contains(i + 1) } else if i == b - 1 { false } else { m.dom().contains(i) },
        |i: int| if a - 1 <= i < b - 1 { m[i + 1] } else { m[i] })
}
/// positions a..b moved up by one; position b is free before, a after
pub open spec fn inc_map(m: IMap<int, u64>, a: int, b: int) -> IMap<int, u64> {
    IMap::new(|i: int| if a + 1 <= i < b + 1 { m.dom().contains(i - 1) } else if i == a { false } else { m.dom().contains(i) },
        |i: int| if a + 1 <= i < b + 1 { m[i - 1] } else { m[i] })
}
/// what the renumbering of a moved entry does to the index
pub broadcast proof fn emap_moved<K, V>(es: Seq<Bucket<K, V>>, from: int, to: int)
    requires 0 <= from < es.len(), 0 <= to < es.len(), es.len() < usize::MAX
    ensures
        from < to ==> #[trigger] emap(moved_seq(es, from, to)) == moved(dec_map(moved(emap(es), from, usize::MAX as int), from + 1, to + 1), usize::MAX as int, to),
        from > to ==> emap(moved_seq(es, from, to)) == moved(inc_map(moved(emap(es), from, usize::MAX as int), to, from), usize::MAX as int, to),
{
    if from < to { assert(emap(moved_seq(es, from, to)) =~= moved(dec_map(moved(emap(es), from, usize::MAX as int), from + 1, to + 1), usize::MAX as int, to)); }
    if from > to { assert(emap(moved_seq(es, from, to)) =~= moved(inc_map(moved(emap(es), from, usize::MAX as int), to, from), usize::MAX as int, to)); }
}
/// filing the second part after the first files the concatenation
pub broadcast proof fn bulk_cat<K, V>(a: Seq<Bucket<K, V>>, b: Seq<Bucket<K, V>>)
    requires a.len() + b.len() <= usize::MAX
    ensures #[trigger] (bulk(0, a) + bulk(a.len() as int, b)) == bulk(0, a + b)
{ assert(bulk(0, a) + bulk(a.len() as int, b) =~= bulk(0, a + b)); }
/// index while positions a..b are being erased, and while b.. moves down to a.. (k moved so far)
pub open spec fn without<K, V>(es: Seq<Bucket<K, V>>, a: int, b: int) -> IMap<int, u64> {
    IMap::new(|i: int| 0 <= i < es.len() && !(a <= i < b), |i: int| hv(es[i].hash))
}
pub open spec fn closing<K, V>(es: Seq<Bucket<K, V>>, a: int, b: int, k: int) -> IMap<int, u64> {
    IMap::new(|i: int| 0 <= i < a + k || b + k <= i < es.len(), |i: int| if a <= i < a + k { hv(es[i - a + b].hash) } else { hv(es[i].hash) })
}
pub open spec fn cut<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.subrange(0, a) + s.subrange(b, s.len() as int) }
pub broadcast group entry_lemmas { bulk_cat, bucket_vec_len, bulk_cm, emap_moved, emap_at, emap_push, emap_update }
}
pub use el::*;
broadcast use {tl::table_lemmas, el::entry_lemmas};
@end
@impl impl HashValue
@fn get
    ensures r == hv(self)
@endimpl
@impl impl<K, V> Clone for Bucket<K, V> where K: Clone, V: Clone, => impl<K: Clone, V: Clone> Bucket<K, V>
@fn clone id=Bucket::clone
    ensures r.hash == self.hash, cloned(self.key, r.key), cloned(self.value, r.value)
@endimpl
@file rubymap/src/map/core.rs
@item type Indices
@item type Entries
@item struct IndexMapCore
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct RefMut
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item const AR_MAX
@fn get_hash keep
    ensures forall|i: &usize| (*i as int) < entries@.len() ==> #[trigger] r.requires((i,)),
        forall|i: &usize, h: u64| #[trigger] r.ensures((i,), h) ==> h == hv(entries@[*i as int].hash),
@closure 1 (&usize) -> (h: u64)
    requires (*i_ as int) < entries@.len()
    ensures h == hv(entries@[*i_ as int].hash)
@fn equivalent keep
    ensures forall|i: &usize, e: &mut E, g: &mut G| (*i as int) < entries@.len() ==> #[trigger] r.requires((i, e, g)),
        forall|i: &usize, e: &mut E, g: &mut G, b: bool| #[trigger] r.ensures((i, e, g), Ok(b)) ==> b == key.eqv(&entries@[*i as int].key),
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    requires (*i_ as int) < entries@.len()
    ensures b matches Ok(x) ==> x == key.eqv(&entries@[*i_ as int].key)
@fn erase_index
    requires tok(old(table)@), cm(old(table)@).dom().contains(index as int), cm(old(table)@)[index as int] == hv(hash),
    ensures r is Ok, final(table).cap() >= final(table)@.len(), final(table).cap() + 1 >= old(table).cap(),
        tok(final(table)@), cm(final(table)@) =~= cm(old(table)@).remove(index as int), final(table)@.len() + 1 == old(table)@.len(),
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    ensures b == Ok::<bool, R>(*i_ == index)
@fn update_index
    requires tok(old(table)@), cm(old(table)@).dom().contains(old_ as int), cm(old(table)@)[old_ as int] == hv(hash), !cm(old(table)@).dom().contains(new as int),
    ensures r is Ok, final(table).cap() == old(table).cap(), final(table)@.len() == old(table)@.len(),
        tok(final(table)@), cm(final(table)@) =~= moved(cm(old(table)@), old_ as int, new as int),
@sub old ==> old_
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    ensures b == Ok::<bool, R>(*i_ == old_)
@verbatim
pub proof fn erase_kept<K, V>(s0: Seq<(u64, usize)>, t: Seq<(u64, usize)>, keep: Seq<bool>, es: Seq<Bucket<K, V>>, start: int, end: int)
    requires tok(s0), cm(s0) == emap(es), 0 <= start <= end <= es.len(), t.len() == s0.len(), keep.len() == s0.len(),
        forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 == s0[k].0 && (if s0[k].1 >= end { keep[k] && t[k].1 == s0[k].1 - (end - start) } else { t[k].1 == s0[k].1 && keep[k] == (s0[k].1 < start) }),
    ensures tok(filter_by(t, keep)), cm(filter_by(t, keep)) == emap(cut(es, start, end)), filter_by(t, keep).len() == es.len() - (end - start)
{
        let m = emap(cut(es, start, end));
        assert forall|i: int| #[trigger] m.dom().contains(i) implies exists|k: int| 0 <= k < t.len() && keep[k] && (#[trigger] t[k]).1 == i by {
            let j = if i < start { i } else { i + (end - start) };
            assert(cm(s0).dom().contains(j));
            let k = slot_of(s0, j);
            assert(t[k].1 == i);
        }
        assert forall|j: int, k: int| #![trigger t[j], t[k]] 0 <= j < t.len() && 0 <= k < t.len() && j != k && keep[j] && keep[k] implies t[j].1 != t[k].1 by {
            assert(s0[j].1 != s0[k].1);
        }
        cm_filter(t, keep, m);
        cm_len(filter_by(t, keep), cut(es, start, end).len());
}
@end
@verbatim
pub open spec fn hit<K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(key: &Q, hash: HashValue, b: Bucket<K, V>) -> bool {
    b.hash == hash && key.eqv(&b.key)
}
pub open spec fn swap_removed<T>(s: Seq<T>, i: int) -> Seq<T> { s.update(i, s.last()).drop_last() }
pub open spec fn kept_keys<K, V, F: Fn(&K) -> bool>(es: Seq<Bucket<K, V>>, keep: Seq<bool>, is_dead: F) -> bool {
    keep.len() == es.len() && forall|i: int| 0 <= i < es.len() ==> is_dead.ensures((&(#[trigger] es[i]).key,), !keep[i])
}
@end
@verbatim
/// symbol-style equality: infallible, no context
pub trait SymEquivalent<K: ?Sized> {
    spec fn seqv(&self, key: &K) -> bool;
    fn equivalent(&self, key: &K) -> (r: bool)
        ensures r == self.seqv(key);
}
pub uninterp spec fn from_sym<I, K>(i: I, k: K) -> bool;
#[verifier::external_body]
pub fn key_from<I, K>(i: I) -> (r: K) ensures from_sym::<I, K>(i, r) { unimplemented!() }
pub open spec fn shit<K, V, Q: ?Sized + SymEquivalent<K>>(key: &Q, hash: HashValue, b: Bucket<K, V>) -> bool { b.hash == hash && key.seqv(&b.key) }
pub open spec fn phit<K: PartialEq, V>(key: &K, hash: HashValue, b: Bucket<K, V>) -> bool { b.hash == hash && b.key.eq_spec(key) }
@end
@fn sym_equivalent keep
    ensures forall|i: &usize| (*i as int) < entries@.len() ==> #[trigger] r.requires((i,)),
        forall|i: &usize, b: bool| #[trigger] r.ensures((i,), b) ==> b == key.seqv(&entries@[*i as int].key),
@closure 1 (&usize) -> (b: bool)
    requires (*i_ as int) < entries@.len()
    ensures b == key.seqv(&entries@[*i_ as int].key)
@fn insert_bulk_no_grow
    requires old(indices).cap() >= old(indices)@.len() + entries@.len()
    ensures final(indices)@ =~= old(indices)@ + bulk(old(indices)@.len() as int, entries@), final(indices).cap() >= old(indices).cap(),
@closure 1 (&usize) -> (h: u64)
    requires false
@loop 1
    invariant indices.cap() >= old(indices).cap(), _n1 == entries@.len(), old(indices).cap() >= old(indices)@.len() + entries@.len(),
        indices@ =~= old(indices)@ + bulk(old(indices)@.len() as int, entries@.subrange(0, _k1 as int)),
@loopend 1
    proof {
        assert(entries@.subrange(0, _k1 + 1) =~= entries@.subrange(0, _k1 as int).push(entries@[_k1 as int]));
    }
@loopexit 1
    proof { assert(entries@.subrange(0, entries@.len() as int) =~= entries@); }

@verbatim
impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R> {
    /// the representation invariant: the index files exactly the entries, under their hashes
    pub open spec fn inv(&self) -> bool {
        &&& self.linear ==> self.indices@.len() == 0
        &&& !self.linear ==> tok(self.indices@) && cm(self.indices@) =~= emap(self.entries@) && self.indices@.len() == self.entries@.len()
    }
    /// invariant while tombstones exist: the index files some of the entries, under their hashes
    pub open spec fn winv(&self) -> bool {
        &&& self.linear ==> self.indices@.len() == 0
        &&& !self.linear ==> tok(self.indices@) && forall|i: int| #[trigger] cm(self.indices@).dom().contains(i) ==> 0 <= i < self.entries@.len() && cm(self.indices@)[i] == hv(self.entries@[i].hash)
    }
    pub open spec fn live(&self, i: int) -> bool {
        if self.linear { 0 <= i < self.entries@.len() } else { cm(self.indices@).dom().contains(i) }
    }
    /// keys equivalent to `key` have hash `hash`
    pub open spec fn coherent<Q: ?Sized + Equivalent<K, E, G, R>>(&self, hash: HashValue, key: &Q) -> bool {
        forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && key.eqv(&self.entries@[i].key) ==> self.entries@[i].hash == hash
    }
    pub open spec fn nohit<Q: ?Sized + Equivalent<K, E, G, R>>(&self, hash: HashValue, key: &Q) -> bool {
        forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() ==> !hit::<K, V, E, G, R, Q>(key, hash, self.entries@[i])
    }
}
@end
@verbatim
impl<'a, K, V, E, G, R> RefMut<'a, K, V, E, G, R> {
    pub open spec fn rinv(&self) -> bool {
        tok((*self.indices)@) && cm((*self.indices)@) =~= emap((*self.entries)@) && (*self.indices)@.len() == (*self.entries)@.len()
    }
}
@end
@impl impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R>
@fn new
    ensures r.inv(), r.entries@.len() == 0, r.linear
@fn borrow_mut
    ensures *r.indices == old(self).indices, *r.entries == old(self).entries,
        *final(r.indices) == final(self).indices, *final(r.entries) == final(self).entries, final(self).linear == old(self).linear
@fn with_capacity
    ensures r.inv(), r.entries@.len() == 0
@fn len
    ensures r == self.entries@.len()
@fn capacity
    ensures self.inv() ==> r >= self.entries@.len()
@fn ensure_indexed
    requires old(self).winv()
    ensures final(self).entries == old(self).entries, !final(self).linear,
        final(self).winv(), old(self).inv() ==> final(self).inv(), forall|i: int| final(self).live(i) == old(self).live(i),
@fn linear_find
    ensures
        r matches Ok(Some(i)) ==> 0 <= i < self.entries@.len() && hit::<K, V, E, G, R, Q>(key, hash, self.entries@[i as int]),
        r matches Ok(Some(i)) ==> forall|j: int| #![trigger self.entries@[j]] 0 <= j < i ==> !hit::<K, V, E, G, R, Q>(key, hash, self.entries@[j]),
        r matches Ok(None) ==> self.nohit(hash, key),
@loop 1
    invariant _n1 == self.entries@.len(), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 ==> !hit::<K, V, E, G, R, Q>(key, hash, self.entries@[j]),
@fn clear
    ensures final(self).inv(), final(self).entries@.len() == 0
@fn push_entry
    ensures final(self).entries@ == old(self).entries@.push(Bucket { hash, key, value }), final(self).indices == old(self).indices, final(self).linear == old(self).linear
@fn get_index_of
    requires self.winv(), self.coherent(hash, key)
    ensures
        r matches Ok(Some(i)) ==> self.live(i as int) && 0 <= i < self.entries@.len() && hit::<K, V, E, G, R, Q>(key, hash, self.entries@[i as int]),
        r matches Ok(None) ==> forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && self.live(i) ==> !hit::<K, V, E, G, R, Q>(key, hash, self.entries@[i]),
@fn insert_full
    requires old(self).inv(), old(self).coherent(hash, &key)
    ensures final(self).inv(),
        r matches Ok((i, Some(v))) ==> 0 <= i < old(self).entries@.len() && hit::<K, V, E, G, R, K>(&key, hash, old(self).entries@[i as int]) && v == old(self).entries@[i as int].value
            && final(self).entries@ =~= old(self).entries@.update(i as int, Bucket { hash: old(self).entries@[i as int].hash, key: old(self).entries@[i as int].key, value }),
        r matches Ok((i, None)) ==> i == old(self).entries@.len() && old(self).nohit(hash, &key) && final(self).entries@ =~= old(self).entries@.push(Bucket { hash, key, value }),
        r is Err ==> final(self).entries@ == old(self).entries@,
@fn insert_full_sym
    requires old(self).inv(), forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() && key.seqv(&old(self).entries@[i].key) ==> old(self).entries@[i].hash == hash
    ensures
        final(self).inv(),
        0 <= r.0 < final(self).entries@.len(),
        r.1 matches Some(v) ==> r.0 < old(self).entries@.len() && shit::<K, V, I>(&key, hash, old(self).entries@[r.0 as int]) && v == old(self).entries@[r.0 as int].value
            && final(self).entries@ =~= old(self).entries@.update(r.0 as int, Bucket { hash: old(self).entries@[r.0 as int].hash, key: old(self).entries@[r.0 as int].key, value }),
        r.1 is None ==> r.0 == old(self).entries@.len() && (forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() ==> !shit::<K, V, I>(&key, hash, old(self).entries@[i]))
            && final(self).entries@.len() == r.0 + 1 && final(self).entries@.drop_last() =~= old(self).entries@ && final(self).entries@.last().hash == hash && final(self).entries@.last().value == value
            && from_sym::<I, K>(key, final(self).entries@.last().key),
@sub I : ruby_traits :: RubySymEql ==> I: SymEquivalent<K>
@sub K : Borrow < I > + From < I > , ==> K: Sized,
@sub K :: from ( key ) ==> key_from(key)
@sub SymEquivalent :: equivalent ( & key , entry . key . borrow ( ) ) ==> SymEquivalent::equivalent(&key, &entry.key)
@loop 1
    invariant _n1 == self.entries@.len(), self.entries == old(self).entries, self.linear, self.inv(), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 ==> !shit::<K, V, I>(&key, hash, self.entries@[j]),
@fn insert_full_prehashed
    requires old(self).inv(), K::obeys_eq_spec(), forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() && old(self).entries@[i].key.eq_spec(&key) ==> old(self).entries@[i].hash == hash
    ensures
        final(self).inv(),
        0 <= r.0 < final(self).entries@.len(),
        r.1 matches Some(v) ==> r.0 < old(self).entries@.len() && phit::<K, V>(&key, hash, old(self).entries@[r.0 as int]) && v == old(self).entries@[r.0 as int].value
            && final(self).entries@ =~= old(self).entries@.update(r.0 as int, Bucket { hash: old(self).entries@[r.0 as int].hash, key: old(self).entries@[r.0 as int].key, value }),
        r.1 is None ==> r.0 == old(self).entries@.len() && (forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() ==> !phit::<K, V>(&key, hash, old(self).entries@[i]))
            && final(self).entries@ =~= old(self).entries@.push(Bucket { hash, key, value }),
@closure 1 (&usize) -> (b: bool)
    requires (*i_ as int) < entries@.len()
    ensures b == entries@[*i_ as int].key.eq_spec(&key)
@loop 1
    invariant _n1 == self.entries@.len(), self.entries == old(self).entries, self.linear, self.inv(), K::obeys_eq_spec(), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 ==> !phit::<K, V>(&key, hash, self.entries@[j]),
@fn get_index_of_prehashed
    requires self.winv(), K::obeys_eq_spec(), forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && self.entries@[i].key.eq_spec(key) ==> self.entries@[i].hash == hash
    ensures r is Ok,
        r matches Ok(Some(i)) ==> self.live(i as int) && 0 <= i < self.entries@.len() && phit::<K, V>(key, hash, self.entries@[i as int]),
        r matches Ok(None) ==> forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && self.live(i) ==> !phit::<K, V>(key, hash, self.entries@[i]),
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    requires (*i_ as int) < entries@.len()
    ensures b == Ok::<bool, R>(entries@[*i_ as int].key.eq_spec(key))
@loop 1
    invariant _n1 == self.entries@.len(), self.linear, K::obeys_eq_spec(), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 ==> !phit::<K, V>(key, hash, self.entries@[j]),
@fn insert_full_prehashed_with
    requires old(self).inv(), forall|k: &K| #[trigger] eq.requires((k,)),
        forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() && eq.ensures((&old(self).entries@[i].key,), true) ==> old(self).entries@[i].hash == hash
    ensures
        final(self).inv(),
        0 <= r.0 < final(self).entries@.len(),
        r.1 matches Some(v) ==> r.0 < old(self).entries@.len() && old(self).entries@[r.0 as int].hash == hash && eq.ensures((&old(self).entries@[r.0 as int].key,), true) && v == old(self).entries@[r.0 as int].value
            && final(self).entries@ =~= old(self).entries@.update(r.0 as int, Bucket { hash: old(self).entries@[r.0 as int].hash, key: old(self).entries@[r.0 as int].key, value }),
        r.1 is None ==> r.0 == old(self).entries@.len() && (forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() ==> (old(self).entries@[i].hash == hash ==> eq.ensures((&old(self).entries@[i].key,), false)))
            && final(self).entries@ =~= old(self).entries@.push(Bucket { hash, key, value }),
@sub mut eq : impl FnMut ( & K ) -> bool ==> eq: impl Fn(&K) -> bool + Copy
@closure 1 (&usize) -> (b: bool)
    requires (*i_ as int) < entries@.len()
    ensures eq.ensures((&entries@[*i_ as int].key,), b)
@loop 1
    invariant _n1 == self.entries@.len(), self.entries == old(self).entries, self.linear, self.inv(), forall|k: &K| #[trigger] eq.requires((k,)), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 && self.entries@[j].hash == hash ==> eq.ensures((&self.entries@[j].key,), false),
@fn get_index_of_prehashed_with
    requires self.winv(), forall|k: &K| #[trigger] eq.requires((k,)),
        forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && eq.ensures((&self.entries@[i].key,), true) ==> self.entries@[i].hash == hash
    ensures r is Ok,
        r matches Ok(Some(i)) ==> self.live(i as int) && 0 <= i < self.entries@.len() && self.entries@[i as int].hash == hash && eq.ensures((&self.entries@[i as int].key,), true),
        r matches Ok(None) ==> forall|i: int| #![trigger self.entries@[i]] 0 <= i < self.entries@.len() && self.live(i) && self.entries@[i].hash == hash ==> eq.ensures((&self.entries@[i].key,), false),
@sub mut eq : impl FnMut ( & K ) -> bool ==> eq: impl Fn(&K) -> bool + Copy
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    requires (*i_ as int) < entries@.len()
    ensures b matches Ok(x) && eq.ensures((&entries@[*i_ as int].key,), x)
@loop 1
    invariant _n1 == self.entries@.len(), self.linear, forall|k: &K| #[trigger] eq.requires((k,)), forall|j: int| #![trigger self.entries@[j]] 0 <= j < _k1 && self.entries@[j].hash == hash ==> eq.ensures((&self.entries@[j].key,), false),
@fn reserve
    requires old(self).inv(), old(self).entries@.len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).entries@ == old(self).entries@
@fn reserve_exact
    requires old(self).inv(), old(self).entries@.len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).entries@ == old(self).entries@
@fn shrink_to
    requires old(self).inv()
    ensures final(self).inv(), final(self).entries@ == old(self).entries@
@fn pop
    requires old(self).inv()
    ensures final(self).inv(), r is Ok,
        r matches Ok(None) ==> old(self).entries@.len() == 0 && final(self).entries@ == old(self).entries@,
        r matches Ok(Some(kv)) ==> old(self).entries@.len() > 0 && final(self).entries@ =~= old(self).entries@.drop_last()
            && kv.0 == old(self).entries@.last().key && kv.1 == old(self).entries@.last().value,
@fn replace_full
    requires old(self).inv(), old(self).coherent(hash, &key)
    ensures final(self).inv(),
        r matches Ok((i, Some(kv))) ==> 0 <= i < old(self).entries@.len() && hit::<K, V, E, G, R, K>(&key, hash, old(self).entries@[i as int])
            && kv.0 == old(self).entries@[i as int].key && kv.1 == old(self).entries@[i as int].value
            && final(self).entries@ =~= old(self).entries@.update(i as int, Bucket { hash: old(self).entries@[i as int].hash, key, value }),
        r matches Ok((i, None)) ==> i == old(self).entries@.len() && old(self).nohit(hash, &key) && final(self).entries@ =~= old(self).entries@.push(Bucket { hash, key, value }),
        r is Err ==> final(self).entries@ == old(self).entries@,
@fn tombstone_remove_full
    requires old(self).winv(), old(self).coherent(hash, key)
    ensures final(self).winv(), !final(self).linear,
        r matches Ok(Some(t)) ==> old(self).live(t.0 as int) && t.0 < old(self).entries@.len() && hit::<K, V, E, G, R, Q>(key, hash, old(self).entries@[t.0 as int])
            && t.1 == old(self).entries@[t.0 as int].key && t.2 == old(self).entries@[t.0 as int].value
            && final(self).entries@ =~= old(self).entries@.update(t.0 as int, Bucket { hash: old(self).entries@[t.0 as int].hash, key: dead_key, value: dead_value })
            && forall|j: int| #[trigger] final(self).live(j) <==> old(self).live(j) && j != t.0,
        r matches Ok(None) ==> final(self).entries@ == old(self).entries@ && (forall|j: int| #[trigger] final(self).live(j) == old(self).live(j))
            && forall|i: int| #![trigger old(self).entries@[i]] 0 <= i < old(self).entries@.len() && old(self).live(i) ==> !hit::<K, V, E, G, R, Q>(key, hash, old(self).entries@[i]),
        r is Err ==> final(self).entries@ == old(self).entries@ && forall|j: int| #[trigger] final(self).live(j) == old(self).live(j),
@fn tombstone_index
    requires old(self).winv(), index < old(self).entries@.len() ==> old(self).live(index as int),
    ensures r is Ok, final(self).winv(),
        r matches Ok(None) ==> index >= old(self).entries@.len() && final(self).entries@ == old(self).entries@ && forall|j: int| #[trigger] final(self).live(j) == old(self).live(j),
        r matches Ok(Some(kv)) ==> index < old(self).entries@.len() && !final(self).linear
            && kv.0 == old(self).entries@[index as int].key && kv.1 == old(self).entries@[index as int].value
            && final(self).entries@ =~= old(self).entries@.update(index as int, Bucket { hash: old(self).entries@[index as int].hash, key: dead_key, value: dead_value })
            && forall|j: int| #[trigger] final(self).live(j) <==> old(self).live(j) && j != index,
@fn compact_tombstones
    requires old(self).linear ==> old(self).indices@.len() == 0,
        forall|i: int| 0 <= i < old(self).entries@.len() ==> #[trigger] is_dead.requires((&old(self).entries@[i].key,)),
    ensures final(self).inv(), exists|keep: Seq<bool>| kept_keys(old(self).entries@, keep, is_dead) && final(self).entries@ == #[trigger] filter_by(old(self).entries@, keep),
@closure 1 (&Bucket<K, V>) -> (x: bool)
    requires is_dead.requires((&b.key,))
    ensures is_dead.ensures((&b.key,), !x)
@fn shift_remove_full
    requires old(self).inv(), old(self).coherent(hash, key)
    ensures final(self).inv(),
        r matches Ok(Some(t)) ==> t.0 < old(self).entries@.len() && hit::<K, V, E, G, R, Q>(key, hash, old(self).entries@[t.0 as int])
            && t.1 == old(self).entries@[t.0 as int].key && t.2 == old(self).entries@[t.0 as int].value && final(self).entries@ =~= old(self).entries@.remove(t.0 as int),
        r matches Ok(None) ==> old(self).nohit(hash, key) && final(self).entries@ == old(self).entries@,
        r is Err ==> final(self).entries@ == old(self).entries@,
@fn shift_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok,
        r matches Ok(Some(kv)) ==> index < old(self).entries@.len() && kv.0 == old(self).entries@[index as int].key && kv.1 == old(self).entries@[index as int].value
            && final(self).entries@ =~= old(self).entries@.remove(index as int),
        r matches Ok(None) ==> index >= old(self).entries@.len() && final(self).entries@ == old(self).entries@,
@fn swap_remove_full
    requires old(self).inv(), old(self).coherent(hash, key)
    ensures final(self).inv(),
        r matches Ok(Some(t)) ==> t.0 < old(self).entries@.len() && hit::<K, V, E, G, R, Q>(key, hash, old(self).entries@[t.0 as int])
            && t.1 == old(self).entries@[t.0 as int].key && t.2 == old(self).entries@[t.0 as int].value && final(self).entries@ =~= swap_removed(old(self).entries@, t.0 as int),
        r matches Ok(None) ==> old(self).nohit(hash, key) && final(self).entries@ == old(self).entries@,
        r is Err ==> final(self).entries@ == old(self).entries@,
@fn swap_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok,
        r matches Ok(Some(kv)) ==> index < old(self).entries@.len() && kv.0 == old(self).entries@[index as int].key && kv.1 == old(self).entries@[index as int].value
            && final(self).entries@ =~= swap_removed(old(self).entries@, index as int),
        r matches Ok(None) ==> index >= old(self).entries@.len() && final(self).entries@ == old(self).entries@,
@fn move_index
@sub self . entries [ $a ..= $b ] . rotate_left ( $k ) ==> vrotl(&mut self.entries, $a, $b, $k)
@sub self . entries [ $a ..= $b ] . rotate_right ( $k ) ==> vrotr(&mut self.entries, $a, $b, $k)
@spec
    requires old(self).inv(), from < old(self).entries@.len(), to < old(self).entries@.len()
    ensures final(self).inv(), r is Ok, final(self).entries@ =~= moved_seq(old(self).entries@, from as int, to as int),
@fn erase_indices
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@spec
    requires old(self).inv(), start <= end <= old(self).entries@.len()
    ensures r is Ok, final(self).entries == old(self).entries, final(self).linear == old(self).linear,
        old(self).linear ==> final(self).indices == old(self).indices,
        !old(self).linear ==> tok(final(self).indices@) && cm(final(self).indices@) =~= emap(cut(old(self).entries@, start as int, end as int)),
        !old(self).linear ==> final(self).indices@.len() == old(self).entries@.len() - (end - start),
@sub old ==> old_
@sub self . indices . retain ( $c ) ==> let f_ = $c; self.indices.retain(f_)
@loop 1
    invariant _n1 == erased_entries@.len(), erased_entries@ =~= old(self).entries@.subrange(start as int, end as int), start <= end <= old(self).entries@.len(),
        self.entries == old(self).entries, self.linear == old(self).linear, tok(self.indices@), self.indices@.len() + _k1 == old(self).entries@.len(),
        cm(self.indices@) =~= without(old(self).entries@, start as int, start + _k1),
@loop 2
    invariant _n2 == shifted_entries@.len(), shifted_entries@ =~= old(self).entries@.subrange(end as int, old(self).entries@.len() as int), start < end <= old(self).entries@.len(),
        self.entries == old(self).entries, self.linear == old(self).linear, tok(self.indices@), self.indices@.len() == old(self).entries@.len() - (end - start),
        cm(self.indices@) =~= closing(old(self).entries@, start as int, end as int, _k2 as int),
@closure 1 (&mut usize) -> (b: bool)
    requires *i >= end ==> *i >= offset
    ensures *old(i) >= end ==> b && *final(i) == *old(i) - offset, *old(i) < end ==> *final(i) == *old(i) && b == (*old(i) < start)
@before let f_ =
    let ghost s0 = self.indices@;
    proof { assert(forall|k: int| 0 <= k < s0.len() ==> #[trigger] s0[k].1 < old(self).entries@.len()); }
@after self . indices . retain (
    proof {
        let es = old(self).entries@;
        let (t, keep) = choose|t: Seq<(u64, usize)>, keep: Seq<bool>| retains(s0, t, keep, f_) && self.indices@ == filter_by(t, keep);
        assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 == s0[k].0 && (if s0[k].1 >= end { keep[k] && t[k].1 == s0[k].1 - (end - start) } else { t[k].1 == s0[k].1 && keep[k] == (s0[k].1 < start) }) by {
            assert(s0[k].1 < es.len());
        }
        erase_kept(s0, t, keep, es, start as int, end as int);
    }
@fn truncate
    requires old(self).inv()
    ensures r is Ok, final(self).inv(), final(self).entries@ =~= (if len < old(self).entries@.len() { old(self).entries@.subrange(0, len as int) } else { old(self).entries@ }),
@fn split_off
    requires old(self).inv(), at <= old(self).entries@.len()
    ensures r is Ok, final(self).inv(), final(self).entries@ =~= old(self).entries@.subrange(0, at as int),
        r->Ok_0.inv(), r->Ok_0.entries@ =~= old(self).entries@.subrange(at as int, old(self).entries@.len() as int),
@fn reverse
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).entries@ =~= old(self).entries@.reverse()
@loop 1
    invariant _n1 == self.indices@.len(), self.indices@.len() == old(self).indices@.len(), self.entries@ =~= old(self).entries@.reverse(), len == old(self).entries@.len(), self.linear == old(self).linear,
        old(self).inv(),
        forall|k: int| #![trigger self.indices@[k]] 0 <= k < self.indices@.len() ==> self.indices@[k].0 == old(self).indices@[k].0
            && self.indices@[k].1 == if k < _k1 { len - old(self).indices@[k].1 - 1 } else { old(self).indices@[k].1 as int },
@loopexit 1
    proof {
        if !self.linear {
            let s = old(self).indices@;
            let n = len as int;
            let f = |i: int| n - i - 1;
            let m = emap(self.entries@);
            assert forall|j: int| #[trigger] m.dom().contains(j) implies exists|i: int| cm(s).dom().contains(i) && #[trigger] f(i) == j by {
                assert(f(n - 1 - j) == j); assert(cm(s).dom().contains(n - 1 - j));
            }
            cm_renumber(s, self.indices@, f, m);
        }
    }
@fn rebuild_hash_table
    requires old(self).linear ==> old(self).indices@.len() == 0, !old(self).linear ==> old(self).indices.cap() >= old(self).entries@.len()
    ensures final(self).inv(), final(self).entries@ == old(self).entries@
@endimpl
@verbatim
/// Result::expect on a success
pub fn vok<A, B>(x: Result<A, B>) -> (r: A) requires x is Ok ensures x == Ok::<A, B>(r) { match x { Ok(a) => a, Err(_) => vpanic() } }
/// each entry is offered to `f`, which may change key and value in place (t) and says whether it stays
#[verifier::prophetic]
pub open spec fn offered<K, V, F: Fn(&mut K, &mut V) -> bool>(s: Seq<Bucket<K, V>>, t: Seq<Bucket<K, V>>, kept: Seq<bool>, f: F) -> bool {
    &&& t.len() == s.len() && kept.len() == s.len()
    &&& forall|i: int| #![trigger t[i]] #![trigger s[i]] 0 <= i < s.len() ==> t[i].hash == s[i].hash
        && exists|k: &mut K, v: &mut V| *k == s[i].key && *v == s[i].value && *final(k) == t[i].key && *final(v) == t[i].value && #[trigger] f.ensures((k, v), kept[i])
}
/// soft capacity limit; only bounds a reservation
#[verifier::external_body]
pub fn max_entries_capacity<K, V>() -> usize { unimplemented!() }
#[verifier::external_body]
pub fn try_reserve_exact_ok<T>(v: &mut Vec<T>, n: usize) -> (r: bool) ensures final(v)@ == old(v)@ { unimplemented!() }
@end
@fn reserve_entries
    ensures final(entries)@ == old(entries)@
@sub IndexMapCore :: < K , V , E , G , R > :: MAX_ENTRIES_CAPACITY ==> max_entries_capacity::<K, V>()
@sub entries . try_reserve_exact ( $a ) . is_ok ( ) ==> try_reserve_exact_ok(entries, $a)
@impl impl<'a, K, V, E, G, R> RefMut<'a, K, V, E, G, R>
@fn new id=RefMut::new
    ensures *r.indices == *old(indices), *r.entries == *old(entries), *final(r.indices) == *final(indices), *final(r.entries) == *final(entries)
@fn reserve_entries id=RefMut::reserve_entries
    ensures (*final(self).entries)@ == (*old(self).entries)@, *final(self).indices == *old(self).indices,
        *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
@fn insert_unique
    requires (*old(self.indices))@.len() == (*old(self.entries))@.len(), tok((*old(self.indices))@), cm((*old(self.indices))@) =~= emap((*old(self.entries))@),
    ensures r.oinv(), r.idx() == (*old(self.entries))@.len(), (*r.entries)@ =~= (*old(self.entries))@.push(Bucket { hash, key, value }),
        *final(r.entries) == *final(self.entries), *final(r.index.t) == *final(self.indices),
@sub 2 * self . entries . capacity ( ) ==> self.entries.capacity()
@fn shift_insert_unique
    requires old(self).rinv(), index <= (*old(self).entries)@.len(), (*old(self).entries)@.len() < usize::MAX
    ensures r is Ok, final(self).rinv(), (*final(self).entries)@ =~= (*old(self).entries)@.insert(index as int, Bucket { hash, key, value }),
        *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
@closure 1 (&usize) -> (h: u64)
    requires *i_ != index, *i_ <= entries@.len()
    ensures h == hv(entries@[if *i_ < index { *i_ as int } else { *i_ - 1 }].hash)
@fn shift_remove_index id=RefMut::shift_remove_index
    requires old(self).rinv()
    ensures final(self).rinv(), r is Ok, *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
        r matches Ok(Some(kv)) ==> index < (*old(self).entries)@.len() && kv.0 == (*old(self).entries)@[index as int].key && kv.1 == (*old(self).entries)@[index as int].value
            && (*final(self).entries)@ =~= (*old(self).entries)@.remove(index as int),
        r matches Ok(None) ==> index >= (*old(self).entries)@.len() && (*final(self).entries)@ == (*old(self).entries)@,
@fn shift_remove_finish
    requires index < (*old(self).entries)@.len(), tok((*old(self).indices)@), cm((*old(self).indices)@) =~= emap((*old(self).entries)@).remove(index as int),
        (*old(self).indices)@.len() + 1 == (*old(self).entries)@.len(),
    ensures final(self).rinv(), r is Ok, *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
        r->Ok_0.0 == (*old(self).entries)@[index as int].key, r->Ok_0.1 == (*old(self).entries)@[index as int].value,
        (*final(self).entries)@ =~= (*old(self).entries)@.remove(index as int),
@fn swap_remove_index id=RefMut::swap_remove_index
    requires old(self).rinv()
    ensures final(self).rinv(), r is Ok, *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
        r matches Ok(Some(kv)) ==> index < (*old(self).entries)@.len() && kv.0 == (*old(self).entries)@[index as int].key && kv.1 == (*old(self).entries)@[index as int].value
            && (*final(self).entries)@ =~= swap_removed((*old(self).entries)@, index as int),
        r matches Ok(None) ==> index >= (*old(self).entries)@.len() && (*final(self).entries)@ == (*old(self).entries)@,
@fn swap_remove_finish
    requires index < (*old(self).entries)@.len(), tok((*old(self).indices)@), cm((*old(self).indices)@) =~= emap((*old(self).entries)@).remove(index as int),
        (*old(self).indices)@.len() + 1 == (*old(self).entries)@.len(),
    ensures final(self).rinv(), r is Ok, *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
        r->Ok_0.0 == (*old(self).entries)@[index as int].key, r->Ok_0.1 == (*old(self).entries)@[index as int].value,
        (*final(self).entries)@ =~= swap_removed((*old(self).entries)@, index as int),
@fn decrement_indices
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@spec
    requires 1 <= start <= end <= (*old(self).entries)@.len(), tok((*old(self).indices)@),
        forall|i: int| start <= i < end ==> #[trigger] cm((*old(self).indices)@).dom().contains(i) && cm((*old(self).indices)@)[i] == hv((*old(self).entries)@[i].hash),
        !cm((*old(self).indices)@).dom().contains(start - 1),
    ensures r is Ok, tok((*final(self).indices)@), cm((*final(self).indices)@) =~= dec_map(cm((*old(self).indices)@), start as int, end as int),
        *final(self).entries == *old(self).entries, (*final(self).indices)@.len() == (*old(self).indices)@.len(), (*final(self).indices).cap() == (*old(self).indices).cap(),
        *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
@loop 1
    invariant _n1 == self.indices@.len(), self.indices@.len() == old(self).indices@.len(), *self.entries == *old(self).entries, *final(self.indices) == *final(old(self).indices), *final(self.entries) == *final(old(self).entries),
        1 <= start, self.indices.cap() == old(self).indices.cap(),
        forall|k: int| #![trigger self.indices@[k]] 0 <= k < self.indices@.len() ==> self.indices@[k].0 == old(self).indices@[k].0
            && self.indices@[k].1 == if k < _k1 && start <= old(self).indices@[k].1 < end { old(self).indices@[k].1 - 1 } else { old(self).indices@[k].1 as int },
@loopexit 1
    proof {
        let s = old(self).indices@;
        let f = |i: int| if start <= i < end { i - 1 } else { i };
        let m = dec_map(cm(s), start as int, end as int);
        assert forall|j: int| #[trigger] m.dom().contains(j) implies exists|i: int| cm(s).dom().contains(i) && #[trigger] f(i) == j by {
            if start - 1 <= j < end - 1 { assert(f(j + 1) == j); assert(cm(s).dom().contains(j + 1)); } else { assert(cm(s).dom().contains(j)); assert(f(j) == j); }
        }
        cm_renumber(s, self.indices@, f, m);
    }
@loop 2
    invariant _n2 == shifted_entries@.len(), shifted_entries@ =~= (*old(self).entries)@.subrange(start as int, end as int), *self.entries == *old(self).entries, *final(self.indices) == *final(old(self).indices), *final(self.entries) == *final(old(self).entries),
        1 <= start <= end <= (*old(self).entries)@.len(), tok(self.indices@), self.indices@.len() == old(self).indices@.len(), self.indices.cap() == old(self).indices.cap(),
        forall|i: int| start <= i < end ==> #[trigger] cm((*old(self).indices)@).dom().contains(i) && cm((*old(self).indices)@)[i] == hv((*old(self).entries)@[i].hash),
        !cm((*old(self).indices)@).dom().contains(start - 1),
        cm(self.indices@) =~= dec_map(cm(old(self).indices@), start as int, start + _k2),
@loopenter 2
    proof { assert(cm(old(self).indices@).dom().contains(start + _k2)); }
@fn increment_indices
@attr #[verifier::rlimit(60)]
@attr #[verifier::spinoff_prover]
@spec
    requires start <= end <= (*old(self).entries)@.len() < usize::MAX, tok((*old(self).indices)@),
        forall|i: int| start <= i < end ==> #[trigger] cm((*old(self).indices)@).dom().contains(i) && cm((*old(self).indices)@)[i] == hv((*old(self).entries)@[i].hash),
        !cm((*old(self).indices)@).dom().contains(end as int),
    ensures r is Ok, tok((*final(self).indices)@), cm((*final(self).indices)@) =~= inc_map(cm((*old(self).indices)@), start as int, end as int),
        *final(self).entries == *old(self).entries, (*final(self).indices)@.len() == (*old(self).indices)@.len(), (*final(self).indices).cap() == (*old(self).indices).cap(),
        *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
@loop 1
    invariant _n1 == self.indices@.len(), self.indices@.len() == old(self).indices@.len(), *self.entries == *old(self).entries, *final(self.indices) == *final(old(self).indices), *final(self.entries) == *final(old(self).entries),
        self.indices.cap() == old(self).indices.cap(), end < usize::MAX,
        forall|k: int| #![trigger self.indices@[k]] 0 <= k < self.indices@.len() ==> self.indices@[k].0 == old(self).indices@[k].0
            && self.indices@[k].1 == if k < _k1 && start <= old(self).indices@[k].1 < end { old(self).indices@[k].1 + 1 } else { old(self).indices@[k].1 as int },
@loopexit 1
    proof {
        let s = old(self).indices@;
        let f = |i: int| if start <= i < end { i + 1 } else { i };
        let m = inc_map(cm(s), start as int, end as int);
        assert forall|j: int| #[trigger] m.dom().contains(j) implies exists|i: int| cm(s).dom().contains(i) && #[trigger] f(i) == j by {
            if start + 1 <= j < end + 1 { assert(f(j - 1) == j); assert(cm(s).dom().contains(j - 1)); } else { assert(cm(s).dom().contains(j)); assert(f(j) == j); }
        }
        cm_renumber(s, self.indices@, f, m);
    }
@loop 2
    invariant _n2 == shifted_entries@.len(), shifted_entries@ =~= (*old(self).entries)@.subrange(start as int, end as int), *self.entries == *old(self).entries, *final(self.indices) == *final(old(self).indices), *final(self.entries) == *final(old(self).entries),
        start <= end <= (*old(self).entries)@.len() < usize::MAX, tok(self.indices@), self.indices@.len() == old(self).indices@.len(), self.indices.cap() == old(self).indices.cap(),
        forall|i: int| start <= i < end ==> #[trigger] cm((*old(self).indices)@).dom().contains(i) && cm((*old(self).indices)@)[i] == hv((*old(self).entries)@[i].hash),
        !cm((*old(self).indices)@).dom().contains(end as int),
        cm(self.indices@) =~= inc_map(cm(old(self).indices@), end - _k2, end as int),
@loopenter 2
    proof { assert(cm(old(self).indices@).dom().contains(end - 1 - _k2)); }
@fn move_index id=RefMut::move_index
@sub self . entries [ $a ..= $b ] . rotate_left ( $k ) ==> vrotl(self.entries, $a, $b, $k)
@sub self . entries [ $a ..= $b ] . rotate_right ( $k ) ==> vrotr(self.entries, $a, $b, $k)
@spec
    requires old(self).rinv(), from < (*old(self).entries)@.len(), to < (*old(self).entries)@.len()
    ensures r is Ok, final(self).rinv(), (*final(self).entries)@ =~= moved_seq((*old(self).entries)@, from as int, to as int),
        *final(final(self).indices) == *final(old(self).indices), *final(final(self).entries) == *final(old(self).entries),
@endimpl
@impl impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R>
@fn retain_in_order
    requires old(self).inv(), forall|k: &mut K, v: &mut V| #[trigger] keep.requires((k, v))
    ensures final(self).inv(),
        exists|t: Seq<Bucket<K, V>>, kept: Seq<bool>| #[trigger] offered(old(self).entries@, t, kept, keep) && final(self).entries@ == filter_by(t, kept),
@sub mut keep : F ==> keep: F
@sub F : FnMut ( & mut K , & mut V ) -> bool ==> F: Fn(&mut K, &mut V) -> bool + Copy
@sub self . entries . retain_mut ( $c ) ==> let f_ = $c; self.entries.retain_mut(f_)
@closure 1 (&mut Bucket<K, V>) -> (b: bool)
    ensures final(entry).hash == old(entry).hash, exists|k: &mut K, v: &mut V| *k == old(entry).key && *v == old(entry).value && *final(k) == final(entry).key && *final(v) == final(entry).value && #[trigger] keep.ensures((k, v), b)
@after self . entries . retain_mut (
    proof {
        let s0 = old(self).entries@;
        let (t, kept) = choose|t: Seq<Bucket<K, V>>, kept: Seq<bool>| keeps_mut(s0, t, kept, f_) && self.entries@ == filter_by(t, kept);
        assert forall|i: int| #![trigger t[i]] #![trigger s0[i]] 0 <= i < s0.len() implies t[i].hash == s0[i].hash
            && exists|k: &mut K, v: &mut V| *k == s0[i].key && *v == s0[i].value && *final(k) == t[i].key && *final(v) == t[i].value && #[trigger] keep.ensures((k, v), kept[i]) by {
            let m = choose|m: &mut Bucket<K, V>| *m == s0[i] && *final(m) == t[i] && #[trigger] f_.ensures((m,), kept[i]);
            assert(f_.ensures((m,), kept[i]));
        }
        assert(offered(s0, t, kept, keep));
        filter_facts(t, kept);
        if self.entries@.len() == s0.len() { filter_all(t, kept); assert(emap(t) =~= emap(s0)); }
        table_cap_len(self.indices);
    }
@endimpl
@verbatim
/// entry by entry copies; only the hash is known to be the same
pub open spec fn copies<K: Clone, V: Clone>(a: Seq<Bucket<K, V>>, b: Seq<Bucket<K, V>>) -> bool {
    a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> b[i].hash == a[i].hash && cloned(a[i].key, b[i].key) && cloned(a[i].value, b[i].value)
}
/// Vec::clone_from, element by element as Bucket::clone does (which is under contract above)
#[verifier::external_body]
pub fn vclone_from<K: Clone, V: Clone>(a: &mut Vec<Bucket<K, V>>, b: &Vec<Bucket<K, V>>)
    ensures copies(b@, final(a)@)
{ unimplemented!() }
@end
@impl impl<K, V, E, G, R> Clone for IndexMapCore<K, V, E, G, R> where K: Clone, V: Clone, => impl<K: Clone, V: Clone, E, G, R> IndexMapCore<K, V, E, G, R>
@fn clone id=core::clone
    requires self.inv()
    ensures r.inv(), copies(self.entries@, r.entries@), r.linear == self.linear
@fn clone_from
    requires other.inv()
    ensures final(self).inv(), copies(other.entries@, final(self).entries@), final(self).linear == other.linear
@sub self . entries . clone_from ( $a ) ==> vclone_from(&mut self.entries, $a)
@endimpl
@impl impl<K, V, E, G, R> crate::Entries for IndexMapCore<K, V, E, G, R> => impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R>
@fn into_entries
    ensures r == self.entries
@sub Self :: Entry ==> Bucket<K, V>
@fn as_entries
    ensures r@ == self.entries@
@sub Self :: Entry ==> Bucket<K, V>
@fn as_entries_mut
    ensures (*r)@ == old(self).entries@, (*final(r))@ == final(self).entries@, final(self).indices == old(self).indices, final(self).linear == old(self).linear
@sub Self :: Entry ==> Bucket<K, V>
@fn with_entries
    requires old(self).inv(), forall|m: &mut [Bucket<K, V>]| (*m)@ == old(self).entries@ ==> #[trigger] f.requires((m,)),
        forall|m: &mut [Bucket<K, V>]| #[trigger] f.ensures((m,), ()) ==> (*final(m))@.len() == (*m)@.len(), // a slice cannot change its length
    ensures final(self).inv(), exists|m: &mut [Bucket<K, V>]| (*m)@ == old(self).entries@ && (*final(m))@ == final(self).entries@ && #[trigger] f.ensures((m,), ()),
@sub Self :: Entry ==> Bucket<K, V>
@before self . rebuild_hash_table
    proof { table_cap_len(self.indices); }
@endimpl
@file rubymap/src/map/core/entry.rs
@item enum Entry
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct OccupiedEntry
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct VacantEntry
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct IndexedEntry
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@verbatim
impl<'a, K, V, E, G, R> OccupiedEntry<'a, K, V, E, G, R> {
    pub open spec fn oinv(&self) -> bool {
        tok((*self.index.t)@) && cm((*self.index.t)@) =~= emap((*self.entries)@) && (*self.index.t)@.len() == (*self.entries)@.len() && self.index.ok()
    }
    pub open spec fn idx(&self) -> int { (*self.index.t)@[self.index.k@].1 as int }
    pub open spec fn cur(&self) -> Bucket<K, V> { (*self.entries)@[self.idx()] }
}
impl<'a, K, V, E, G, R> VacantEntry<'a, K, V, E, G, R> {
    pub open spec fn vinv(&self) -> bool { self.map.rinv() }
}
impl<'a, K, V, E, G, R> IndexedEntry<'a, K, V, E, G, R> {
    pub open spec fn iinv(&self) -> bool { self.map.rinv() && self.index < (*self.map.entries)@.len() }
    pub open spec fn cur(&self) -> Bucket<K, V> { (*self.map.entries)@[self.index as int] }
}
pub open spec fn with_value<K, V>(b: Bucket<K, V>, value: V) -> Bucket<K, V> { Bucket { hash: b.hash, key: b.key, value } }
/// what the map looks like once a reference to the value of a present key is given up
pub open spec fn set_value<K, V>(es: Seq<Bucket<K, V>>, i: int, value: V) -> Seq<Bucket<K, V>> { es.update(i, with_value(es[i], value)) }
@end
@impl impl<K, V, E, G, R> IndexMapCore<K, V, E, G, R>
@fn entry
    requires old(self).inv(), old(self).coherent(hash, &key)
    ensures
        r matches Ok(Entry::Occupied(o)) ==> o.oinv() && (*o.entries)@ == old(self).entries@ && hit::<K, V, E, G, R, K>(&key, hash, o.cur())
            && *final(o.entries) == final(self).entries && *final(o.index.t) == final(self).indices && !final(self).linear,
        r matches Ok(Entry::Vacant(v)) ==> v.vinv() && (*v.map.entries)@ == old(self).entries@ && old(self).nohit(hash, &key) && v.hash == hash && v.key == key
            && *final(v.map.entries) == final(self).entries && *final(v.map.indices) == final(self).indices && !final(self).linear,
        r is Err ==> final(self).inv() && final(self).entries@ == old(self).entries@,
@endimpl
@impl impl<'a, K, V, E, G, R> Entry<'a, K, V, E, G, R>
@fn index id=Entry::index
    requires match *self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }
    ensures match *self { Entry::Occupied(o) => r == o.idx(), Entry::Vacant(v) => r == (*v.map.entries)@.len() }
@fn insert_entry id=Entry::insert_entry
    requires match self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }
    ensures r.oinv(), match self {
        Entry::Occupied(o) => r.idx() == o.idx() && (*r.entries)@ =~= set_value((*(o.entries))@, o.idx(), value) && *final(r.entries) == *final(o.entries) && *final(r.index.t) == *final(o.index.t),
        Entry::Vacant(v) => r.idx() == (*(v.map.entries))@.len() && (*r.entries)@ =~= (*(v.map.entries))@.push(Bucket { hash: v.hash, key: v.key, value }) && *final(r.entries) == *final(v.map.entries) && *final(r.index.t) == *final(v.map.indices),
    }
@fn or_insert
    requires match self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }
    ensures match self {
        Entry::Occupied(o) => *r == o.cur().value && (*final(o.entries))@ == set_value((*(o.entries))@, o.idx(), *final(r)) && *final(o.index.t) == *(o.index.t),
        Entry::Vacant(v) => *r == default && (*final(v.map.entries))@ == (*(v.map.entries))@.push(Bucket { hash: v.hash, key: v.key, value: *final(r) })
            && tok((*final(v.map.indices))@) && cm((*final(v.map.indices))@) =~= emap((*final(v.map.entries))@) && (*final(v.map.indices))@.len() == (*final(v.map.entries))@.len(),
    }
@fn or_insert_with
    requires match self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }, call.requires(()),
    ensures match self {
        Entry::Occupied(o) => *r == o.cur().value && (*final(o.entries))@ == set_value((*(o.entries))@, o.idx(), *final(r)) && *final(o.index.t) == *(o.index.t),
        Entry::Vacant(v) => call.ensures((), *r) && (*final(v.map.entries))@ == (*(v.map.entries))@.push(Bucket { hash: v.hash, key: v.key, value: *final(r) })
            && tok((*final(v.map.indices))@) && cm((*final(v.map.indices))@) =~= emap((*final(v.map.entries))@) && (*final(v.map.indices))@.len() == (*final(v.map.entries))@.len(),
    }
@fn or_insert_with_key
    requires match self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() && call.requires((&v.key,)) },
    ensures match self {
        Entry::Occupied(o) => *r == o.cur().value && (*final(o.entries))@ == set_value((*(o.entries))@, o.idx(), *final(r)) && *final(o.index.t) == *(o.index.t),
        Entry::Vacant(v) => call.ensures((&v.key,), *r) && (*final(v.map.entries))@ == (*(v.map.entries))@.push(Bucket { hash: v.hash, key: v.key, value: *final(r) })
            && tok((*final(v.map.indices))@) && cm((*final(v.map.indices))@) =~= emap((*final(v.map.entries))@) && (*final(v.map.indices))@.len() == (*final(v.map.entries))@.len(),
    }
@fn key id=Entry::key
    requires match *self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }
    ensures match *self { Entry::Occupied(o) => *r == o.cur().key, Entry::Vacant(v) => *r == v.key }
@fn and_modify
    requires match self { Entry::Occupied(o) => o.oinv() && forall|m: &mut V| *m == o.cur().value ==> #[trigger] f.requires((m,)), Entry::Vacant(v) => v.vinv() }
    ensures match self {
        Entry::Occupied(o) => r matches Entry::Occupied(p) && p.oinv() && p.idx() == o.idx() && p.index == o.index && *final(p.entries) == *final(o.entries)
            && (*p.entries)@ =~= set_value((*(o.entries))@, o.idx(), p.cur().value) && exists|m: &mut V| *m == o.cur().value && *final(m) == p.cur().value && #[trigger] f.ensures((m,), ()),
        Entry::Vacant(v) => r == self,
    }
@sub ( mut self , ==> (self,
@sub & mut self ==> &mut me_
@sub self } ==> me_ }
@enter
    let mut me_ = self;
@fn or_default
    requires match self { Entry::Occupied(o) => o.oinv(), Entry::Vacant(v) => v.vinv() }
    ensures match self {
        Entry::Occupied(o) => *r == o.cur().value && (*final(o.entries))@ == set_value((*(o.entries))@, o.idx(), *final(r)) && *final(o.index.t) == *(o.index.t),
        Entry::Vacant(v) => V::default.ensures((), *r) && (*final(v.map.entries))@ == (*(v.map.entries))@.push(Bucket { hash: v.hash, key: v.key, value: *final(r) })
            && tok((*final(v.map.indices))@) && cm((*final(v.map.indices))@) =~= emap((*final(v.map.entries))@) && (*final(v.map.indices))@.len() == (*final(v.map.entries))@.len(),
    }
@endimpl
@impl impl<'a, K, V, E, G, R> OccupiedEntry<'a, K, V, E, G, R>
@fn new id=OccupiedEntry::new
    ensures *r.entries == *old(entries), r.index == index, *final(r.entries) == *final(entries)
@fn index id=OccupiedEntry::index
    requires self.oinv()
    ensures r == self.idx(), r < (*old(self.entries))@.len()
@fn into_ref_mut
    ensures *r.indices == *old(self.index.t), *r.entries == *old(self.entries), *final(r.indices) == *final(self.index.t), *final(r.entries) == *final(self.entries)
@fn key id=OccupiedEntry::key
    requires self.oinv()
    ensures *r == self.cur().key
@fn get id=OccupiedEntry::get
    requires self.oinv()
    ensures *r == self.cur().value
@fn get_mut id=OccupiedEntry::get_mut
    requires old(self).oinv()
    ensures *r == old(self).cur().value, final(self).oinv(), final(self).idx() == old(self).idx(), (*final(self).entries)@ =~= set_value((*old(self).entries)@, old(self).idx(), *final(r)),
        final(self).index == old(self).index, *final(final(self).entries) == *final(old(self).entries),
@fn into_mut id=OccupiedEntry::into_mut
    requires self.oinv()
    ensures *r == self.cur().value, (*final(self.entries))@ == set_value((*old(self.entries))@, self.idx(), *final(r)), *final(self.index.t) == *old(self.index.t)
@fn insert id=OccupiedEntry::insert
    requires old(self).oinv()
    ensures r == old(self).cur().value, final(self).oinv(), final(self).idx() == old(self).idx(), (*final(self).entries)@ =~= set_value((*old(self).entries)@, old(self).idx(), value),
        final(self).index == old(self).index, *final(final(self).entries) == *final(old(self).entries),
@fn remove_entry id=OccupiedEntry::remove_entry
    requires self.oinv()
    ensures r is Ok, r->Ok_0.0 == self.cur().key, r->Ok_0.1 == self.cur().value, (*final(self.entries))@ =~= swap_removed((*old(self.entries))@, self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn swap_remove_entry id=OccupiedEntry::swap_remove_entry
    requires self.oinv()
    ensures r is Ok, r->Ok_0.0 == self.cur().key, r->Ok_0.1 == self.cur().value, (*final(self.entries))@ =~= swap_removed((*old(self.entries))@, self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn shift_remove_entry id=OccupiedEntry::shift_remove_entry
    requires self.oinv()
    ensures r is Ok, r->Ok_0.0 == self.cur().key, r->Ok_0.1 == self.cur().value, (*final(self.entries))@ =~= (*old(self.entries))@.remove(self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn remove id=OccupiedEntry::remove
    requires self.oinv()
    ensures r is Ok, r->Ok_0 == self.cur().value, (*final(self.entries))@ =~= swap_removed((*old(self.entries))@, self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn swap_remove id=OccupiedEntry::swap_remove
    requires self.oinv()
    ensures r is Ok, r->Ok_0 == self.cur().value, (*final(self.entries))@ =~= swap_removed((*old(self.entries))@, self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn shift_remove id=OccupiedEntry::shift_remove
    requires self.oinv()
    ensures r is Ok, r->Ok_0 == self.cur().value, (*final(self.entries))@ =~= (*old(self.entries))@.remove(self.idx()),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn move_index id=OccupiedEntry::move_index
    requires self.oinv(), to < (*old(self.entries))@.len()
    ensures r is Ok, (*final(self.entries))@ =~= moved_seq((*old(self.entries))@, self.idx(), to as int),
        tok((*final(self.index.t))@), cm((*final(self.index.t))@) =~= emap((*final(self.entries))@), (*final(self.index.t))@.len() == (*final(self.entries))@.len(),
@fn from_index anyctx
    requires other.iinv()
    ensures r is Ok, r->Ok_0.oinv(), r->Ok_0.idx() == other.index, *r->Ok_0.entries == *old(other.map.entries),
        *final(r->Ok_0.entries) == *final(other.map.entries), *final(r->Ok_0.index.t) == *final(other.map.indices),
@sub indices . find_entry ( $a ) ? . expect ( $m ) ==> vok(indices.find_entry($a)?)
@closure 1 (&usize, &mut E, &mut G) -> (b: Result<bool, R>)
    ensures b == Ok::<bool, R>(*i_ == index)
@endimpl
@impl impl<'a, K, V, E, G, R> VacantEntry<'a, K, V, E, G, R>
@fn index id=VacantEntry::index
    requires self.vinv()
    ensures r == (*old(self.map.entries))@.len()
@fn key id=VacantEntry::key
    ensures *r == self.key
@fn into_key
    ensures r == self.key
@fn insert id=VacantEntry::insert
    requires self.vinv()
    ensures *r == value, (*final(self.map.entries))@ == (*old(self.map.entries))@.push(Bucket { hash: self.hash, key: self.key, value: *final(r) }),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@fn insert_entry id=VacantEntry::insert_entry
    requires self.vinv()
    ensures r.oinv(), r.idx() == (*old(self.map.entries))@.len(), (*r.entries)@ =~= (*old(self.map.entries))@.push(Bucket { hash: self.hash, key: self.key, value }),
        *final(r.entries) == *final(self.map.entries), *final(r.index.t) == *final(self.map.indices),
@fn shift_insert id=VacantEntry::shift_insert
    requires self.vinv(), index <= (*old(self.map.entries))@.len()
    ensures r is Ok, *r->Ok_0 == value, (*final(self.map.entries))@ == (*old(self.map.entries))@.insert(index as int, Bucket { hash: self.hash, key: self.key, value: *final(r->Ok_0) }),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@sub ( mut self , ==> (self,
@sub self . ==> me_ .
@enter
    let mut me_ = self;
@endimpl
@impl impl<'a, K, V, E, G, R> IndexedEntry<'a, K, V, E, G, R>
@fn new id=IndexedEntry::new
    requires old(map).inv(), !old(map).linear, index < old(map).entries@.len()
    ensures r.iinv(), r.index == index, *r.map.entries == old(map).entries, *final(r.map.entries) == final(map).entries, *final(r.map.indices) == final(map).indices, final(map).linear == old(map).linear
@fn index id=IndexedEntry::index
    ensures r == self.index
@fn key id=IndexedEntry::key
    requires self.iinv()
    ensures *r == self.cur().key
@fn get id=IndexedEntry::get
    requires self.iinv()
    ensures *r == self.cur().value
@fn get_mut id=IndexedEntry::get_mut
    requires old(self).iinv()
    ensures *r == old(self).cur().value, final(self).iinv(), final(self).index == old(self).index, (*final(self).map.entries)@ =~= set_value((*old(self).map.entries)@, old(self).index as int, *final(r)),
        *final(self).map.indices == *old(self).map.indices, *final(final(self).map.indices) == *final(old(self).map.indices), *final(final(self).map.entries) == *final(old(self).map.entries),
@fn insert id=IndexedEntry::insert
    requires old(self).iinv()
    ensures r == old(self).cur().value, final(self).iinv(), final(self).index == old(self).index, (*final(self).map.entries)@ =~= set_value((*old(self).map.entries)@, old(self).index as int, value),
        *final(self).map.indices == *old(self).map.indices, *final(final(self).map.indices) == *final(old(self).map.indices), *final(final(self).map.entries) == *final(old(self).map.entries),
@fn into_mut id=IndexedEntry::into_mut
    requires self.iinv()
    ensures *r == self.cur().value, (*final(self.map.entries))@ == set_value((*old(self.map.entries))@, self.index as int, *final(r)), *final(self.map.indices) == *old(self.map.indices)
@fn swap_remove_entry id=IndexedEntry::swap_remove_entry
    requires self.iinv()
    ensures r is Ok, r->Ok_0.0 == self.cur().key, r->Ok_0.1 == self.cur().value, (*final(self.map.entries))@ =~= swap_removed((*old(self.map.entries))@, self.index as int),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@sub ( mut self , ==> (self,
@sub self . ==> me_ .
@enter
    let mut me_ = self;
@fn shift_remove_entry id=IndexedEntry::shift_remove_entry
    requires self.iinv()
    ensures r is Ok, r->Ok_0.0 == self.cur().key, r->Ok_0.1 == self.cur().value, (*final(self.map.entries))@ =~= (*old(self.map.entries))@.remove(self.index as int),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@sub ( mut self , ==> (self,
@sub self . ==> me_ .
@enter
    let mut me_ = self;
@fn swap_remove id=IndexedEntry::swap_remove
    requires self.iinv()
    ensures r is Ok, r->Ok_0 == self.cur().value, (*final(self.map.entries))@ =~= swap_removed((*old(self.map.entries))@, self.index as int),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@fn shift_remove id=IndexedEntry::shift_remove
    requires self.iinv()
    ensures r is Ok, r->Ok_0 == self.cur().value, (*final(self.map.entries))@ =~= (*old(self.map.entries))@.remove(self.index as int),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@fn move_index id=IndexedEntry::move_index
    requires self.iinv(), to < (*old(self.map.entries))@.len()
    ensures r is Ok, (*final(self.map.entries))@ =~= moved_seq((*old(self.map.entries))@, self.index as int, to as int),
        tok((*final(self.map.indices))@), cm((*final(self.map.indices))@) =~= emap((*final(self.map.entries))@), (*final(self.map.indices))@.len() == (*final(self.map.entries))@.len(),
@sub ( mut self , ==> (self,
@sub self . ==> me_ .
@enter
    let mut me_ = self;
@endimpl
// ---- the public map: hashing, the wrappers and the keyed (association list) reading ----
@verbatim
/// hashing: a hasher accumulates what is written; finish is a function of it
pub trait Hasher {
    spec fn st(&self) -> Seq<u64>;
    spec fn fin(s: Seq<u64>) -> u64;
    fn finish(&self) -> (r: u64) ensures r == Self::fin(self.st());
}
pub trait BuildHasher {
    type Hasher: Hasher;
    spec fn seed(&self) -> Seq<u64>;
    fn build_hasher(&self) -> (r: Self::Hasher) ensures r.st() == self.seed();
}
pub trait RubyHash<E, G, R> {
    spec fn writes(&self) -> Seq<u64>;
    fn ruby_hash<H: Hasher>(&self, state: &mut H, e: &mut E, g: &mut G) -> (r: Result<(), R>)
        ensures r is Ok ==> final(state).st() == old(state).st() + self.writes();
}
pub trait RubySymHash {
    spec fn swrites(&self) -> Seq<u64>;
    fn ruby_hash<H: Hasher>(&self, state: &mut H)
        ensures final(state).st() == old(state).st() + self.swrites();
}
pub open spec fn finished<S: BuildHasher>(b: &S, w: Seq<u64>) -> HashValue { HashValue(<S::Hasher as Hasher>::fin(b.seed() + w) as usize) }
/// equal keys write the same to the hasher (decided for the provided impls by C17)
pub open spec fn qcoh<K: RubyHash<E, G, R>, E, G, R, Q: ?Sized + RubyHash<E, G, R> + Equivalent<K, E, G, R>>() -> bool {
    forall|q: &Q, k: &K| #[trigger] q.eqv(k) ==> q.writes() == k.writes()
}
pub open spec fn symmetric<K: Equivalent<K, E, G, R>, E, G, R>() -> bool { forall|a: &K, b: &K| #[trigger] a.eqv(b) == b.eqv(a) }
pub open spec fn keyed<K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(es: Seq<Bucket<K, V>>, key: &Q, i: int) -> bool { 0 <= i < es.len() && key.eqv(&es[i].key) }
pub open spec fn nokey<K, V, E, G, R, Q: ?Sized + Equivalent<K, E, G, R>>(es: Seq<Bucket<K, V>>, key: &Q) -> bool {
    forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> !key.eqv(&es[i].key)
}
/// no two entries have equal keys
pub open spec fn distinct<K: Equivalent<K, E, G, R>, V, E, G, R>(es: Seq<Bucket<K, V>>) -> bool {
    forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < es.len() && 0 <= j < es.len() && i != j ==> !es[i].key.eqv(&es[j].key)
}
/// every entry is stored under the hash of its key
pub open spec fn hashed<K: RubyHash<E, G, R>, V, E, G, R, S: BuildHasher>(b: &S, es: Seq<Bucket<K, V>>) -> bool {
    forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> es[i].hash == finished(b, es[i].key.writes())
}
@end
@file rubymap/src/map.rs
@item struct RubyMap
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@sub E = ( ) ==> E
@sub G = ( ) ==> G
@sub R = ( ) ==> R
@sub S = RandomState ==> S
@file rubymap/src/util.rs
@fn third
    ensures r == t.2
@file rubymap/src/lib.rs
@impl impl<K, V> Bucket<K, V>
@fn refs
    ensures *r.0 == self.key, *r.1 == self.value
@fn ref_mut
    ensures *r.0 == old(self).key, *r.1 == old(self).value, final(self).hash == old(self).hash, final(self).key == old(self).key, final(self).value == *final(r.1)
@endimpl
@file rubymap/src/map.rs
@verbatim
impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> {
    pub open spec fn es(&self) -> Seq<Bucket<K, V>> { self.core.entries@ }
    pub open spec fn inv(&self) -> bool { self.core.inv() }
}
impl<K: RubyHash<E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S> {
    pub open spec fn hashed(&self) -> bool { hashed::<K, V, E, G, R, S>(&self.hash_builder, self.es()) }
    pub open spec fn hof<Q: ?Sized + RubyHash<E, G, R>>(&self, q: &Q) -> HashValue { finished(&self.hash_builder, q.writes()) }
}
@end
@verbatim
/// Clone::clone_from leaves a clone of its argument
#[verifier::external_body]
pub fn builder_clone_from<S: Clone>(a: &mut S, b: &S) ensures cloned(*b, *final(a)) { unimplemented!() }
@end
@impl impl<K, V, E, G, R, S> Clone for RubyMap<K, V, E, G, R, S> where K: Clone, V: Clone, S: Clone, => impl<K: Clone, V: Clone, E, G, R, S: Clone> RubyMap<K, V, E, G, R, S>
@fn clone id=Map::clone
    requires self.inv()
    ensures r.inv(), copies(self.es(), r.es()), cloned(self.hash_builder, r.hash_builder)
@fn clone_from id=Map::clone_from
    requires other.inv()
    ensures final(self).inv(), copies(other.es(), final(self).es()), cloned(other.hash_builder, final(self).hash_builder)
@sub self . hash_builder . clone_from ( $a ) ==> builder_clone_from(&mut self.hash_builder, $a)
@endimpl
@impl impl<K, V, E, G, R, S> Entries for RubyMap<K, V, E, G, R, S> => impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn into_entries id=Map::into_entries
    ensures r == self.core.entries
@sub Self :: Entry ==> Bucket<K, V>
@fn as_entries id=Map::as_entries
    ensures r@ == self.es()
@sub Self :: Entry ==> Bucket<K, V>
@fn as_entries_mut id=Map::as_entries_mut
    ensures (*r)@ == old(self).es(), (*final(r))@ == final(self).es(), final(self).core.indices == old(self).core.indices, final(self).core.linear == old(self).core.linear, final(self).hash_builder == old(self).hash_builder,
@sub Self :: Entry ==> Bucket<K, V>
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn with_capacity_and_hasher
    ensures r.inv(), r.es().len() == 0, r.hash_builder == hash_builder
@fn with_hasher
    ensures r.inv(), r.es().len() == 0, r.hash_builder == hash_builder
@fn capacity id=Map::capacity
    ensures self.inv() ==> r >= self.es().len()
@fn len id=Map::len
    ensures r == self.es().len()
@fn is_empty id=Map::is_empty
    ensures r == (self.es().len() == 0)
@fn clear id=Map::clear
    ensures final(self).inv(), final(self).es().len() == 0, final(self).hash_builder == old(self).hash_builder
@fn truncate id=Map::truncate
    requires old(self).inv()
    ensures r is Ok, final(self).inv(), final(self).es() =~= (if len < old(self).es().len() { old(self).es().subrange(0, len as int) } else { old(self).es() }), final(self).hash_builder == old(self).hash_builder
@fn split_off id=Map::split_off
    requires old(self).inv(), at <= old(self).es().len()
    ensures r is Ok, final(self).inv(), final(self).es() =~= old(self).es().subrange(0, at as int), final(self).hash_builder == old(self).hash_builder,
        r->Ok_0.inv(), r->Ok_0.es() =~= old(self).es().subrange(at as int, old(self).es().len() as int), cloned(old(self).hash_builder, r->Ok_0.hash_builder),
@fn reserve id=Map::reserve
    requires old(self).inv(), old(self).es().len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hash_builder == old(self).hash_builder
@fn reserve_exact id=Map::reserve_exact
    requires old(self).inv(), old(self).es().len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hash_builder == old(self).hash_builder
@fn shrink_to_fit id=Map::shrink_to_fit
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hash_builder == old(self).hash_builder
@fn shrink_to id=Map::shrink_to
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hash_builder == old(self).hash_builder
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where K: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn insert_full id=Map::insert_full
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>(), symmetric::<K, E, G, R>(), distinct::<K, V, E, G, R>(old(self).es()),
    ensures final(self).inv(), final(self).hashed(), distinct::<K, V, E, G, R>(final(self).es()), final(self).hash_builder == old(self).hash_builder,
        r matches Ok((i, Some(v))) ==> keyed::<K, V, E, G, R, K>(old(self).es(), &key, i as int) && v == old(self).es()[i as int].value && final(self).es() =~= set_value(old(self).es(), i as int, value),
        r matches Ok((i, None)) ==> i == old(self).es().len() && nokey::<K, V, E, G, R, K>(old(self).es(), &key) && final(self).es() =~= old(self).es().push(Bucket { hash: old(self).hof(&key), key, value }),
        r is Err ==> final(self).es() == old(self).es(),
@fn insert id=Map::insert
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>(), symmetric::<K, E, G, R>(), distinct::<K, V, E, G, R>(old(self).es()),
    ensures final(self).inv(), final(self).hashed(), distinct::<K, V, E, G, R>(final(self).es()), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(v)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, K>(old(self).es(), &key, i) && v == old(self).es()[i].value && final(self).es() =~= set_value(old(self).es(), i, value),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, K>(old(self).es(), &key) && final(self).es() =~= old(self).es().push(Bucket { hash: old(self).hof(&key), key, value }),
        r is Err ==> final(self).es() == old(self).es(),
@fn insert_prehashed id=Map::insert_prehashed
    requires old(self).inv(), K::obeys_eq_spec(), forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() && old(self).core.entries@[i].key.eq_spec(&key) ==> old(self).core.entries@[i].hash == HashValue(hash)
    ensures final(self).inv(),
        r matches Some(v) ==> exists|i: int| 0 <= i < old(self).core.entries@.len() && #[trigger] phit::<K, V>(&key, HashValue(hash), old(self).core.entries@[i]) && v == old(self).core.entries@[i].value && final(self).core.entries@ =~= set_value(old(self).core.entries@, i, value),
        r is None ==> (forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() ==> !phit::<K, V>(&key, HashValue(hash), old(self).core.entries@[i])) && final(self).core.entries@ =~= old(self).core.entries@.push(Bucket { hash: HashValue(hash), key, value }),
@fn get_prehashed id=Map::get_prehashed
    requires self.core.winv(), K::obeys_eq_spec(), forall|i: int| #![trigger self.core.entries@[i]] 0 <= i < self.core.entries@.len() && self.core.entries@[i].key.eq_spec(key) ==> self.core.entries@[i].hash == HashValue(hash)
    ensures r is Ok,
        r matches Ok(Some(v)) ==> exists|i: int| 0 <= i < self.core.entries@.len() && self.core.live(i) && #[trigger] phit::<K, V>(key, HashValue(hash), self.core.entries@[i]) && *v == self.core.entries@[i].value,
        r matches Ok(None) ==> forall|i: int| #![trigger self.core.entries@[i]] 0 <= i < self.core.entries@.len() && self.core.live(i) ==> !phit::<K, V>(key, HashValue(hash), self.core.entries@[i]),
@fn insert_sym_full id=Map::insert_sym_full
    requires old(self).inv(), forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() && key.seqv(&old(self).core.entries@[i].key) ==> old(self).core.entries@[i].hash == finished(&old(self).hash_builder, key.swrites())
    ensures
        final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r.1 matches Some(v) ==> r.0 < old(self).es().len() && key.seqv(&old(self).es()[r.0 as int].key) && v == old(self).es()[r.0 as int].value && final(self).es() =~= set_value(old(self).es(), r.0 as int, value),
        r.1 is None ==> r.0 == old(self).es().len() && (forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() ==> !key.seqv(&old(self).core.entries@[i].key))
            && final(self).es().len() == r.0 + 1 && final(self).es().drop_last() =~= old(self).es() && final(self).es().last().hash == finished(&old(self).hash_builder, key.swrites()) && final(self).es().last().value == value
            && from_sym::<I, K>(key, final(self).es().last().key),
@sub I : RubySymHash + RubySymEql ==> I: RubySymHash + SymEquivalent<K>
@sub K : std :: borrow :: Borrow < I > + From < I > , ==> K: Sized,
@fn insert_sym id=Map::insert_sym
    requires old(self).inv(), forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() && key.seqv(&old(self).core.entries@[i].key) ==> old(self).core.entries@[i].hash == finished(&old(self).hash_builder, key.swrites())
    ensures
        final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Some(v) ==> exists|i: int| 0 <= i < old(self).core.entries@.len() && key.seqv(&(#[trigger] old(self).core.entries@[i]).key) && v == old(self).core.entries@[i].value && final(self).es() =~= set_value(old(self).es(), i, value),
        r is None ==> (forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() ==> !key.seqv(&old(self).core.entries@[i].key))
            && final(self).es().len() == old(self).es().len() + 1 && final(self).es().drop_last() =~= old(self).es() && final(self).es().last().hash == finished(&old(self).hash_builder, key.swrites()) && final(self).es().last().value == value
            && from_sym::<I, K>(key, final(self).es().last().key),
@sub I : RubySymHash + RubySymEql ==> I: RubySymHash + SymEquivalent<K>
@sub K : std :: borrow :: Borrow < I > + From < I > , ==> K: Sized,
@fn insert_prehashed_with id=Map::insert_prehashed_with
    requires old(self).inv(), forall|k: &K| #[trigger] eq.requires((k,)),
        forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() && eq.ensures((&old(self).core.entries@[i].key,), true) ==> old(self).core.entries@[i].hash == HashValue(hash)
    ensures final(self).inv(),
        r matches Some(v) ==> exists|i: int| 0 <= i < old(self).core.entries@.len() && (#[trigger] old(self).core.entries@[i]).hash == HashValue(hash) && eq.ensures((&old(self).core.entries@[i].key,), true) && v == old(self).core.entries@[i].value && final(self).core.entries@ =~= set_value(old(self).core.entries@, i, value),
        r is None ==> (forall|i: int| #![trigger old(self).core.entries@[i]] 0 <= i < old(self).core.entries@.len() ==> (old(self).core.entries@[i].hash == HashValue(hash) ==> eq.ensures((&old(self).core.entries@[i].key,), false)))
            && final(self).core.entries@ =~= old(self).core.entries@.push(Bucket { hash: HashValue(hash), key, value }),
@sub eq : impl FnMut ( & K ) -> bool ==> eq: impl Fn(&K) -> bool + Copy
@fn get_prehashed_with id=Map::get_prehashed_with
    requires self.core.winv(), forall|k: &K| #[trigger] eq.requires((k,)),
        forall|i: int| #![trigger self.core.entries@[i]] 0 <= i < self.core.entries@.len() && eq.ensures((&self.core.entries@[i].key,), true) ==> self.core.entries@[i].hash == HashValue(hash)
    ensures r is Ok,
        r matches Ok(Some(v)) ==> exists|i: int| 0 <= i < self.core.entries@.len() && self.core.live(i) && (#[trigger] self.core.entries@[i]).hash == HashValue(hash) && eq.ensures((&self.core.entries@[i].key,), true) && *v == self.core.entries@[i].value,
        r matches Ok(None) ==> forall|i: int| #![trigger self.core.entries@[i]] 0 <= i < self.core.entries@.len() && self.core.live(i) && self.core.entries@[i].hash == HashValue(hash) ==> eq.ensures((&self.core.entries@[i].key,), false),
@sub eq : impl FnMut ( & K ) -> bool ==> eq: impl Fn(&K) -> bool + Copy
@fn insert_before
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>(), index <= old(self).es().len()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok((i, Some(v))) ==> exists|k: int| #[trigger] keyed::<K, V, E, G, R, K>(old(self).es(), &key, k) && v == old(self).es()[k].value
            && i == (if index > k { index - 1 } else { index as int }) && final(self).es() =~= moved_seq(set_value(old(self).es(), k, value), k, i as int),
        r matches Ok((i, None)) ==> i == index && nokey::<K, V, E, G, R, K>(old(self).es(), &key) && final(self).es() =~= old(self).es().insert(index as int, Bucket { hash: old(self).hof(&key), key, value }),
        r is Err ==> final(self).es() == old(self).es(),
@sub mut index : usize ==> index: usize
@enter
    let mut index = index;
@sub old ==> old_
@before let old_ =
    proof { assert(keyed::<K, V, E, G, R, K>(old(self).es(), &key, entry.idx())); }
@fn shift_insert id=Map::shift_insert
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>(), index <= old(self).es().len(),
        index == old(self).es().len() ==> nokey::<K, V, E, G, R, K>(old(self).es(), &key),
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(v)) ==> exists|k: int| #[trigger] keyed::<K, V, E, G, R, K>(old(self).es(), &key, k) && v == old(self).es()[k].value
            && final(self).es() =~= moved_seq(set_value(old(self).es(), k, value), k, index as int),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, K>(old(self).es(), &key) && final(self).es() =~= old(self).es().insert(index as int, Bucket { hash: old(self).hof(&key), key, value }),
        r is Err ==> final(self).es() == old(self).es(),
@sub old ==> old_
@before let old_ =
    proof { assert(keyed::<K, V, E, G, R, K>(old(self).es(), &key, entry.idx())); }
@fn entry id=Map::entry
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, K>(),
    ensures final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Entry::Occupied(o)) ==> o.oinv() && (*o.entries)@ == old(self).es() && key.eqv(&o.cur().key)
            && *final(o.entries) == final(self).core.entries && *final(o.index.t) == final(self).core.indices && !final(self).core.linear,
        r matches Ok(Entry::Vacant(v)) ==> v.vinv() && (*v.map.entries)@ == old(self).es() && nokey::<K, V, E, G, R, K>(old(self).es(), &key) && v.hash == old(self).hof(&key) && v.key == key
            && *final(v.map.entries) == final(self).core.entries && *final(v.map.indices) == final(self).core.indices && !final(self).core.linear,
        r is Err ==> final(self).inv() && final(self).es() == old(self).es(),
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> where S: BuildHasher, => impl<K: RubyHash<E, G, R>, V, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn hash
    ensures r matches Ok(h) ==> h == self.hof(key)
@fn hash_sym
    ensures r == finished(&self.hash_builder, key.swrites())
@fn get_index_of id=Map::get_index_of
    requires self.inv(), self.hashed(), qcoh::<K, E, G, R, Q>()
    ensures
        r matches Ok(Some(i)) ==> keyed::<K, V, E, G, R, Q>(self.es(), key, i as int),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(self.es(), key),
@fn contains_key
    requires self.inv(), self.hashed(), qcoh::<K, E, G, R, Q>()
    ensures r matches Ok(b) ==> b == !nokey::<K, V, E, G, R, Q>(self.es(), key)
@fn get id=Map::get
    requires self.inv(), self.hashed(), qcoh::<K, E, G, R, Q>()
    ensures
        r matches Ok(Some(v)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(self.es(), key, i) && *v == self.es()[i].value,
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(self.es(), key),
@fn get_key_value id=Map::get_key_value
    requires self.inv(), self.hashed(), qcoh::<K, E, G, R, Q>()
    ensures
        r matches Ok(Some(kv)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(self.es(), key, i) && *kv.0 == self.es()[i].key && *kv.1 == self.es()[i].value,
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(self.es(), key),
@fn get_full id=Map::get_full
    requires self.inv(), self.hashed(), qcoh::<K, E, G, R, Q>()
    ensures
        r matches Ok(Some(t)) ==> keyed::<K, V, E, G, R, Q>(self.es(), key, t.0 as int) && *t.1 == self.es()[t.0 as int].key && *t.2 == self.es()[t.0 as int].value,
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(self.es(), key),
@fn get_mut id=Map::get_mut
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(v)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && *v == old(self).es()[i].value && final(self).es() =~= set_value(old(self).es(), i, *final(v)),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn get_full_mut id=Map::get_full_mut
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> keyed::<K, V, E, G, R, Q>(old(self).es(), key, t.0 as int) && *t.1 == old(self).es()[t.0 as int].key && *t.2 == old(self).es()[t.0 as int].value && final(self).es() =~= set_value(old(self).es(), t.0 as int, *final(t.2)),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn swap_remove_full id=Map::swap_remove_full
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> keyed::<K, V, E, G, R, Q>(old(self).es(), key, t.0 as int) && t.1 == old(self).es()[t.0 as int].key && t.2 == old(self).es()[t.0 as int].value && final(self).es() =~= swap_removed(old(self).es(), t.0 as int),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn remove_entry id=Map::remove_entry
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && t.0 == old(self).es()[i].key && t.1 == old(self).es()[i].value && final(self).es() =~= swap_removed(old(self).es(), i),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn swap_remove_entry id=Map::swap_remove_entry
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && t.0 == old(self).es()[i].key && t.1 == old(self).es()[i].value && final(self).es() =~= swap_removed(old(self).es(), i),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn swap_remove id=Map::swap_remove
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && t == old(self).es()[i].value && final(self).es() =~= swap_removed(old(self).es(), i),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn shift_remove_full id=Map::shift_remove_full
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> keyed::<K, V, E, G, R, Q>(old(self).es(), key, t.0 as int) && t.1 == old(self).es()[t.0 as int].key && t.2 == old(self).es()[t.0 as int].value && final(self).es() =~= old(self).es().remove(t.0 as int),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn shift_remove_entry id=Map::shift_remove_entry
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && t.0 == old(self).es()[i].key && t.1 == old(self).es()[i].value && final(self).es() =~= old(self).es().remove(i),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn shift_remove id=Map::shift_remove
    requires old(self).inv(), old(self).hashed(), qcoh::<K, E, G, R, Q>()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> exists|i: int| #[trigger] keyed::<K, V, E, G, R, Q>(old(self).es(), key, i) && t == old(self).es()[i].value && final(self).es() =~= old(self).es().remove(i),
        r matches Ok(None) ==> nokey::<K, V, E, G, R, Q>(old(self).es(), key) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@fn tombstone_remove
    requires old(self).core.winv(), forall|i: int| #![trigger old(self).es()[i]] 0 <= i < old(self).es().len() && key.eqv(&old(self).es()[i].key) ==> old(self).es()[i].hash == old(self).hof(key),
    ensures final(self).core.winv(), final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(t)) ==> old(self).core.live(t.0 as int) && keyed::<K, V, E, G, R, Q>(old(self).es(), key, t.0 as int) && t.1 == old(self).es()[t.0 as int].key && t.2 == old(self).es()[t.0 as int].value
            && final(self).es() =~= old(self).es().update(t.0 as int, Bucket { hash: old(self).es()[t.0 as int].hash, key: dead_key, value: dead_value })
            && forall|j: int| #[trigger] final(self).core.live(j) <==> old(self).core.live(j) && j != t.0,
        r matches Ok(None) ==> final(self).es() == old(self).es() && (forall|j: int| #[trigger] final(self).core.live(j) == old(self).core.live(j))
            && forall|i: int| #![trigger old(self).es()[i]] 0 <= i < old(self).es().len() && old(self).core.live(i) ==> !key.eqv(&old(self).es()[i].key),
        r is Err ==> final(self).es() == old(self).es() && forall|j: int| #[trigger] final(self).core.live(j) == old(self).core.live(j),
@fn tombstone_index id=Map::tombstone_index
    requires old(self).core.winv(), index < old(self).es().len() ==> old(self).core.live(index as int),
    ensures r is Ok, final(self).core.winv(),
        r matches Ok(None) ==> index >= old(self).es().len() && final(self).es() == old(self).es() && forall|j: int| #[trigger] final(self).core.live(j) == old(self).core.live(j),
        r matches Ok(Some(kv)) ==> index < old(self).es().len() && kv.0 == old(self).es()[index as int].key && kv.1 == old(self).es()[index as int].value
            && final(self).es() =~= old(self).es().update(index as int, Bucket { hash: old(self).es()[index as int].hash, key: dead_key, value: dead_value })
            && forall|j: int| #[trigger] final(self).core.live(j) <==> old(self).core.live(j) && j != index,
@fn compact_tombstones id=Map::compact_tombstones
    requires old(self).core.linear ==> old(self).core.indices@.len() == 0,
        forall|i: int| 0 <= i < old(self).core.entries@.len() ==> #[trigger] is_dead.requires((&old(self).core.entries@[i].key,)),
    ensures final(self).inv(), exists|keep: Seq<bool>| kept_keys(old(self).core.entries@, keep, is_dead) && final(self).core.entries@ == #[trigger] filter_by(old(self).core.entries@, keep),
@endimpl
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S>
@fn pop id=Map::pop
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hash_builder == old(self).hash_builder,
        r matches Ok(None) ==> old(self).es().len() == 0 && final(self).es() == old(self).es(),
        r matches Ok(Some(kv)) ==> old(self).es().len() > 0 && final(self).es() =~= old(self).es().drop_last() && kv.0 == old(self).es().last().key && kv.1 == old(self).es().last().value,
@fn reverse id=Map::reverse
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() =~= old(self).es().reverse()
@fn get_index
    ensures index < self.es().len() ==> r is Some && *r->Some_0.0 == self.es()[index as int].key && *r->Some_0.1 == self.es()[index as int].value, index >= self.es().len() ==> r is None
@fn get_index_mut
    requires old(self).inv()
    ensures final(self).inv(), final(self).hash_builder == old(self).hash_builder, index >= old(self).es().len() ==> r is None && final(self).es() == old(self).es(),
        index < old(self).es().len() ==> r is Some && *r->Some_0.0 == old(self).es()[index as int].key && *r->Some_0.1 == old(self).es()[index as int].value && final(self).es() =~= set_value(old(self).es(), index as int, *final(r->Some_0.1)),
@fn get_index_entry
    requires old(self).inv()
    ensures index >= old(self).es().len() ==> r is None && final(self).inv() && final(self).es() == old(self).es(),
        index < old(self).es().len() ==> r is Some && r->Some_0.iinv() && r->Some_0.index == index && (*r->Some_0.map.entries)@ == old(self).es()
            && *final(r->Some_0.map.entries) == final(self).core.entries && *final(r->Some_0.map.indices) == final(self).core.indices && !final(self).core.linear,
@fn first
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0.0 == self.es()[0].key && *r->Some_0.1 == self.es()[0].value, self.es().len() == 0 ==> r is None
@fn last
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0.0 == self.es().last().key && *r->Some_0.1 == self.es().last().value, self.es().len() == 0 ==> r is None
@fn first_entry
    requires old(self).inv()
    ensures old(self).es().len() == 0 ==> r is None && final(self).inv() && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && r->Some_0.iinv() && r->Some_0.index == 0 && (*r->Some_0.map.entries)@ == old(self).es()
            && *final(r->Some_0.map.entries) == final(self).core.entries && *final(r->Some_0.map.indices) == final(self).core.indices && !final(self).core.linear,
@fn last_entry
    requires old(self).inv()
    ensures old(self).es().len() == 0 ==> r is None && final(self).inv() && final(self).es() == old(self).es(),
        old(self).es().len() > 0 ==> r is Some && r->Some_0.iinv() && r->Some_0.index == old(self).es().len() - 1 && (*r->Some_0.map.entries)@ == old(self).es()
            && *final(r->Some_0.map.entries) == final(self).core.entries && *final(r->Some_0.map.indices) == final(self).core.indices && !final(self).core.linear,
@fn swap_remove_index id=Map::swap_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(kv)) ==> index < old(self).es().len() && kv.0 == old(self).es()[index as int].key && kv.1 == old(self).es()[index as int].value && final(self).es() =~= swap_removed(old(self).es(), index as int),
        r matches Ok(None) ==> index >= old(self).es().len() && final(self).es() == old(self).es(),
@fn shift_remove_index id=Map::shift_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hash_builder == old(self).hash_builder,
        r matches Ok(Some(kv)) ==> index < old(self).es().len() && kv.0 == old(self).es()[index as int].key && kv.1 == old(self).es()[index as int].value && final(self).es() =~= old(self).es().remove(index as int),
        r matches Ok(None) ==> index >= old(self).es().len() && final(self).es() == old(self).es(),
@fn move_index id=Map::move_index
    requires old(self).inv(), from < old(self).es().len(), to < old(self).es().len()
    ensures final(self).inv(), r is Ok, final(self).hash_builder == old(self).hash_builder, final(self).es() =~= moved_seq(old(self).es(), from as int, to as int),
@endimpl
@impl impl<K, V, E, G, R> RubyEql<E, G, R> for RubyMap<K, V, E, G, R> where K: RubyHash<E, G, R> + RubyEql<E, G, R>, V: RubyEql<E, G, R>, => impl<K: RubyHash<E, G, R> + Equivalent<K, E, G, R>, V: Equivalent<V, E, G, R>, E, G, R, S: BuildHasher> RubyMap<K, V, E, G, R, S>
@fn eql id=Map::eql
    requires other.inv(), other.hashed(), qcoh::<K, E, G, R, K>()
    ensures
        r matches Ok(true) ==> self.es().len() == other.es().len() && forall|i: int| 0 <= i < self.es().len() ==> same_at::<K, V, E, G, R>(#[trigger] self.core.entries@[i], other.es()),
        r matches Ok(false) ==> self.es().len() != other.es().len() || exists|i: int| 0 <= i < self.es().len() && differs_at::<K, V, E, G, R>(#[trigger] self.core.entries@[i], other.es()),
@sub other : & RubyMap < K , V , E , G , R > ==> other: &RubyMap<K, V, E, G, R, S>
@sub for ( key , value ) in self . iter ( ) { ==> for b_ in &self.core.entries { let (key, value) = b_.refs();
@sub value . eql ( $a ) ==> value.equivalent($a)
@loop 1
    invariant _n1 == self.core.entries@.len(), self.es().len() == other.es().len(), other.inv(), other.hashed(), qcoh::<K, E, G, R, K>(),
        forall|i: int| 0 <= i < _k1 ==> same_at::<K, V, E, G, R>(#[trigger] self.core.entries@[i], other.es()),
@endimpl
@verbatim
pub open spec fn same_at<K: Equivalent<K, E, G, R>, V: Equivalent<V, E, G, R>, E, G, R>(b: Bucket<K, V>, es: Seq<Bucket<K, V>>) -> bool {
    exists|j: int| #[trigger] keyed::<K, V, E, G, R, K>(es, &b.key, j) && b.value.eqv(&es[j].value)
}
pub open spec fn differs_at<K: Equivalent<K, E, G, R>, V: Equivalent<V, E, G, R>, E, G, R>(b: Bucket<K, V>, es: Seq<Bucket<K, V>>) -> bool {
    nokey::<K, V, E, G, R, K>(es, &b.key) || exists|j: int| #[trigger] keyed::<K, V, E, G, R, K>(es, &b.key, j) && !b.value.eqv(&es[j].value)
}
@end
@verbatim
// keys stay distinct and filed under their own hash whenever the entries after are some of the entries before, each used once
pub open spec fn drawn<T>(t: Seq<T>, s: Seq<T>, f: spec_fn(int) -> int) -> bool {
    &&& forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> 0 <= f(i) < s.len() && t[i] == s[f(i)]
    &&& forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j ==> #[trigger] f(i) != #[trigger] f(j)
}
pub proof fn drawn_distinct<K: Equivalent<K, E, G, R>, V, E, G, R>(t: Seq<Bucket<K, V>>, s: Seq<Bucket<K, V>>, f: spec_fn(int) -> int)
    requires drawn(t, s, f), distinct::<K, V, E, G, R>(s)
    ensures distinct::<K, V, E, G, R>(t)
{
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && i != j implies !t[i].key.eqv(&t[j].key) by {
        assert(f(i) != f(j)); assert(t[i] == s[f(i)] && t[j] == s[f(j)]);
    }
}
pub proof fn reorder_distinct<K: Equivalent<K, E, G, R>, V, E, G, R>(s: Seq<Bucket<K, V>>, i: int, j: int)
    requires distinct::<K, V, E, G, R>(s), 0 <= i < s.len(), 0 <= j < s.len()
    ensures distinct::<K, V, E, G, R>(s.remove(i)), distinct::<K, V, E, G, R>(swap_removed(s, i)), distinct::<K, V, E, G, R>(moved_seq(s, i, j)), distinct::<K, V, E, G, R>(s.reverse()), distinct::<K, V, E, G, R>(s.subrange(0, i)), distinct::<K, V, E, G, R>(s.subrange(i, s.len() as int)),
{
    drawn_distinct::<K, V, E, G, R>(s.remove(i), s, |k: int| if k < i { k } else { k + 1 });
    drawn_distinct::<K, V, E, G, R>(swap_removed(s, i), s, |k: int| if k == i { s.len() - 1 } else { k });
    drawn_distinct::<K, V, E, G, R>(moved_seq(s, i, j), s, |k: int| if k == j { i } else { let q = if k < j { k } else { k - 1 }; if q < i { q } else { q + 1 } });
    drawn_distinct::<K, V, E, G, R>(s.reverse(), s, |k: int| s.len() - 1 - k);
    drawn_distinct::<K, V, E, G, R>(s.subrange(0, i), s, |k: int| k);
    drawn_distinct::<K, V, E, G, R>(s.subrange(i, s.len() as int), s, |k: int| k + i);
}
/// with distinct keys and an equivalence, a key is found at one position at most
pub proof fn one_position<K: Equivalent<K, E, G, R>, V, E, G, R>(s: Seq<Bucket<K, V>>, key: &K, i: int, j: int)
    requires distinct::<K, V, E, G, R>(s), symmetric::<K, E, G, R>(), forall|a: &K, b: &K, c: &K| #[trigger] a.eqv(b) && #[trigger] b.eqv(c) ==> a.eqv(c),
        keyed::<K, V, E, G, R, K>(s, key, i), keyed::<K, V, E, G, R, K>(s, key, j)
    ensures i == j
{ assert(s[i].key.eqv(key)); assert(key.eqv(&s[j].key)); if i != j { assert(s[i].key.eqv(&s[j].key)); } }
@end
// ---- the ordered set: a map to () read as a list of distinct elements ----
@file rubymap/src/lib.rs
@impl impl<K, V> Bucket<K, V>
@fn key_ref
    ensures *r == self.key
@endimpl
@file rubymap/src/set.rs
@item struct RubySet
@pre
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@sub E = ( ) ==> E
@sub G = ( ) ==> G
@sub R = ( ) ==> R
@sub S = RandomState ==> S
@verbatim
impl<T, E, G, R, S> RubySet<T, E, G, R, S> {
    pub open spec fn es(&self) -> Seq<Bucket<T, ()>> { self.map.es() }
    pub open spec fn inv(&self) -> bool { self.map.inv() }
    pub open spec fn hb(&self) -> S { self.map.hash_builder }
}
impl<T: RubyHash<E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S> {
    pub open spec fn hashed(&self) -> bool { self.map.hashed() }
    pub open spec fn bucket(&self, value: T) -> Bucket<T, ()> { Bucket { hash: self.map.hof(&value), key: value, value: () } }
}
pub open spec fn transitive<K: Equivalent<K, E, G, R>, E, G, R>() -> bool { forall|a: &K, b: &K, c: &K| #[trigger] a.eqv(b) && #[trigger] b.eqv(c) ==> a.eqv(c) }
/// every element of a is in b
pub open spec fn subset<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> !nokey::<T, (), E, G, R, T>(b, &#[trigger] a[i].key)
}
pub open spec fn disjoint<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>) -> bool {
    forall|i: int| 0 <= i < a.len() ==> nokey::<T, (), E, G, R, T>(b, &#[trigger] a[i].key)
}
pub proof fn injection_small(n: int, m: int, f: spec_fn(int) -> int)
    requires 0 <= n, 0 <= m, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f(i) < m, forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] f(i) != #[trigger] f(j)
    ensures n <= m
    decreases m
{
    if n > 0 {
        assert(0 <= f(0) < m);
        if exists|k: int| 0 <= k < n && #[trigger] f(k) == m - 1 {
            let k = choose|k: int| 0 <= k < n && #[trigger] f(k) == m - 1;
            let h = |i: int| if i < k { f(i) } else { f(i + 1) };
            assert forall|i: int| 0 <= i < n - 1 implies 0 <= #[trigger] h(i) < m - 1 by { let q = if i < k { i } else { i + 1 }; assert(f(q) != f(k)); assert(0 <= f(q) < m); }
            assert forall|i: int, j: int| 0 <= i < n - 1 && 0 <= j < n - 1 && i != j implies #[trigger] h(i) != #[trigger] h(j) by { let q = if i < k { i } else { i + 1 }; let p = if j < k { j } else { j + 1 }; assert(f(q) != f(p)); }
            injection_small(n - 1, m - 1, h);
        } else {
            assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] f(i) < m - 1 by { assert(0 <= f(i) < m); }
            injection_small(n, m - 1, f);
        }
    }
}
pub open spec fn place<T: Equivalent<T, E, G, R>, E, G, R>(b: Seq<Bucket<T, ()>>, k: T) -> int { choose|j: int| keyed::<T, (), E, G, R, T>(b, &k, j) }
pub proof fn place_is<T: Equivalent<T, E, G, R>, E, G, R>(b: Seq<Bucket<T, ()>>, k: T)
    requires !nokey::<T, (), E, G, R, T>(b, &k)
    ensures keyed::<T, (), E, G, R, T>(b, &k, place::<T, E, G, R>(b, k))
{ let i = choose|i: int| #![trigger b[i]] 0 <= i < b.len() && k.eqv(&b[i].key); assert(keyed::<T, (), E, G, R, T>(b, &k, i)); }
pub proof fn places_differ<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>)
    requires subset::<T, E, G, R>(a, b), distinct::<T, (), E, G, R>(a), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>()
    ensures ({ let f = |i: int| place::<T, E, G, R>(b, a[i].key);
        (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] f(i) < b.len() && a[i].key.eqv(&b[f(i)].key)) && forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> #[trigger] f(i) != #[trigger] f(j) })
{
    let f = |i: int| place::<T, E, G, R>(b, a[i].key);
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] f(i) < b.len() && a[i].key.eqv(&b[f(i)].key) by { place_is::<T, E, G, R>(b, a[i].key); }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies #[trigger] f(i) != #[trigger] f(j) by {
        place_is::<T, E, G, R>(b, a[i].key); place_is::<T, E, G, R>(b, a[j].key);
        if f(i) == f(j) { let k = b[f(i)].key; assert(a[i].key.eqv(&k)); assert(a[j].key.eqv(&k)); assert(k.eqv(&a[j].key)); assert(a[i].key.eqv(&a[j].key)); }
    }
}
pub proof fn subset_len<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>)
    requires subset::<T, E, G, R>(a, b), distinct::<T, (), E, G, R>(a), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>()
    ensures a.len() <= b.len()
{ places_differ::<T, E, G, R>(a, b); injection_small(a.len() as int, b.len() as int, |i: int| place::<T, E, G, R>(b, a[i].key)); }
pub proof fn subset_equal<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>)
    requires subset::<T, E, G, R>(a, b), distinct::<T, (), E, G, R>(a), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>(), a.len() == b.len()
    ensures subset::<T, E, G, R>(b, a)
{
    places_differ::<T, E, G, R>(a, b);
    let f = |i: int| place::<T, E, G, R>(b, a[i].key);
    assert forall|j: int| 0 <= j < b.len() implies !nokey::<T, (), E, G, R, T>(a, &#[trigger] b[j].key) by {
        if nokey::<T, (), E, G, R, T>(a, &b[j].key) {
            // no element of a is placed at j: squeeze j out and get an injection into fewer places
            let h = |i: int| if f(i) < j { f(i) } else { f(i) - 1 };
            assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] h(i) < b.len() - 1 by { assert(0 <= f(i) < b.len()); if f(i) == j { assert(a[i].key.eqv(&b[j].key)); assert(b[j].key.eqv(&a[i].key)); } }
            assert forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a.len() && i != k implies #[trigger] h(i) != #[trigger] h(k) by {
                assert(f(i) != f(k));
                if f(i) == j { assert(b[j].key.eqv(&a[i].key)); }
                if f(k) == j { assert(b[j].key.eqv(&a[k].key)); }
            }
            injection_small(a.len() as int, b.len() - 1, h);
        }
    }
}
pub proof fn disjoint_flips<T: Equivalent<T, E, G, R>, E, G, R>(a: Seq<Bucket<T, ()>>, b: Seq<Bucket<T, ()>>)
    requires symmetric::<T, E, G, R>()
    ensures disjoint::<T, E, G, R>(a, b) == disjoint::<T, E, G, R>(b, a)
{
    assert forall|x: Seq<Bucket<T, ()>>, y: Seq<Bucket<T, ()>>| #[trigger] disjoint::<T, E, G, R>(x, y) implies disjoint::<T, E, G, R>(y, x) by {
        assert forall|j: int| 0 <= j < y.len() implies nokey::<T, (), E, G, R, T>(x, &#[trigger] y[j].key) by {
            assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies !y[j].key.eqv(&x[i].key) by { assert(nokey::<T, (), E, G, R, T>(y, &x[i].key)); assert(y[j] == y[j]); }
        }
    }
}
@end
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S>
@fn with_capacity_and_hasher id=Set::with_capacity_and_hasher
    ensures r.inv(), r.es().len() == 0, r.hb() == hash_builder
@fn with_hasher id=Set::with_hasher
    ensures r.inv(), r.es().len() == 0, r.hb() == hash_builder
@fn capacity id=Set::capacity
    ensures self.inv() ==> r >= self.es().len()
@fn len id=Set::len
    ensures r == self.es().len()
@fn is_empty id=Set::is_empty
    ensures r == (self.es().len() == 0)
@fn clear id=Set::clear
    ensures final(self).inv(), final(self).es().len() == 0, final(self).hb() == old(self).hb()
@fn truncate id=Set::truncate
    requires old(self).inv()
    ensures r is Ok, final(self).inv(), final(self).es() =~= (if len < old(self).es().len() { old(self).es().subrange(0, len as int) } else { old(self).es() }), final(self).hb() == old(self).hb()
@fn split_off id=Set::split_off
    requires old(self).inv(), at <= old(self).es().len()
    ensures r is Ok, final(self).inv(), final(self).es() =~= old(self).es().subrange(0, at as int), final(self).hb() == old(self).hb(),
        r->Ok_0.inv(), r->Ok_0.es() =~= old(self).es().subrange(at as int, old(self).es().len() as int), cloned(old(self).hb(), r->Ok_0.hb()),
@fn reserve id=Set::reserve
    requires old(self).inv(), old(self).es().len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hb() == old(self).hb()
@fn reserve_exact id=Set::reserve_exact
    requires old(self).inv(), old(self).es().len() + additional <= usize::MAX
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hb() == old(self).hb()
@fn shrink_to_fit id=Set::shrink_to_fit
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hb() == old(self).hb()
@fn shrink_to id=Set::shrink_to
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() == old(self).es(), final(self).hb() == old(self).hb()
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where T: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn insert id=Set::insert
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(), distinct::<T, (), E, G, R>(old(self).es()),
    ensures final(self).inv(), final(self).hashed(), distinct::<T, (), E, G, R>(final(self).es()), final(self).hb() == old(self).hb(),
        r matches Ok(b) ==> b == nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= (if b { old(self).es().push(old(self).bucket(value)) } else { old(self).es() }),
        r is Err ==> final(self).es() == old(self).es(),
@fn insert_full id=Set::insert_full
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(), distinct::<T, (), E, G, R>(old(self).es()),
    ensures final(self).inv(), final(self).hashed(), distinct::<T, (), E, G, R>(final(self).es()), final(self).hb() == old(self).hb(),
        r matches Ok(t) ==> t.1 == nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= (if t.1 { old(self).es().push(old(self).bucket(value)) } else { old(self).es() })
            && (if t.1 { t.0 == old(self).es().len() } else { keyed::<T, (), E, G, R, T>(old(self).es(), &value, t.0 as int) }),
        r is Err ==> final(self).es() == old(self).es(),
@fn insert_before id=Set::insert_before
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(), index <= old(self).es().len()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok((i, false)) ==> exists|k: int| #[trigger] keyed::<T, (), E, G, R, T>(old(self).es(), &value, k) && i == (if index > k { index - 1 } else { index as int }) && final(self).es() =~= moved_seq(old(self).es(), k, i as int),
        r matches Ok((i, true)) ==> i == index && nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= old(self).es().insert(index as int, old(self).bucket(value)),
        r is Err ==> final(self).es() == old(self).es(),
@fn shift_insert id=Set::shift_insert
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(), index <= old(self).es().len(),
        index == old(self).es().len() ==> nokey::<T, (), E, G, R, T>(old(self).es(), &value),
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(false) ==> exists|k: int| #[trigger] keyed::<T, (), E, G, R, T>(old(self).es(), &value, k) && final(self).es() =~= moved_seq(old(self).es(), k, index as int),
        r matches Ok(true) ==> nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= old(self).es().insert(index as int, old(self).bucket(value)),
        r is Err ==> final(self).es() == old(self).es(),
@fn replace_full id=Set::replace_full
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(),
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok((i, Some(k))) ==> keyed::<T, (), E, G, R, T>(old(self).es(), &value, i as int) && k == old(self).es()[i as int].key && final(self).es() =~= old(self).es().update(i as int, old(self).bucket(value)),
        r matches Ok((i, None)) ==> i == old(self).es().len() && nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= old(self).es().push(old(self).bucket(value)),
        r is Err ==> final(self).es() == old(self).es(),
@fn replace id=Set::replace
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, T>(),
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(Some(k)) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, T>(old(self).es(), &value, i) && k == old(self).es()[i].key && final(self).es() =~= old(self).es().update(i, old(self).bucket(value)),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, T>(old(self).es(), &value) && final(self).es() =~= old(self).es().push(old(self).bucket(value)),
        r is Err ==> final(self).es() == old(self).es(),
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where S: BuildHasher, => impl<T: RubyHash<E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn contains id=Set::contains
    requires self.inv(), self.hashed(), qcoh::<T, E, G, R, Q>()
    ensures r matches Ok(b) ==> b == !nokey::<T, (), E, G, R, Q>(self.es(), value)
@fn get id=Set::get
    requires self.inv(), self.hashed(), qcoh::<T, E, G, R, Q>()
    ensures
        r matches Ok(Some(v)) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, Q>(self.es(), value, i) && *v == self.es()[i].key,
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(self.es(), value),
@enter
    proof { assert(self.es() == self.map.es()); }
@sub | ( x , & ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((&T, &())) -> (x_: &T)
    ensures *x_ == *_a0.0
@fn get_full id=Set::get_full
    requires self.inv(), self.hashed(), qcoh::<T, E, G, R, Q>()
    ensures
        r matches Ok(Some(t)) ==> keyed::<T, (), E, G, R, Q>(self.es(), value, t.0 as int) && *t.1 == self.es()[t.0 as int].key,
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(self.es(), value),
@sub | ( i , x , & ( ) ) | ==> | ( i , x , u_ ) |
@closure 1 ((usize, &T, &())) -> (x_: (usize, &T))
    ensures x_.0 == _a0.0 && *x_.1 == *_a0.1
@fn get_index_of id=Set::get_index_of
    requires self.inv(), self.hashed(), qcoh::<T, E, G, R, Q>()
    ensures
        r matches Ok(Some(i)) ==> keyed::<T, (), E, G, R, Q>(self.es(), value, i as int),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(self.es(), value),
@fn swap_remove id=Set::swap_remove
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(true) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, Q>(old(self).es(), value, i) && final(self).es() =~= swap_removed(old(self).es(), i),
        r matches Ok(false) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@enter
    proof { assert(self.es() == self.map.es()); }
@fn shift_remove id=Set::shift_remove
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(true) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, Q>(old(self).es(), value, i) && final(self).es() =~= old(self).es().remove(i),
        r matches Ok(false) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@enter
    proof { assert(self.es() == self.map.es()); }
@fn swap_take id=Set::swap_take
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(Some(k)) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, Q>(old(self).es(), value, i) && k == old(self).es()[i].key && final(self).es() =~= swap_removed(old(self).es(), i),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@enter
    proof { assert(self.es() == self.map.es()); }
@sub | ( x , ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((T, ())) -> (x_: T)
    ensures x_ == _a0.0
@fn shift_take id=Set::shift_take
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(Some(k)) ==> exists|i: int| #[trigger] keyed::<T, (), E, G, R, Q>(old(self).es(), value, i) && k == old(self).es()[i].key && final(self).es() =~= old(self).es().remove(i),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@enter
    proof { assert(self.es() == self.map.es()); }
@sub | ( x , ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((T, ())) -> (x_: T)
    ensures x_ == _a0.0
@fn swap_remove_full id=Set::swap_remove_full
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(Some(t)) ==> keyed::<T, (), E, G, R, Q>(old(self).es(), value, t.0 as int) && t.1 == old(self).es()[t.0 as int].key && final(self).es() =~= swap_removed(old(self).es(), t.0 as int),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@sub | ( i , x , ( ) ) | ==> | ( i , x , u_ ) |
@closure 1 ((usize, T, ())) -> (x_: (usize, T))
    ensures x_.0 == _a0.0 && x_.1 == _a0.1
@fn shift_remove_full id=Set::shift_remove_full
    requires old(self).inv(), old(self).hashed(), qcoh::<T, E, G, R, Q>()
    ensures final(self).inv(), final(self).hb() == old(self).hb(),
        r matches Ok(Some(t)) ==> keyed::<T, (), E, G, R, Q>(old(self).es(), value, t.0 as int) && t.1 == old(self).es()[t.0 as int].key && final(self).es() =~= old(self).es().remove(t.0 as int),
        r matches Ok(None) ==> nokey::<T, (), E, G, R, Q>(old(self).es(), value) && final(self).es() == old(self).es(),
        r is Err ==> final(self).es() == old(self).es(),
@sub | ( i , x , ( ) ) | ==> | ( i , x , u_ ) |
@closure 1 ((usize, T, ())) -> (x_: (usize, T))
    ensures x_.0 == _a0.0 && x_.1 == _a0.1
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S>
@fn pop id=Set::pop
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hb() == old(self).hb(),
        r matches Ok(None) ==> old(self).es().len() == 0 && final(self).es() == old(self).es(),
        r matches Ok(Some(k)) ==> old(self).es().len() > 0 && final(self).es() =~= old(self).es().drop_last() && k == old(self).es().last().key,
@sub | ( x , ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((T, ())) -> (x_: T)
    ensures x_ == _a0.0
@fn reverse id=Set::reverse
    requires old(self).inv()
    ensures final(self).inv(), final(self).es() =~= old(self).es().reverse()
@fn get_index id=Set::get_index
    ensures index < self.es().len() ==> r is Some && *r->Some_0 == self.es()[index as int].key, index >= self.es().len() ==> r is None
@fn first id=Set::first
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0 == self.es()[0].key, self.es().len() == 0 ==> r is None
@fn last id=Set::last
    ensures self.es().len() > 0 ==> r is Some && *r->Some_0 == self.es().last().key, self.es().len() == 0 ==> r is None
@fn swap_remove_index id=Set::swap_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hb() == old(self).hb(),
        r matches Ok(Some(k)) ==> index < old(self).es().len() && k == old(self).es()[index as int].key && final(self).es() =~= swap_removed(old(self).es(), index as int),
        r matches Ok(None) ==> index >= old(self).es().len() && final(self).es() == old(self).es(),
@sub | ( x , ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((T, ())) -> (x_: T)
    ensures x_ == _a0.0
@fn shift_remove_index id=Set::shift_remove_index
    requires old(self).inv()
    ensures final(self).inv(), r is Ok, final(self).hb() == old(self).hb(),
        r matches Ok(Some(k)) ==> index < old(self).es().len() && k == old(self).es()[index as int].key && final(self).es() =~= old(self).es().remove(index as int),
        r matches Ok(None) ==> index >= old(self).es().len() && final(self).es() == old(self).es(),
@sub | ( x , ( ) ) | ==> | ( x , u_ ) |
@closure 1 ((T, ())) -> (x_: T)
    ensures x_ == _a0.0
@fn move_index id=Set::move_index
    requires old(self).inv(), from < old(self).es().len(), to < old(self).es().len()
    ensures final(self).inv(), r is Ok, final(self).hb() == old(self).hb(), final(self).es() =~= moved_seq(old(self).es(), from as int, to as int),
@endimpl
@impl impl<T, E, G, R> Clone for RubySet<T, E, G, R> where T: Clone, => impl<T: Clone, E, G, R, S: Clone> RubySet<T, E, G, R, S>
@fn clone id=Set::clone
    requires self.map.inv()
    ensures r.map.inv(), copies(self.map.es(), r.map.es()), cloned(self.map.hash_builder, r.map.hash_builder)
@fn clone_from id=Set::clone_from
    requires other.map.inv()
    ensures final(self).map.inv(), copies(other.map.es(), final(self).map.es()), cloned(other.map.hash_builder, final(self).map.hash_builder)
@endimpl
@impl impl<T, E, G, R, S> Entries for RubySet<T, E, G, R, S> => impl<T, E, G, R, S> RubySet<T, E, G, R, S>
@fn into_entries id=Set::into_entries
    ensures r == self.map.core.entries
@sub Self :: Entry ==> Bucket<T, ()>
@fn as_entries id=Set::as_entries
    ensures r@ == self.es()
@sub Self :: Entry ==> Bucket<T, ()>
@fn as_entries_mut id=Set::as_entries_mut
    ensures (*r)@ == old(self).es(), (*final(r))@ == final(self).es(), final(self).map.core.indices == old(self).map.core.indices, final(self).map.core.linear == old(self).map.core.linear, final(self).hb() == old(self).hb(),
@sub Self :: Entry ==> Bucket<T, ()>
@endimpl
@impl impl<T, E, G, R, S> RubyEql<E, G, R> for RubySet<T, E, G, R, S> where T: RubyHash<E, G, R> + RubyEql<E, G, R>, S: BuildHasher, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn eql id=Set::eql
    requires other.inv(), other.hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>(), distinct::<T, (), E, G, R>(self.es()), distinct::<T, (), E, G, R>(other.es())
    ensures r matches Ok(b) ==> b == (subset::<T, E, G, R>(self.es(), other.es()) && subset::<T, E, G, R>(other.es(), self.es()))
@enter
    proof {
        if subset::<T, E, G, R>(self.es(), other.es()) { subset_len::<T, E, G, R>(self.es(), other.es()); }
        if subset::<T, E, G, R>(other.es(), self.es()) { subset_len::<T, E, G, R>(other.es(), self.es()); }
        if self.es().len() == other.es().len() && subset::<T, E, G, R>(self.es(), other.es()) { subset_equal::<T, E, G, R>(self.es(), other.es()); }
    }
@endimpl
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> where T: RubyEql<E, G, R> + RubyHash<E, G, R>, S: BuildHasher, => impl<T: RubyHash<E, G, R> + Equivalent<T, E, G, R>, E, G, R, S: BuildHasher> RubySet<T, E, G, R, S>
@fn is_disjoint
    requires self.inv(), self.hashed(), other.inv(), other.hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(),
    ensures r matches Ok(b) ==> b == disjoint::<T, E, G, R>(self.es(), other.es())
@sub for v in self . iter ( ) { ==> for b_ in &self.map.core.entries { let v = b_.key_ref();
@sub for v in other . iter ( ) { ==> for b_ in &other.map.core.entries { let v = b_.key_ref();
@enter
    proof { disjoint_flips::<T, E, G, R>(self.es(), other.es()); }
@loop 1
    invariant _n1 == self.es().len(), other.inv(), other.hashed(), qcoh::<T, E, G, R, T>(),
        forall|i: int| 0 <= i < _k1 ==> nokey::<T, (), E, G, R, T>(other.es(), &#[trigger] self.map.core.entries@[i].key),
@loop 2
    invariant _n2 == other.es().len(), self.inv(), self.hashed(), qcoh::<T, E, G, R, T>(), disjoint::<T, E, G, R>(self.es(), other.es()) == disjoint::<T, E, G, R>(other.es(), self.es()),
        forall|i: int| 0 <= i < _k2 ==> nokey::<T, (), E, G, R, T>(self.es(), &#[trigger] other.map.core.entries@[i].key),
@fn is_subset
    requires other.inv(), other.hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>(), distinct::<T, (), E, G, R>(self.es()),
    ensures r matches Ok(b) ==> b == subset::<T, E, G, R>(self.es(), other.es())
@sub for v in self . iter ( ) { ==> for b_ in &self.map.core.entries { let v = b_.key_ref();
@enter
    proof { if subset::<T, E, G, R>(self.es(), other.es()) { subset_len::<T, E, G, R>(self.es(), other.es()); } }
@loop 1
    invariant _n1 == self.es().len(), other.inv(), other.hashed(), qcoh::<T, E, G, R, T>(),
        forall|i: int| 0 <= i < _k1 ==> !nokey::<T, (), E, G, R, T>(other.es(), &#[trigger] self.map.core.entries@[i].key),
@fn is_superset
    requires self.inv(), self.hashed(), qcoh::<T, E, G, R, T>(), symmetric::<T, E, G, R>(), transitive::<T, E, G, R>(), distinct::<T, (), E, G, R>(other.es()),
    ensures r matches Ok(b) ==> b == subset::<T, E, G, R>(other.es(), self.es())
@endimpl
