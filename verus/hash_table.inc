// Assumed contract of hashbrown's HashTable as used by rubymap.  The view is a sequence of
// (hash, value) slots in some enumeration order; nothing proved here depends on that order.
@verbatim
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct HashTable<T, E, G, R> { _p: core::marker::PhantomData<(T, E, G, R)> }

pub open spec fn eq_yes<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(f: F, v: T) -> bool {
    exists|e: &mut E, g: &mut G| #[trigger] f.ensures((&v, e, g), Ok(true))
}
pub open spec fn eq_no<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(f: F, v: T) -> bool {
    exists|e: &mut E, g: &mut G| #[trigger] f.ensures((&v, e, g), Ok(false))
}
pub open spec fn eq_err<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(f: F, v: T, x: R) -> bool {
    exists|e: &mut E, g: &mut G| #[trigger] f.ensures((&v, e, g), Err(x))
}
pub open spec fn eq_ok<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(s: Seq<(u64, T)>, f: F) -> bool {
    forall|k: int, e: &mut E, g: &mut G| 0 <= k < s.len() ==> #[trigger] f.requires((&s[k].1, e, g))
}
/// the hasher may be called on every element and gives the hash it was filed under
pub open spec fn hasher_ok<T, F: Fn(&T) -> u64>(s: Seq<(u64, T)>, f: F) -> bool {
    forall|k: int| 0 <= k < s.len() ==> (#[trigger] f.requires((&s[k].1,)) && forall|h: u64| #[trigger] f.ensures((&s[k].1,), h) ==> h == s[k].0)
}
pub open spec fn found<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(s: Seq<(u64, T)>, f: F, k: int) -> bool {
    0 <= k < s.len() && eq_yes::<T, E, G, R, F>(f, s[k].1)
}
pub open spec fn absent<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(s: Seq<(u64, T)>, hash: u64, f: F) -> bool {
    forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == hash ==> eq_no::<T, E, G, R, F>(f, s[k].1)
}
pub open spec fn failed<T, E, G, R, F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(s: Seq<(u64, T)>, f: F, x: R) -> bool {
    exists|k: int| 0 <= k < s.len() && eq_err::<T, E, G, R, F>(f, (#[trigger] s[k]).1, x)
}

/// each slot is offered to `f`, which may change the value in place (t) and says whether it stays (keep)
#[verifier::prophetic]
pub open spec fn retains<T, F: FnMut(&mut T) -> bool>(s: Seq<(u64, T)>, t: Seq<(u64, T)>, keep: Seq<bool>, f: F) -> bool {
    &&& t.len() == s.len() && keep.len() == s.len()
    &&& forall|k: int| #![trigger t[k]] #![trigger s[k]] 0 <= k < s.len() ==> t[k].0 == s[k].0 && exists|m: &mut T| *m == s[k].1 && *final(m) == t[k].1 && #[trigger] f.ensures((m,), keep[k])
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct HOccupied<'a, T, E, G, R> { pub t: &'a mut HashTable<T, E, G, R>, pub k: Ghost<int> }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct HVacant<'a, T, E, G, R> { pub t: &'a mut HashTable<T, E, G, R>, pub h: Ghost<u64> }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub struct HAbsent<'a, T, E, G, R> { pub t: &'a mut HashTable<T, E, G, R> }
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
pub enum HEntry<'a, T, E, G, R> { Occupied(HOccupied<'a, T, E, G, R>), Vacant(HVacant<'a, T, E, G, R>) }

impl<'a, T, E, G, R> HOccupied<'a, T, E, G, R> {
    pub open spec fn ok(self) -> bool { 0 <= self.k@ < (*self.t)@.len() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &T) requires self.ok() ensures *r == (*old(self.t))@[self.k@].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: (T, HVacant<'a, T, E, G, R>))
        requires self.ok()
        ensures r.0 == (*old(self.t))@[self.k@].1, (*r.1.t)@ == (*old(self.t))@.remove(self.k@), *final(r.1.t) == *final(self.t),
            (*r.1.t).cap() >= (*r.1.t)@.len(), (*r.1.t).cap() <= (*old(self.t)).cap(), (*r.1.t).cap() + 1 >= (*old(self.t)).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_table(self) -> (r: &'a mut HashTable<T, E, G, R>)
        ensures *r == *old(self.t), *final(r) == *final(self.t)
    { unimplemented!() }
}
impl<'a, T, E, G, R> HVacant<'a, T, E, G, R> {
    #[verifier::external_body]
    pub fn into_table(self) -> (r: &'a mut HashTable<T, E, G, R>)
        ensures *r == *old(self.t), *final(r) == *final(self.t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, value: T) -> (r: HOccupied<'a, T, E, G, R>)
        ensures (*r.t)@ == (*old(self.t))@.push((self.h@, value)), r.k@ == (*old(self.t))@.len(), *final(r.t) == *final(self.t), (*r.t).cap() >= (*r.t)@.len()
    { unimplemented!() }
}
impl<'a, T, E, G, R> HAbsent<'a, T, E, G, R> {
    #[verifier::external_body]
    pub fn into_table(self) -> (r: &'a mut HashTable<T, E, G, R>)
        ensures *r == *old(self.t), *final(r) == *final(self.t)
    { unimplemented!() }
}

impl<T, E, G, R> HashTable<T, E, G, R> {
    pub uninterp spec fn view(&self) -> Seq<(u64, T)>;
    pub uninterp spec fn cap(&self) -> nat;

    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0, r.cap() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap(), r >= self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@.len() == 0, final(self).cap() >= old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve<F: Fn(&T) -> u64>(&mut self, n: usize, hasher: F)
        requires hasher_ok(old(self)@, hasher)
        ensures final(self)@ == old(self)@, final(self).cap() >= final(self)@.len() + n
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shrink_to<F: Fn(&T) -> u64>(&mut self, n: usize, hasher: F)
        requires hasher_ok(old(self)@, hasher)
        ensures final(self)@ == old(self)@, final(self).cap() >= final(self)@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_unique<F: Fn(&T) -> u64>(&mut self, hash: u64, value: T, hasher: F) -> (r: HOccupied<'_, T, E, G, R>)
        requires old(self)@.len() < old(self).cap() || hasher_ok(old(self)@, hasher)
        ensures (*r.t)@ == old(self)@.push((hash, value)), r.k@ == old(self)@.len(), *final(r.t) == *final(self),
            (*r.t).cap() >= old(self).cap(), (*r.t).cap() >= (*r.t)@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(&self, hash: u64, eq: F, e: &mut E, g: &mut G) -> (r: Result<Option<&T>, R>)
        requires eq_ok(self@, eq)
        ensures
            r matches Ok(Some(v)) ==> exists|k: int| #[trigger] found::<T, E, G, R, F>(self@, eq, k) && *v == self@[k].1,
            r matches Ok(None) ==> absent::<T, E, G, R, F>(self@, hash, eq),
            r matches Err(x) ==> failed::<T, E, G, R, F>(self@, eq, x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_mut<F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(&mut self, hash: u64, eq: F, e: &mut E, g: &mut G) -> (r: Result<Option<&mut T>, R>)
        requires eq_ok(old(self)@, eq)
        ensures
            r matches Ok(Some(v)) ==> exists|k: int| #[trigger] found::<T, E, G, R, F>(old(self)@, eq, k) && *v == old(self)@[k].1
                && final(self)@ == old(self)@.update(k, (old(self)@[k].0, *final(v))) && final(self).cap() == old(self).cap(),
            r matches Ok(None) ==> absent::<T, E, G, R, F>(old(self)@, hash, eq) && *final(self) == *old(self),
            r matches Err(x) ==> failed::<T, E, G, R, F>(old(self)@, eq, x) && *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_entry<F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>>(&mut self, hash: u64, eq: F, e: &mut E, g: &mut G) -> (r: Result<Result<HOccupied<'_, T, E, G, R>, HAbsent<'_, T, E, G, R>>, R>)
        requires eq_ok(old(self)@, eq)
        ensures
            r matches Ok(Ok(o)) ==> found::<T, E, G, R, F>(old(self)@, eq, o.k@) && *o.t == *old(self) && *final(o.t) == *final(self),
            r matches Ok(Err(a)) ==> absent::<T, E, G, R, F>(old(self)@, hash, eq) && *a.t == *old(self) && *final(a.t) == *final(self),
            r matches Err(x) ==> failed::<T, E, G, R, F>(old(self)@, eq, x) && *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<F: FnMut(&T, &mut E, &mut G) -> Result<bool, R>, H: Fn(&T) -> u64>(&mut self, hash: u64, eq: F, hasher: H, e: &mut E, g: &mut G) -> (r: Result<HEntry<'_, T, E, G, R>, R>)
        requires eq_ok(old(self)@, eq), hasher_ok(old(self)@, hasher)
        ensures
            r matches Ok(HEntry::Occupied(o)) ==> found::<T, E, G, R, F>(old(self)@, eq, o.k@) && (*o.t)@ == old(self)@ && *final(o.t) == *final(self),
            r matches Ok(HEntry::Vacant(a)) ==> absent::<T, E, G, R, F>(old(self)@, hash, eq) && (*a.t)@ == old(self)@ && *final(a.t) == *final(self) && a.h@ == hash,
            r matches Err(x) ==> failed::<T, E, G, R, F>(old(self)@, eq, x) && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_sym<F: FnMut(&T) -> bool, H: Fn(&T) -> u64>(&mut self, hash: u64, eq: F, hasher: H) -> (r: HEntry<'_, T, E, G, R>)
        requires forall|k: int| 0 <= k < old(self)@.len() ==> #[trigger] eq.requires((&old(self)@[k].1,)), hasher_ok(old(self)@, hasher)
        ensures
            r matches HEntry::Occupied(o) ==> 0 <= o.k@ < old(self)@.len() && eq.ensures((&old(self)@[o.k@].1,), true) && (*o.t)@ == old(self)@ && *final(o.t) == *final(self),
            r matches HEntry::Vacant(a) ==> (forall|k: int| 0 <= k < old(self)@.len() && (#[trigger] old(self)@[k]).0 == hash ==> eq.ensures((&old(self)@[k].1,), false))
                && (*a.t)@ == old(self)@ && *final(a.t) == *final(self) && a.h@ == hash,
    { unimplemented!() }
    /// iteration with mutable access: every slot exactly once
    #[verifier::external_body]
    pub fn slots_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn slot_mut(&mut self, k: usize) -> (r: &mut T)
        requires k < old(self)@.len()
        ensures *r == old(self)@[k as int].1, final(self)@ == old(self)@.update(k as int, (old(self)@[k as int].0, *final(r))), final(self).cap() == old(self).cap()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn retain<F: FnMut(&mut T) -> bool>(&mut self, f: F)
        requires forall|m: &mut T, k: int| 0 <= k < old(self)@.len() && *m == (#[trigger] old(self)@[k]).1 ==> #[trigger] f.requires((m,))
        ensures exists|t: Seq<(u64, T)>, keep: Seq<bool>| #[trigger] retains(old(self)@, t, keep, f) && final(self)@ == filter_by(t, keep), final(self).cap() >= final(self)@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_from(&mut self, other: &Self) ensures final(self)@ == other@ { unimplemented!() }
}

#[verifier::external_body]
pub proof fn table_cap_len<T, E, G, R>(t: HashTable<T, E, G, R>)
    ensures t.cap() >= t@.len()
{ }
// ---- a table of positions seen as a mapping position -> hash ----
pub mod tl {
use vstd::prelude::*;
use super::fl::*;
pub open spec fn has_slot(s: Seq<(u64, usize)>, i: int) -> bool {
    exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).1 == i
}
/// no position is filed twice
pub open spec fn tok(s: Seq<(u64, usize)>) -> bool {
    forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < s.len() && 0 <= k < s.len() && j != k ==> s[j].1 != s[k].1
}
pub open spec fn slot_of(s: Seq<(u64, usize)>, i: int) -> int {
    choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).1 == i
}
#[verifier::opaque]
pub open spec fn cm(s: Seq<(u64, usize)>) -> IMap<int, u64> {
    IMap::new(|i: int| has_slot(s, i), |i: int| s[slot_of(s, i)].0)
}
pub open spec fn moved(m: IMap<int, u64>, from: int, to: int) -> IMap<int, u64> { m.remove(from).insert(to, m[from]) }

/// meaning of cm
pub proof fn cm_def(s: Seq<(u64, usize)>)
    requires tok(s)
    ensures
        forall|i: int| #[trigger] cm(s).dom().contains(i) <==> has_slot(s, i),
        forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> cm(s).dom().contains(s[k].1 as int) && cm(s)[s[k].1 as int] == s[k].0,
        forall|i: int| #[trigger] cm(s).dom().contains(i) ==> 0 <= slot_of(s, i) < s.len() && s[slot_of(s, i)].1 == i && cm(s)[i] == s[slot_of(s, i)].0,
{
    reveal(cm);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies cm(s).dom().contains(s[k].1 as int) && cm(s)[s[k].1 as int] == s[k].0 by {
        let i = s[k].1 as int;
        assert(has_slot(s, i));
        let q = slot_of(s, i);
        assert(0 <= q < s.len() && s[q].1 == i);
        assert(q == k);
    }
}
pub broadcast proof fn cm_at(s: Seq<(u64, usize)>, k: int)
    requires 0 <= k < s.len(), #[trigger] tok(s)
    ensures cm(s).dom().contains((#[trigger] s[k]).1 as int), cm(s)[s[k].1 as int] == s[k].0
{ cm_def(s); }
pub broadcast proof fn cm_has(s: Seq<(u64, usize)>, i: int)
    requires tok(s), #[trigger] cm(s).dom().contains(i)
    ensures 0 <= slot_of(s, i) < s.len(), s[slot_of(s, i)].1 == i, s[slot_of(s, i)].0 == cm(s)[i], has_slot(s, i)
{ cm_def(s); }

/// characterisation: enough to show the three facts
pub proof fn cm_is(s: Seq<(u64, usize)>, m: IMap<int, u64>)
    requires tok(s),
        forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> m.dom().contains(s[k].1 as int) && m[s[k].1 as int] == s[k].0,
        forall|i: int| #[trigger] m.dom().contains(i) ==> has_slot(s, i),
    ensures cm(s) == m
{
    cm_def(s);
    assert(cm(s) =~= m);
}

pub broadcast proof fn cm_empty(s: Seq<(u64, usize)>)
    requires s.len() == 0
    ensures #[trigger] tok(s), #[trigger] cm(s) == IMap::<int, u64>::empty()
{ cm_is(s, IMap::empty()); }

pub broadcast proof fn cm_remove(s: Seq<(u64, usize)>, k: int)
    requires 0 <= k < s.len(), tok(s)
    ensures tok(#[trigger] s.remove(k)), cm(s.remove(k)) == cm(s).remove(s[k].1 as int)
{
    let s2 = s.remove(k);
    let m2 = cm(s).remove(s[k].1 as int);
    cm_def(s);
    assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() implies m2.dom().contains(s2[j].1 as int) && m2[s2[j].1 as int] == s2[j].0 by {
        let q = if j < k { j } else { j + 1 };
        assert(s2[j] == s[q]);
        assert(s[q].1 != s[k].1);
    }
    assert forall|i: int| #[trigger] m2.dom().contains(i) implies has_slot(s2, i) by {
        assert(cm(s).dom().contains(i));
        let q = slot_of(s, i);
        assert(q != k);
        let j = if q < k { q } else { q - 1 };
        assert(s2[j] == s[q]);
    }
    assert forall|a: int, b: int| #![trigger s2[a], s2[b]] 0 <= a < s2.len() && 0 <= b < s2.len() && a != b implies s2[a].1 != s2[b].1 by {
        let qa = if a < k { a } else { a + 1 };
        let qb = if b < k { b } else { b + 1 };
        assert(s2[a] == s[qa] && s2[b] == s[qb]);
    }
    cm_is(s2, m2);
}

pub broadcast proof fn cm_update(s: Seq<(u64, usize)>, k: int, x: (u64, usize))
    requires 0 <= k < s.len(), tok(s), x.0 == s[k].0, !cm(s).dom().contains(x.1 as int) || x.1 == s[k].1
    ensures tok(#[trigger] s.update(k, x)), cm(s.update(k, x)) == moved(cm(s), s[k].1 as int, x.1 as int)
{
    let s2 = s.update(k, x);
    let m = cm(s);
    let m2 = moved(m, s[k].1 as int, x.1 as int);
    cm_def(s);
    assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() implies m2.dom().contains(s2[j].1 as int) && m2[s2[j].1 as int] == s2[j].0 by {
        if j != k { assert(s2[j] == s[j]); assert(s[j].1 != s[k].1); assert(m.dom().contains(s[j].1 as int)); }
        else { assert(s2[k] == x); assert(m.dom().contains(s[k].1 as int)); }
    }
    assert forall|i: int| #[trigger] m2.dom().contains(i) implies has_slot(s2, i) by {
        if i == x.1 { assert(s2[k].1 == i); }
        else {
            assert(m.dom().contains(i));
            let q = slot_of(s, i);
            assert(q != k);
            assert(s2[q] == s[q]);
        }
    }
    assert forall|a: int, b: int| #![trigger s2[a], s2[b]] 0 <= a < s2.len() && 0 <= b < s2.len() && a != b implies s2[a].1 != s2[b].1 by {
        assert(s[a].1 != s[b].1);
        assert(m.dom().contains(s[a].1 as int) && m.dom().contains(s[b].1 as int));
    }
    cm_is(s2, m2);
}

pub broadcast proof fn cm_push(s: Seq<(u64, usize)>, x: (u64, usize))
    requires tok(s), !cm(s).dom().contains(x.1 as int)
    ensures tok(#[trigger] s.push(x)), cm(s.push(x)) == cm(s).insert(x.1 as int, x.0)
{
    let s2 = s.push(x);
    let m = cm(s);
    let m2 = m.insert(x.1 as int, x.0);
    cm_def(s);
    assert forall|j: int| #![trigger s2[j]] 0 <= j < s2.len() implies m2.dom().contains(s2[j].1 as int) && m2[s2[j].1 as int] == s2[j].0 by {
        if j < s.len() { assert(s2[j] == s[j]); assert(m.dom().contains(s[j].1 as int)); }
    }
    assert forall|i: int| #[trigger] m2.dom().contains(i) implies has_slot(s2, i) by {
        if i == x.1 { assert(s2[s.len() as int].1 == i); }
        else {
            assert(m.dom().contains(i));
            let q = slot_of(s, i);
            assert(s2[q] == s[q]);
        }
    }
    assert forall|a: int, b: int| #![trigger s2[a], s2[b]] 0 <= a < s2.len() && 0 <= b < s2.len() && a != b implies s2[a].1 != s2[b].1 by {
        if a < s.len() { assert(s2[a] == s[a]); assert(m.dom().contains(s[a].1 as int)); }
        if b < s.len() { assert(s2[b] == s[b]); assert(m.dom().contains(s[b].1 as int)); }
    }
    cm_is(s2, m2);
}

/// a table over the positions 0..n has n slots
pub proof fn cm_len(s: Seq<(u64, usize)>, n: nat)
    requires tok(s), forall|i: int| #[trigger] cm(s).dom().contains(i) <==> 0 <= i < n
    ensures s.len() == n
    decreases n
{
    cm_def(s);
    if n == 0 {
        if s.len() > 0 { assert(cm(s).dom().contains(s[0].1 as int)); }
    } else {
        assert(cm(s).dom().contains(n - 1));
        let q = slot_of(s, n - 1);
        cm_remove(s, q);
        cm_len(s.remove(q), (n - 1) as nat);
    }
}

/// positions renumbered by an injective function
pub proof fn cm_renumber(s: Seq<(u64, usize)>, t: Seq<(u64, usize)>, f: spec_fn(int) -> int, m: IMap<int, u64>)
    requires tok(s), t.len() == s.len(),
        forall|k: int| #![trigger t[k]] #![trigger s[k]] 0 <= k < s.len() ==> t[k].0 == s[k].0 && t[k].1 == f(s[k].1 as int),
        forall|i: int, j: int| cm(s).dom().contains(i) && cm(s).dom().contains(j) && i != j ==> #[trigger] f(i) != #[trigger] f(j),
        forall|i: int| #[trigger] cm(s).dom().contains(i) ==> m.dom().contains(f(i)) && m[f(i)] == cm(s)[i],
        forall|j: int| #[trigger] m.dom().contains(j) ==> exists|i: int| cm(s).dom().contains(i) && #[trigger] f(i) == j,
    ensures tok(t), cm(t) == m
{
    cm_def(s);
    assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a].1 != t[b].1 by {
        let i = s[a].1 as int; let j = s[b].1 as int;
        assert(i != j);
        assert(f(i) != f(j));
    }
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies m.dom().contains(t[k].1 as int) && m[t[k].1 as int] == t[k].0 by {
        assert(cm(s).dom().contains(s[k].1 as int));
    }
    assert forall|j: int| #[trigger] m.dom().contains(j) implies has_slot(t, j) by {
        let i = choose|i: int| cm(s).dom().contains(i) && #[trigger] f(i) == j;
        let q = slot_of(s, i);
        assert(t[q].1 == f(s[q].1 as int));
    }
    cm_is(t, m);
}

/// keeping some slots of a table keeps their part of the mapping
pub proof fn cm_filter(s: Seq<(u64, usize)>, keep: Seq<bool>, m: IMap<int, u64>)
    requires keep.len() == s.len(),
        forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < s.len() && 0 <= k < s.len() && j != k && keep[j] && keep[k] ==> s[j].1 != s[k].1,
        forall|k: int| #![trigger s[k]] 0 <= k < s.len() && keep[k] ==> m.dom().contains(s[k].1 as int) && m[s[k].1 as int] == s[k].0,
        forall|i: int| #[trigger] m.dom().contains(i) ==> exists|k: int| 0 <= k < s.len() && keep[k] && (#[trigger] s[k]).1 == i,
    ensures tok(filter_by(s, keep)), cm(filter_by(s, keep)) == m
{
    filter_facts(s, keep);
    let t = filter_by(s, keep);
    let n = s.len() as int;
    assert forall|a: int| #![trigger t[a]] 0 <= a < t.len() implies exists|q: int| #[trigger] kept_at(keep, n, q, a) && t[a] == s[q] by {
        assert(kept_some(keep, n, a));
        let q = choose|q: int| #[trigger] kept_at(keep, n, q, a);
        assert(kept_at(keep, n, q, a) && t[a] == s[q]);
    }
    assert forall|a: int, b: int| #![trigger t[a], t[b]] 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a].1 != t[b].1 by {
        let qa = choose|q: int| #[trigger] kept_at(keep, n, q, a) && t[a] == s[q];
        let qb = choose|q: int| #[trigger] kept_at(keep, n, q, b) && t[b] == s[q];
        assert(qa != qb);
        assert(s[qa].1 != s[qb].1);
    }
    assert forall|a: int| #![trigger t[a]] 0 <= a < t.len() implies m.dom().contains(t[a].1 as int) && m[t[a].1 as int] == t[a].0 by {
        let qa = choose|q: int| #[trigger] kept_at(keep, n, q, a) && t[a] == s[q];
        assert(s[qa] == t[a]);
    }
    assert forall|i: int| #[trigger] m.dom().contains(i) implies has_slot(t, i) by {
        let k = choose|k: int| 0 <= k < s.len() && keep[k] && (#[trigger] s[k]).1 == i;
        assert(kept_at(keep, n, k, rank(keep, k)));
        assert(t[rank(keep, k)] == s[k]);
    }
    cm_is(t, m);
}
/// number of kept elements before position q
pub open spec fn rank(keep: Seq<bool>, q: int) -> int
    decreases q
{
    if q <= 0 { 0 } else { rank(keep, q - 1) + if keep[q - 1] { 1int } else { 0 } }
}
pub open spec fn kept_at(keep: Seq<bool>, n: int, q: int, a: int) -> bool { 0 <= q < n && keep[q] && rank(keep, q) == a }
pub open spec fn kept_some(keep: Seq<bool>, n: int, a: int) -> bool { exists|q: int| #[trigger] kept_at(keep, n, q, a) }
/// every kept element is at the position counting the kept elements before it, and nothing else is there
pub proof fn filter_facts<T>(s: Seq<T>, keep: Seq<bool>)
    requires keep.len() >= s.len()
    ensures
        filter_by(s, keep).len() == rank(keep, s.len() as int),
        0 <= rank(keep, s.len() as int) <= s.len(),
        forall|q: int, a: int| #[trigger] kept_at(keep, s.len() as int, q, a) ==> 0 <= a < filter_by(s, keep).len() && filter_by(s, keep)[a] == s[q],
        forall|a: int| 0 <= a < rank(keep, s.len() as int) ==> #[trigger] kept_some(keep, s.len() as int, a),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        let n = p.len() as int;
        filter_facts(p, keep);
        let t = filter_by(s, keep);
        let tp = filter_by(p, keep);
        assert forall|q: int, a: int| #[trigger] kept_at(keep, s.len() as int, q, a) implies 0 <= a < filter_by(s, keep).len() && filter_by(s, keep)[a] == s[q] by {
            if q < n { assert(kept_at(keep, n, q, a)); }
        }
        assert forall|a: int| 0 <= a < rank(keep, s.len() as int) implies #[trigger] kept_some(keep, s.len() as int, a) by {
            if a < tp.len() {
                assert(kept_some(keep, n, a));
                let q = choose|q: int| #[trigger] kept_at(keep, n, q, a);
                assert(kept_at(keep, s.len() as int, q, a));
            } else {
                assert(kept_at(keep, s.len() as int, n, a));
            }
        }
    }
}
/// nothing dropped: the same sequence
pub proof fn filter_all<T>(s: Seq<T>, keep: Seq<bool>)
    requires keep.len() >= s.len(), filter_by(s, keep).len() == s.len()
    ensures filter_by(s, keep) == s
    decreases s.len()
{
    if s.len() > 0 {
        filter_facts(s.drop_last(), keep);
        filter_all(s.drop_last(), keep);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(filter_by(s, keep) =~= s); }
}
pub broadcast group table_lemmas { cm_at, cm_has, cm_empty, cm_remove, cm_update, cm_push }
}
pub use tl::*;
@end
