// The unordered map: hashbrown/src/map.rs over the table of hb_raw.vspec.
// Every key value belongs to a class; keys of whatever type are equivalent when they are of one class, and
// what a key feeds to a hasher depends on its class only (that is what consistent hash and eql means).
@include hb_raw.vspec
@verbatim
pub uninterp spec fn kc<Q>(q: Q) -> int;
pub uninterp spec fn may_err<Q, K, R>(q: Q, k: K, e: R) -> bool;
/// what comparing q with k may answer
pub open spec fn says<Q, K, R>(q: Q, k: K, r: Result<bool, R>) -> bool { match r { Ok(b) => b == (kc(q) == kc(k)), Err(e) => may_err(q, k, e) } }
pub uninterp spec fn seed<S>(s: S) -> int;
pub uninterp spec fn feed(st: int, c: int) -> int;
pub uninterp spec fn fin(st: int) -> u64;
/// the hash of a key of class c
pub open spec fn hk<S>(s: S, c: int) -> u64 { fin(feed(seed(s), c)) }
#[verifier::external_body]
pub struct St { x: u64 }
impl St {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == fin(self@) { unimplemented!() }
}
pub trait Hash: Sized { fn hash(&self, state: &mut St) ensures final(state)@ == feed(old(state)@, kc(*self)); }
pub trait BuildHasher: Sized { fn build_hasher(&self) -> (r: St) ensures r@ == seed(*self); }
pub trait RubyEql<E, G, R>: Sized { fn eql(&self, other: &Self, e: &mut E, g: &mut G) -> (r: Result<bool, R>) ensures says(*self, *other, r); }
pub trait Equivalent<K, E, G, R>: Sized { fn equivalent(&self, key: &K, e: &mut E, g: &mut G) -> (r: Result<bool, R>) ensures says(*self, *key, r); }
impl<K: RubyEql<E, G, R>, E, G, R> Equivalent<K, E, G, R> for K { fn equivalent(&self, key: &K, e: &mut E, g: &mut G) -> (r: Result<bool, R>) { self.eql(key, e, g) } }
pub open spec fn key_rel<Q, K, V, R>(q: Q) -> spec_fn((K, V), Result<bool, R>) -> bool { |x: (K, V), r: Result<bool, R>| says(q, x.0, r) }
pub open spec fn key_hash<K, V, S>(s: S) -> spec_fn((K, V)) -> u64 { |x: (K, V)| hk(s, kc(x.0)) }
/// the closures the map hands to the table; their bodies are proved below
#[verifier::external_body]
pub fn equivalent_key<Q, K, V, R>(k: &Q) -> (r: KeyEq<(K, V), R>) ensures r.can() == key_rel::<Q, K, V, R>(*k) { unimplemented!() }
#[verifier::external_body]
pub fn make_hasher<Q, V, S>(hash_builder: &S) -> (r: Hasher<(Q, V)>) ensures r.of() == key_hash::<Q, V, S>(*hash_builder) { unimplemented!() }
/// an owned key made from a borrowed one is equivalent to it
#[verifier::external_body]
pub fn own<Q, K>(q: &Q) -> (r: K) ensures kc(r) == kc(*q) { unimplemented!() }
pub fn vswap<T>(p: &mut T, v: T) -> (r: T) ensures *final(p) == v, r == *old(p) { vreplace(p, v) }

pub type Pairs<K, V> = Multiset<(u64, (K, V))>;
/// no key of class c
pub open spec fn without<K, V>(m: Pairs<K, V>, c: int) -> bool { forall|x: (u64, (K, V))| #[trigger] m.contains(x) ==> kc(x.1.0) != c }
pub open spec fn has<K, V>(m: Pairs<K, V>, c: int, x: (u64, (K, V))) -> bool { m.contains(x) && kc(x.1.0) == c }
/// a map: no two equivalent keys, each pair filed under the hash of its key
pub open spec fn mapped<K, V, S>(m: Pairs<K, V>, s: S) -> bool {
    &&& forall|x: (u64, (K, V))| #[trigger] m.contains(x) ==> x.0 == hk(s, kc(x.1.0)) && m.count(x) == 1
    &&& forall|x: (u64, (K, V)), y: (u64, (K, V))| #[trigger] m.contains(x) && #[trigger] m.contains(y) && kc(x.1.0) == kc(y.1.0) ==> x == y
}
pub open spec fn with<K, V>(x: (u64, (K, V)), v: V) -> (u64, (K, V)) { (x.0, (x.1.0, v)) }
/// the value of x replaced
pub open spec fn put<K, V>(m: Pairs<K, V>, x: (u64, (K, V)), v: V) -> Pairs<K, V> { m.remove(x).insert(with(x, v)) }
pub proof fn mapped_agrees<K, V, S>(m: Pairs<K, V>, s: S)
    requires mapped(m, s) ensures agrees(m, key_hash::<K, V, S>(s)) {}
pub proof fn mapped_add<K, V, S>(m: Pairs<K, V>, s: S, x: (u64, (K, V)))
    requires mapped(m, s), without(m, kc(x.1.0)), x.0 == hk(s, kc(x.1.0))
    ensures mapped(m.insert(x), s), has(m.insert(x), kc(x.1.0), x)
{
    assert(!m.contains(x));
    let d = m.insert(x);
    assert(d.contains(x));
    assert forall|y: (u64, (K, V))| #[trigger] d.contains(y) implies y == x || m.contains(y) by { assert(d.count(y) == m.count(y) + if x == y { 1nat } else { 0 }); };
    assert forall|y: (u64, (K, V))| #[trigger] d.contains(y) implies y.0 == hk(s, kc(y.1.0)) && d.count(y) == 1 by { assert(d.count(y) == m.count(y) + if x == y { 1nat } else { 0 }); if y != x { assert(m.contains(y)); } };
}
pub proof fn mapped_del<K, V, S>(m: Pairs<K, V>, s: S, x: (u64, (K, V)))
    requires mapped(m, s), m.contains(x)
    ensures mapped(m.remove(x), s), without(m.remove(x), kc(x.1.0))
{
    let d = m.remove(x);
    assert(d.count(x) == 0) by { assert(m.count(x) == 1); };
    assert forall|y: (u64, (K, V))| #[trigger] d.contains(y) implies y != x && m.contains(y) && d.count(y) == m.count(y) by { if y == x { assert(d.count(x) == 0); } else { assert(d.count(y) == m.count(y)); } };
}
pub proof fn mapped_put<K, V, S>(m: Pairs<K, V>, s: S, x: (u64, (K, V)), v: V)
    requires mapped(m, s), m.contains(x)
    ensures mapped(put(m, x, v), s), has(put(m, x, v), kc(x.1.0), with(x, v))
{ mapped_del(m, s, x); mapped_add(m.remove(x), s, with(x, v)); }
pub proof fn bag_find<T>(c: Seq<Tag>, n: int, els: Seq<(u64, T)>, x: (u64, T)) -> (i: int)
    requires 0 <= n <= c.len(), n <= els.len(), bag(c, n, els, 0).contains(x)
    ensures 0 <= i < n, is_(0, c[i]), els[i] == x
    decreases n
{
    if n <= 0 { assert(false); 0 }
    else if is_(0, c[n - 1]) && els[n - 1] == x { n - 1 }
    else { if is_(0, c[n - 1]) { assert(bag(c, n, els, 0).count(x) == bag(c, n - 1, els, 0).count(x)); } bag_find(c, n - 1, els, x) }
}
/// a bucket's element is one of the pairs
pub proof fn held<T, E, G, R>(t: RawTable<T, E, G, R>, b: Bucket)
    requires t.wf(), t.holds(b)
    ensures t@.contains(t.at(b))
{ bag_has(t.table.c(), t.table.n(), t.table.els@, 0, b.index as int); }
/// a search that denied everything under a key's hash: the key is not there
pub proof fn denied_all<Q, K, V, E, G, R, S>(t: RawTable<(K, V), E, G, R>, s: S, q: Q)
    requires t.wf(), mapped(t@, s), t.lacks(hk(s, kc(q)), key_rel::<Q, K, V, R>(q))
    ensures without(t@, kc(q))
{
    assert forall|x: (u64, (K, V))| #[trigger] t@.contains(x) implies kc(x.1.0) != kc(q) by {
        let i = bag_find(t.table.c(), t.table.n(), t.table.els@, x);
        if kc(x.1.0) == kc(q) { assert(t.table.els@[i].0 == hk(s, kc(q))); }
    };
}
/// an error came from comparing q with one of the keys
pub open spec fn raised<Q, K, V, R>(m: Pairs<K, V>, q: Q, e: R) -> bool { exists|x: (u64, (K, V))| m.contains(x) && may_err(q, #[trigger] x.1.0, e) }
pub proof fn raise<Q, K, V, E, G, R, S>(t: RawTable<(K, V), E, G, R>, s: S, q: Q, e: R)
    requires t.wf(), t.failed(key_rel::<Q, K, V, R>(q), e)
    ensures raised(t@, q, e)
{
    let i = choose|i: int| 0 <= i < t.table.n() && full(t.table.c()[i]) && (key_rel::<Q, K, V, R>(q))(#[trigger] t.table.els@[i].1, Err(e));
    let x = t.table.els@[i];
    bag_has(t.table.c(), t.table.n(), t.table.els@, 0, i);
    assert(t@.contains(x) && may_err(q, x.1.0, e));
}
/// what the answers of the table mean for the map
pub proof fn knows<Q, K, V, E, G, R, S>(m: Pairs<K, V>, s: S, q: Q)
    requires mapped(m, s)
    ensures
        agrees(m, key_hash::<K, V, S>(s)), m.len() == 0 ==> without(m, kc(q)),
        forall|t: RawTable<(K, V), E, G, R>, b: Bucket| t.wf() && t@ == m && #[trigger] t.holds(b) ==> m.contains(t.at(b)),
        forall|t: RawTable<(K, V), E, G, R>| t.wf() && t@ == m && #[trigger] t.lacks(hk(s, kc(q)), key_rel::<Q, K, V, R>(q)) ==> without(m, kc(q)),
        forall|t: RawTable<(K, V), E, G, R>, e: R| t.wf() && t@ == m && #[trigger] t.failed(key_rel::<Q, K, V, R>(q), e) ==> raised(m, q, e),
{
    vstd::multiset::lemma_multiset_empty_len(m);
    assert forall|t: RawTable<(K, V), E, G, R>, b: Bucket| t.wf() && t@ == m && #[trigger] t.holds(b) implies m.contains(t.at(b)) by { held(t, b); };
    assert forall|t: RawTable<(K, V), E, G, R>| t.wf() && t@ == m && #[trigger] t.lacks(hk(s, kc(q)), key_rel::<Q, K, V, R>(q)) implies without(m, kc(q)) by { denied_all(t, s, q); };
    assert forall|t: RawTable<(K, V), E, G, R>, e: R| t.wf() && t@ == m && #[trigger] t.failed(key_rel::<Q, K, V, R>(q), e) implies raised(m, q, e) by { raise::<Q, K, V, E, G, R, S>(t, s, q, e); };
}
/// writing over the value of a pair leaves a map
pub proof fn rewrites<K, V, E, G, R, S>(o: RawTable<(K, V), E, G, R>, s: S)
    requires o.wf(), mapped(o@, s)
    ensures forall|t: RawTable<(K, V), E, G, R>, b: Bucket, p: (K, V)| o.holds(b) && #[trigger] t.swapped(o, b, p) && p.0 == o.at(b).1.0 ==> t.wf() && t.holds(b) && t.at(b) == (o.at(b).0, p) && mapped(t@, s) && t@ == put(o@, o.at(b), p.1) && o@.contains(o.at(b))
{
    assert forall|t: RawTable<(K, V), E, G, R>, b: Bucket, p: (K, V)| o.holds(b) && #[trigger] t.swapped(o, b, p) && p.0 == o.at(b).1.0 implies t.wf() && t.holds(b) && t.at(b) == (o.at(b).0, p) && mapped(t@, s) && t@ == put(o@, o.at(b), p.1) && o@.contains(o.at(b)) by {
        swapped_wf(t, o, b, p);
        held(o, b);
        mapped_put(o@, s, o.at(b), p.1);
    };
}
pub proof fn rewrites_at<K, V, E, G, R, S>(o: RawTable<(K, V), E, G, R>, s: S, b: Bucket)
    requires o.wf(), mapped(o@, s), o.holds(b)
    ensures forall|t: RawTable<(K, V), E, G, R>| #![trigger t.wf()] #![trigger t.view()] t.swapped(o, b, t.at(b).1) && t.at(b).1.0 == o.at(b).1.0 ==> t.wf() && t.holds(b) && t.at(b).0 == o.at(b).0 && mapped(t@, s) && t@ == put(o@, o.at(b), t.at(b).1.1)
{
    rewrites(o, s);
    assert forall|t: RawTable<(K, V), E, G, R>| #![trigger t.wf()] #![trigger t.view()] t.swapped(o, b, t.at(b).1) && t.at(b).1.0 == o.at(b).1.0 implies t.wf() && t.holds(b) && t.at(b).0 == o.at(b).0 && mapped(t@, s) && t@ == put(o@, o.at(b), t.at(b).1.1) by {};
}
pub proof fn removals<K, V, S>(m: Pairs<K, V>, s: S)
    requires mapped(m, s)
    ensures forall|x: (u64, (K, V))| m.contains(x) ==> mapped(#[trigger] m.remove(x), s) && without(m.remove(x), kc(x.1.0))
{ assert forall|x: (u64, (K, V))| m.contains(x) implies mapped(#[trigger] m.remove(x), s) && without(m.remove(x), kc(x.1.0)) by { mapped_del(m, s, x); }; }
/// adding a key that is not there leaves a map
pub proof fn adds<K, V, S>(m: Pairs<K, V>, s: S, k: K)
    requires mapped(m, s), without(m, kc(k))
    ensures agrees(m, key_hash::<K, V, S>(s)), forall|h: u64, v: V| h == hk(s, kc(k)) ==> mapped(#[trigger] m.insert((h, (k, v))), s)
{ assert forall|h: u64, v: V| h == hk(s, kc(k)) implies mapped(#[trigger] m.insert((h, (k, v))), s) by { mapped_add(m, s, (h, (k, v))); }; }
@end
@file hashbrown/src/map.rs
@fn equivalent_key id=equivalent_key_closure closure=1
    ensures (key_rel::<Q, K, V, R>(*k))(*x, r)
@head fn key_answer<Q: Equivalent<K, E, G, R>, K, V, E, G, R>(k: &Q, x: &(K, V), e: &mut E, g: &mut G) -> Result<bool, R>
@fn make_hasher id=make_hasher_closure closure=1
    ensures r == (key_hash::<Q, V, S>(*hash_builder))(*val)
@head fn hash_answer<Q: Hash, V, S: BuildHasher>(hash_builder: &S, val: &(Q, V)) -> u64
@fn make_hash
    ensures r == hk(*hash_builder, kc(*val))
@sub use core :: hash :: Hasher ; ==> 
@gsub + ? Sized ==> 
@item struct HashMap
@sub E = ( ) , G = ( ) , R = ( ) , S = DefaultHashBuilder ==> E, G, R, S
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item struct OccupiedEntry
@sub Bucket < ( K , V ) > ==> Bucket
@sub S = DefaultHashBuilder ==> S
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item struct VacantEntry
@sub S = DefaultHashBuilder ==> S
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item enum Entry
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item struct OccupiedError
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@verbatim
impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S> {
    pub open spec fn view(&self) -> Pairs<K, V> { self.table@ }
    pub open spec fn inv(&self) -> bool { self.table.wf() && mapped(self@, self.hash_builder) }
    /// nothing but the contents changed
    pub open spec fn kin(&self, o: Self) -> bool { self.hash_builder == o.hash_builder }
}
impl<'a, K, V, E, G, R, S> OccupiedEntry<'a, K, V, E, G, R, S> {
    pub open spec fn ok(self) -> bool { self.table.inv() && self.table.table.holds(self.elem) && self.hash == self.cur().0 }
    pub open spec fn cur(self) -> (u64, (K, V)) { self.table.table.at(self.elem) }
}
impl<'a, K, V, E, G, R, S> VacantEntry<'a, K, V, E, G, R, S> {
    pub open spec fn ok(self) -> bool { self.table.inv() && without(self.table@, kc(self.key)) && self.hash == hk(self.table.hash_builder, kc(self.key)) }
}
impl<'a, K, V, E, G, R, S> Entry<'a, K, V, E, G, R, S> {
    pub open spec fn ok(self) -> bool { match self { Entry::Occupied(o) => o.ok(), Entry::Vacant(v) => v.ok() } }
    pub open spec fn t(self) -> &'a mut HashMap<K, V, E, G, R, S> { match self { Entry::Occupied(o) => o.table, Entry::Vacant(v) => v.table } }
}
@end
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn with_capacity_and_hasher id=HashMap::with_capacity_and_hasher
    ensures r.inv(), r@ == Multiset::<(u64, (K, V))>::empty(), r.hash_builder == hash_builder, r.table.table.growth_left >= capacity
@fn with_hasher id=HashMap::with_hasher
    ensures r.inv(), r@ == Multiset::<(u64, (K, V))>::empty(), r.hash_builder == hash_builder
@fn capacity id=HashMap::capacity
    requires self.inv()
    ensures r == self.table.table.items + self.table.table.growth_left
@fn len id=HashMap::len
    requires self.inv()
    ensures r == self@.len()
@fn is_empty id=HashMap::is_empty
    requires self.inv()
    ensures r == (self@.len() == 0)
@fn clear id=HashMap::clear
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == Multiset::<(u64, (K, V))>::empty(), final(self).kin(*old(self))
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > where K : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<K: RubyEql<E, G, R> + Hash, V, E, G, R, S: BuildHasher> HashMap<K, V, E, G, R, S>
@fn reserve id=HashMap::reserve
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self)), final(self).table.table.growth_left >= additional
@enter
    proof { mapped_agrees(self@, self.hash_builder); }
@fn shrink_to_fit id=HashMap::shrink_to_fit
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self))
@enter
    proof { mapped_agrees(self@, self.hash_builder); }
@fn shrink_to id=HashMap::shrink_to
    requires old(self).inv()
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self))
@enter
    proof { mapped_agrees(self@, self.hash_builder); }
@fn entry id=HashMap::entry
    requires old(self).inv()
    ensures match r {
        Ok(Entry::Occupied(o)) => o.ok() && *o.table == *old(self) && *final(o.table) == *final(self) && has(old(self)@, kc(key), o.cur()),
        Ok(Entry::Vacant(v)) => v.ok() && *v.table == *old(self) && *final(v.table) == *final(self) && v.key == key,
        Err(x) => *final(self) == *old(self) && raised(old(self)@, key, x) }
@sub equivalent_key ( & key ) , e , g ) ? ==> equivalent_key(&key))?
@enter
    proof { knows::<K, K, V, E, G, R, S>(self@, self.hash_builder, key); }
@fn get_inner id=HashMap::get_inner
    requires self.inv()
    ensures match r {
        Ok(Some(p)) => exists|x: (u64, (K, V))| has(self@, kc(*k), x) && *p == #[trigger] x.1,
        Ok(None) => without(self@, kc(*k)),
        Err(x) => raised(self@, *k, x) }
@sub equivalent_key ( k ) , e , g ) ==> equivalent_key(k))
@enter
    proof { knows::<Q, K, V, E, G, R, S>(self@, self.hash_builder, *k); }
@fn get id=HashMap::get
    requires self.inv()
    ensures match r {
        Ok(Some(v)) => exists|x: (u64, (K, V))| has(self@, kc(*k), x) && *v == #[trigger] x.1.1,
        Ok(None) => without(self@, kc(*k)),
        Err(x) => raised(self@, *k, x) }
@fn get_key_value id=HashMap::get_key_value
    requires self.inv()
    ensures match r {
        Ok(Some(p)) => exists|x: (u64, (K, V))| has(self@, kc(*k), x) && (*p.0, *p.1) == #[trigger] x.1,
        Ok(None) => without(self@, kc(*k)),
        Err(x) => raised(self@, *k, x) }
@fn contains_key id=HashMap::contains_key
    requires self.inv()
    ensures match r {
        Ok(true) => exists|x: (u64, (K, V))| #[trigger] has(self@, kc(*k), x),
        Ok(false) => without(self@, kc(*k)),
        Err(x) => raised(self@, *k, x) }
@fn get_inner_mut id=HashMap::get_inner_mut
    requires old(self).inv()
    ensures final(self).kin(*old(self)), match r {
        Ok(Some(p)) => exists|b: Bucket| #![trigger old(self).table.at(b)] old(self).table.holds(b) && has(old(self)@, kc(*k), old(self).table.at(b)) && *p == old(self).table.at(b).1 && final(self).table.swapped(old(self).table, b, *final(p)),
        Ok(None) => *final(self) == *old(self) && without(old(self)@, kc(*k)),
        Err(x) => *final(self) == *old(self) && raised(old(self)@, *k, x) }
@sub equivalent_key ( k ) , e , g ) ==> equivalent_key(k))
@enter
    proof { knows::<Q, K, V, E, G, R, S>(self@, self.hash_builder, *k); }
@fn get_mut id=HashMap::get_mut
    requires old(self).inv()
    ensures final(self).kin(*old(self)), match r {
        Ok(Some(v)) => final(self).inv() && exists|x: (u64, (K, V))| has(old(self)@, kc(*k), x) && *v == (#[trigger] x.1).1 && final(self)@ == put(old(self)@, x, *final(v)),
        Ok(None) => *final(self) == *old(self) && without(old(self)@, kc(*k)),
        Err(x) => *final(self) == *old(self) && raised(old(self)@, *k, x) }
@sub & mut ( _ , ref mut v ) ==> (_, v)
@enter
    proof { rewrites(self.table, self.hash_builder); }
@fn get_key_value_mut id=HashMap::get_key_value_mut
    requires old(self).inv()
    ensures final(self).kin(*old(self)), match r {
        Ok(Some(p)) => final(self).inv() && exists|x: (u64, (K, V))| has(old(self)@, kc(*k), x) && (*p.0, *p.1) == (#[trigger] x.1) && final(self)@ == put(old(self)@, x, *final(p.1)),
        Ok(None) => *final(self) == *old(self) && without(old(self)@, kc(*k)),
        Err(x) => *final(self) == *old(self) && raised(old(self)@, *k, x) }
@sub & mut ( ref key , ref mut value ) ==> (key, value)
@enter
    proof { rewrites(self.table, self.hash_builder); }
@fn find_or_find_insert_slot id=HashMap::find_or_find_insert_slot
    requires old(self).inv(), hash == hk(old(self).hash_builder, kc(*key))
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).kin(*old(self)), match r {
        Ok(Ok(b)) => final(self).table.holds(b) && has(old(self)@, kc(*key), final(self).table.at(b)),
        Ok(Err(s)) => without(old(self)@, kc(*key)) && final(self).table.takes(hash, s),
        Err(x) => raised(old(self)@, *key, x) }
@sub Bucket < ( K , V ) > ==> Bucket
@sub crate :: raw :: InsertSlot ==> InsertSlot
@sub make_hasher ( & self . hash_builder ) , e , g , ) ==> make_hasher(&self.hash_builder))
@enter
    proof { knows::<Q, K, V, E, G, R, S>(self@, self.hash_builder, *key); }
@fn insert id=HashMap::insert
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(Some(u)) => exists|x: (u64, (K, V))| has(old(self)@, kc(k), x) && u == (#[trigger] x.1).1 && final(self)@ == put(old(self)@, x, v),
        Ok(None) => without(old(self)@, kc(k)) && final(self)@ == old(self)@.insert((hk(old(self).hash_builder, kc(k)), (k, v))),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, k, x) }
@sub mem :: replace ( unsafe { & mut bucket . as_mut ( ) . 1 } , v ) ==> { let ghost mid = *self; let was_ = vswap(&mut self.table.table.mut_el(bucket.index).1, v); proof { swapped_wf(self.table, mid.table, bucket, (mid.table.at(bucket).1.0, v)); mapped_put(mid@, mid.hash_builder, mid.table.at(bucket), v); } was_ }
@before self . table . insert_in_slot
    proof { mapped_add(self@, self.hash_builder, (hash, (k, v))); }
@fn insert_unique_unchecked id=HashMap::insert_unique_unchecked
    requires old(self).inv(), without(old(self)@, kc(k))
    ensures final(self).inv(), final(self).kin(*old(self)), *r.0 == k, *r.1 == v, final(self)@ == old(self)@.insert((hk(old(self).hash_builder, kc(k)), (k, *final(r.1))))
@sub unsafe { bucket . as_mut ( ) } ==> self.table.table.mut_el(bucket.index)
@enter
    proof { mapped_agrees(self@, self.hash_builder); }
    let ghost key = k;
    let ghost m0 = self@;
@before let ( k_ref , v_ref )
    proof {
        mapped_add(m0, self.hash_builder, (hash, (key, v)));
        rewrites_at(self.table, self.hash_builder, bucket);
        assert forall|u: V| #[trigger] put(self@, (hash, (key, v)), u) == m0.insert((hash, (key, u))) by { assert(put(self@, (hash, (key, v)), u) =~= m0.insert((hash, (key, u)))); };
    }
@fn try_insert id=HashMap::try_insert
    requires old(self).inv()
    ensures match r {
        Ok(Ok(v)) => without(old(self)@, kc(key)) && *v == value && final(self).inv() && final(self).kin(*old(self)) && final(self)@ == old(self)@.insert((hk(old(self).hash_builder, kc(key)), (key, *final(v)))),
        Ok(Err(o)) => o.value == value && o.entry.ok() && *o.entry.table == *old(self) && *final(o.entry.table) == *final(self) && has(old(self)@, kc(key), o.entry.cur()),
        Err(x) => *final(self) == *old(self) && raised(old(self)@, key, x) }
@fn remove_entry id=HashMap::remove_entry
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(Some(p)) => exists|x: (u64, (K, V))| has(old(self)@, kc(*k), x) && p == #[trigger] x.1 && final(self)@ == old(self)@.remove(x),
        Ok(None) => final(self)@ == old(self)@ && without(old(self)@, kc(*k)),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, *k, x) }
@sub equivalent_key ( k ) , e , g ) ==> equivalent_key(k))
@enter
    proof { knows::<Q, K, V, E, G, R, S>(self@, self.hash_builder, *k); removals(self@, self.hash_builder); }
@fn remove id=HashMap::remove
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), match r {
        Ok(Some(v)) => exists|x: (u64, (K, V))| has(old(self)@, kc(*k), x) && v == (#[trigger] x.1).1 && final(self)@ == old(self)@.remove(x),
        Ok(None) => final(self)@ == old(self)@ && without(old(self)@, kc(*k)),
        Err(x) => final(self)@ == old(self)@ && raised(old(self)@, *k, x) }
@endimpl
@impl impl < 'a , K , V , E , G , R , S > OccupiedEntry < 'a , K , V , E , G , R , S > => impl<'a, K, V, E, G, R, S> OccupiedEntry<'a, K, V, E, G, R, S>
@fn key id=OccupiedEntry::key
    requires self.ok()
    ensures *r == self.cur().1.0
@sub self . elem . as_ref ( ) ==> self.table.table.table.ref_el(self.elem.index)
@fn get id=OccupiedEntry::get
    requires self.ok()
    ensures *r == self.cur().1.1
@sub self . elem . as_ref ( ) ==> self.table.table.table.ref_el(self.elem.index)
@fn get_mut id=OccupiedEntry::get_mut
    requires old(self).ok()
    ensures *r == old(self).cur().1.1, final(self).ok(), final(self).cur() == with(old(self).cur(), *final(r)), final(self).table@ == put(old(self).table@, old(self).cur(), *final(r)), final(self).elem == old(self).elem, final(self).hash == old(self).hash, *final(final(self).table) == *final(old(self).table), final(self).table.kin(*old(self).table)
@sub self . elem . as_mut ( ) ==> self.table.table.table.mut_el(self.elem.index)
@enter
    proof { rewrites_at(self.table.table, self.table.hash_builder, self.elem); }
@fn into_mut id=OccupiedEntry::into_mut
    requires self.ok()
    ensures *r == self.cur().1.1, final(self.table).inv(), final(self.table)@ == put((*old(self.table))@, self.cur(), *final(r)), final(self.table).kin(*old(self.table))
@sub self . elem . as_mut ( ) ==> self.table.table.table.mut_el(self.elem.index)
@enter
    proof { rewrites_at(self.table.table, self.table.hash_builder, self.elem); }
@fn insert id=OccupiedEntry::insert
    requires old(self).ok()
    ensures r == old(self).cur().1.1, final(self).ok(), final(self).cur() == with(old(self).cur(), value), final(self).table@ == put(old(self).table@, old(self).cur(), value), final(self).elem == old(self).elem, final(self).hash == old(self).hash, *final(final(self).table) == *final(old(self).table), final(self).table.kin(*old(self).table)
@sub mem :: replace ==> vreplace
@fn remove_entry id=OccupiedEntry::remove_entry
    requires self.ok()
    ensures r == self.cur().1, final(self.table).inv(), final(self.table)@ == (*old(self.table))@.remove(self.cur()), final(self.table).kin(*old(self.table))
@enter
    proof { held(self.table.table, self.elem); mapped_del(self.table@, self.table.hash_builder, self.cur()); }
@fn remove id=OccupiedEntry::remove
    requires self.ok()
    ensures r == self.cur().1.1, final(self.table).inv(), final(self.table)@ == (*old(self.table))@.remove(self.cur()), final(self.table).kin(*old(self.table))
@endimpl
@impl impl < 'a , K , V , E , G , R , S > VacantEntry < 'a , K , V , E , G , R , S > => impl<'a, K, V, E, G, R, S> VacantEntry<'a, K, V, E, G, R, S>
@fn key id=VacantEntry::key
    ensures *r == self.key
@fn into_key id=VacantEntry::into_key
    ensures r == self.key
@fn insert id=VacantEntry::insert
    requires self.ok()
    ensures *r == value, final(self.table).inv(), final(self.table).kin(*old(self.table)), final(self.table)@ == (*old(self.table))@.insert((self.hash, (self.key, *final(r))))
@enter
    proof { adds(self.table@, self.table.hash_builder, self.key); }
@fn insert_entry id=VacantEntry::insert_entry
    requires self.ok()
    ensures r.ok(), r.cur() == (self.hash, (self.key, value)), r.table@ == (*old(self.table))@.insert(r.cur()), *final(r.table) == *final(self.table), r.table.kin(*old(self.table))
@enter
    proof { adds(self.table@, self.table.hash_builder, self.key); }
@endimpl
@impl impl < 'a , K , V , E , G , R , S > Entry < 'a , K , V , E , G , R , S > => impl<'a, K, V, E, G, R, S> Entry<'a, K, V, E, G, R, S>
@fn insert id=Entry::insert
    requires self.ok()
    ensures r.ok(), r.cur().1.1 == value, *final(r.table) == *final(self.t()), r.table.kin(*old(self.t())), match self {
        Entry::Occupied(o) => r.table@ == put((*o.table)@, o.cur(), value) && r.cur() == with(o.cur(), value),
        Entry::Vacant(v) => r.table@ == (*v.table)@.insert(r.cur()) && r.cur() == (v.hash, (v.key, value)) }
@fn or_insert id=Entry::or_insert
    requires self.ok()
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        Entry::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        Entry::Vacant(v) => *r == default && final(v.table)@ == (*v.table)@.insert((v.hash, (v.key, *final(r)))) }
@fn or_insert_with id=Entry::or_insert_with
    requires self.ok(), default.requires(())
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        Entry::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        Entry::Vacant(v) => default.ensures((), *r) && final(v.table)@ == (*v.table)@.insert((v.hash, (v.key, *final(r)))) }
@fn or_insert_with_key id=Entry::or_insert_with_key
    requires self.ok(), self matches Entry::Vacant(v) ==> default.requires((&v.key,))
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        Entry::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        Entry::Vacant(v) => default.ensures((&v.key,), *r) && final(v.table)@ == (*v.table)@.insert((v.hash, (v.key, *final(r)))) }
@fn key id=Entry::key
    requires self.ok()
    ensures *r == match *self { Entry::Occupied(o) => o.cur().1.0, Entry::Vacant(v) => v.key }
@sub match * self ==> match self
@sub Entry :: Occupied ( ref entry ) ==> Entry::Occupied(entry)
@sub Entry :: Vacant ( ref entry ) ==> Entry::Vacant(entry)
@fn and_modify id=Entry::and_modify
    requires self.ok(), match self { Entry::Occupied(o) => forall|m: &mut V| *m == o.cur().1.1 ==> #[trigger] f.requires((m,)), Entry::Vacant(v) => true }
    ensures r.ok(), match self {
        Entry::Occupied(o) => r matches Entry::Occupied(p) && p.table@ == put((*o.table)@, o.cur(), p.cur().1.1) && p.cur() == with(o.cur(), p.cur().1.1) && *final(p.table) == *final(o.table) && p.table.kin(*o.table)
            && exists|m: &mut V| *m == o.cur().1.1 && *final(m) == p.cur().1.1 && #[trigger] f.ensures((m,), ()),
        Entry::Vacant(v) => r == self }
@fn and_replace_entry_with id=Entry::and_replace_entry_with
    requires self.ok()
    ensures r.ok(), match self {
        Entry::Occupied(o) => replaced(o, f.can(), r),
        Entry::Vacant(v) => r == self }
@sub < F > ==> 
@sub f : F ==> f: Chooser<K, V>
@sub where F : FnOnce ( & K , V ) -> Option < V > , ==> 
@endimpl
@verbatim
/// a caller's closure that may give back a value for a key
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Chooser<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> Chooser<K, V> {
    pub uninterp spec fn can(&self) -> spec_fn(K, V, Option<V>) -> bool;
    #[verifier::external_body]
    pub fn ask(&self, k: &K, v: V) -> (r: Option<V>) ensures (self.can())(*k, v, r) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Spare<K, V> { pub f: Chooser<K, V>, pub spare_key: Option<K> }
impl<K, V> Swap<(K, V)> for Spare<K, V> {
    open spec fn may(&self, x: (K, V), o: Option<(K, V)>, then: Self) -> bool {
        then.f == self.f && match o {
            Some(y) => y.0 == x.0 && (self.f.can())(x.0, x.1, Some(y.1)) && then.spare_key == self.spare_key,
            None => (self.f.can())(x.0, x.1, None) && then.spare_key == Some(x.0) }
    }
@end
@fn replace_entry_with id=replace_entry_with_closure closure=1 nopub
@ctx impl < 'a , K , V , E , G , R , S > OccupiedEntry < 'a , K , V , E , G , R , S >
@head fn call(&mut self, p_: (K, V)) -> Option<(K, V)>
@sub f ( & key , value ) ==> self.f.ask(&key, value)
@sub spare_key = Some ( key ) ==> self.spare_key = Some(key)
@verbatim
}
/// what replacing the entry o by f may give
#[verifier::prophetic]
pub open spec fn replaced<'a, K, V, E, G, R, S>(o: OccupiedEntry<'a, K, V, E, G, R, S>, f: spec_fn(K, V, Option<V>) -> bool, r: Entry<'a, K, V, E, G, R, S>) -> bool {
    match r {
        Entry::Occupied(p) => f(o.cur().1.0, o.cur().1.1, Some(p.cur().1.1)) && p.cur() == with(o.cur(), p.cur().1.1) && p.table@ == put((*o.table)@, o.cur(), p.cur().1.1) && *final(p.table) == *final(o.table) && p.table.kin(*o.table),
        Entry::Vacant(v) => f(o.cur().1.0, o.cur().1.1, None) && v.key == o.cur().1.0 && v.table@ == (*o.table)@.remove(o.cur()) && *final(v.table) == *final(o.table) && v.table.kin(*o.table),
    }
}
@end
@impl impl < 'a , K , V , E , G , R , S > OccupiedEntry < 'a , K , V , E , G , R , S > => impl<'a, K, V, E, G, R, S> OccupiedEntry<'a, K, V, E, G, R, S>
@fn replace_entry_with id=OccupiedEntry::replace_entry_with
    requires self.ok()
    ensures r.ok(), replaced(self, f.can(), r)
@sub < F > ( self , f : F ) ==> (self, f: Chooser<K, V>)
@sub where F : FnOnce ( & K , V ) -> Option < V > , ==> 
@sub let mut spare_key = None ; ==> let mut spare = Spare { f, spare_key: None };
@lift 1 ==> &mut spare
@sub self . elem . clone ( ) ==> Bucket { index: self.elem.index }
@sub = spare_key ==> = spare.spare_key
@enter
    proof {
        let o = self.cur();
        held(self.table.table, self.elem);
        removals(self.table@, self.table.hash_builder);
        assert forall|v: V| mapped(#[trigger] put(self.table@, o, v), self.table.hash_builder) by { mapped_put(self.table@, self.table.hash_builder, o, v); };
        assert forall|v: V| #[trigger] self.table@.remove(o).insert((o.0, (o.1.0, v))) == put(self.table@, o, v) by {};
    }
@endimpl
@item struct VacantEntryRef
@sub Q : ? Sized ==> Q
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(Q)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@item enum EntryRef
@sub Q : ? Sized ==> Q
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(Q)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
#[verifier::reject_recursive_types(S)]
@verbatim
impl<'a, 'b, K, Q, V, E, G, R, S> VacantEntryRef<'a, 'b, K, Q, V, E, G, R, S> {
    pub open spec fn ok(self) -> bool { self.table.inv() && without(self.table@, kc(*self.key)) && self.hash == hk(self.table.hash_builder, kc(*self.key)) }
}
impl<'a, 'b, K, Q, V, E, G, R, S> EntryRef<'a, 'b, K, Q, V, E, G, R, S> {
    pub open spec fn ok(self) -> bool { match self { EntryRef::Occupied(o) => o.ok(), EntryRef::Vacant(v) => v.ok() } }
    pub open spec fn t(self) -> &'a mut HashMap<K, V, E, G, R, S> { match self { EntryRef::Occupied(o) => o.table, EntryRef::Vacant(v) => v.table } }
}
/// q's own key and value, added
pub open spec fn added<Q, K, V>(m: Pairs<K, V>, d: Pairs<K, V>, h: u64, q: Q, v: V) -> bool { exists|k: K| kc(k) == kc(q) && d == #[trigger] m.insert((h, (k, v))) }
pub proof fn adds_q<Q, K, V, S>(m: Pairs<K, V>, s: S, q: Q)
    requires mapped(m, s), without(m, kc(q))
    ensures agrees(m, key_hash::<K, V, S>(s)), forall|h: u64, k: K, v: V| h == hk(s, kc(q)) && kc(k) == kc(q) ==> mapped(#[trigger] m.insert((h, (k, v))), s)
{ assert forall|h: u64, k: K, v: V| h == hk(s, kc(q)) && kc(k) == kc(q) implies mapped(#[trigger] m.insert((h, (k, v))), s) by { mapped_add(m, s, (h, (k, v))); }; }
@end
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > where K : RubyEql < E , G , R > + Hash , S : BuildHasher , => impl<K: RubyEql<E, G, R> + Hash, V, E, G, R, S: BuildHasher> HashMap<K, V, E, G, R, S>
@fn entry_ref id=HashMap::entry_ref
    requires old(self).inv()
    ensures match r {
        Ok(EntryRef::Occupied(o)) => o.ok() && *o.table == *old(self) && *final(o.table) == *final(self) && has(old(self)@, kc(*key), o.cur()),
        Ok(EntryRef::Vacant(v)) => v.ok() && *v.table == *old(self) && *final(v.table) == *final(self) && v.key == key,
        Err(x) => *final(self) == *old(self) && raised(old(self)@, *key, x) }
@sub equivalent_key ( key ) , e , g ) ? ==> equivalent_key(key))?
@enter
    proof { knows::<Q, K, V, E, G, R, S>(self@, self.hash_builder, *key); }
@endimpl
@impl impl < 'a , 'b , K , Q : ? Sized , V , E , G , R , S > VacantEntryRef < 'a , 'b , K , Q , V , E , G , R , S > => impl<'a, 'b, K, Q, V, E, G, R, S> VacantEntryRef<'a, 'b, K, Q, V, E, G, R, S>
@fn key id=VacantEntryRef::key
    ensures r == self.key
@fn insert id=VacantEntryRef::insert
    requires self.ok()
    ensures *r == value, final(self.table).inv(), final(self.table).kin(*old(self.table)), added((*old(self.table))@, final(self.table)@, self.hash, *self.key, *final(r))
@sub self . key . into ( ) ==> own(self.key)
@enter
    proof { adds_q(self.table@, self.table.hash_builder, *self.key); }
@fn insert_entry id=VacantEntryRef::insert_entry
    requires self.ok()
    ensures r.ok(), r.cur().1.1 == value, kc(r.cur().1.0) == kc(*self.key), r.table@ == (*old(self.table))@.insert(r.cur()), *final(r.table) == *final(self.table), r.table.kin(*old(self.table))
@sub self . key . into ( ) ==> own(self.key)
@enter
    proof { adds_q(self.table@, self.table.hash_builder, *self.key); }
@endimpl
@impl impl < 'a , 'b , K , Q : ? Sized , V , E , G , R , S > EntryRef < 'a , 'b , K , Q , V , E , G , R , S > => impl<'a, 'b, K, Q, V, E, G, R, S> EntryRef<'a, 'b, K, Q, V, E, G, R, S>
@fn insert id=EntryRef::insert
    requires self.ok()
    ensures r.ok(), r.cur().1.1 == value, *final(r.table) == *final(self.t()), r.table.kin(*old(self.t())), match self {
        EntryRef::Occupied(o) => r.table@ == put((*o.table)@, o.cur(), value) && r.cur() == with(o.cur(), value),
        EntryRef::Vacant(v) => r.table@ == (*v.table)@.insert(r.cur()) && kc(r.cur().1.0) == kc(*v.key) }
@fn or_insert id=EntryRef::or_insert
    requires self.ok()
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        EntryRef::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        EntryRef::Vacant(v) => *r == default && added((*v.table)@, final(v.table)@, v.hash, *v.key, *final(r)) }
@fn or_insert_with id=EntryRef::or_insert_with
    requires self.ok(), default.requires(())
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        EntryRef::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        EntryRef::Vacant(v) => default.ensures((), *r) && added((*v.table)@, final(v.table)@, v.hash, *v.key, *final(r)) }
@fn or_insert_with_key id=EntryRef::or_insert_with_key
    requires self.ok(), self matches EntryRef::Vacant(v) ==> default.requires((v.key,))
    ensures final(self.t()).inv(), final(self.t()).kin(*old(self.t())), match self {
        EntryRef::Occupied(o) => *r == o.cur().1.1 && final(o.table)@ == put((*o.table)@, o.cur(), *final(r)),
        EntryRef::Vacant(v) => default.ensures((v.key,), *r) && added((*v.table)@, final(v.table)@, v.hash, *v.key, *final(r)) }
@sub K : Hash + Borrow < Q > ==> K: Hash
@fn and_modify id=EntryRef::and_modify
    requires self.ok(), match self { EntryRef::Occupied(o) => forall|m: &mut V| *m == o.cur().1.1 ==> #[trigger] f.requires((m,)), EntryRef::Vacant(v) => true }
    ensures r.ok(), match self {
        EntryRef::Occupied(o) => r matches EntryRef::Occupied(p) && p.table@ == put((*o.table)@, o.cur(), p.cur().1.1) && p.cur() == with(o.cur(), p.cur().1.1) && *final(p.table) == *final(o.table) && p.table.kin(*o.table)
            && exists|m: &mut V| *m == o.cur().1.1 && *final(m) == p.cur().1.1 && #[trigger] f.ensures((m,), ()),
        EntryRef::Vacant(v) => r == self }
@endimpl
@item struct Iter
@sub RawIter < ( K , V ) > ==> RawIter
@sub marker : PhantomData < ( & 'a K , & 'a V ) > ==> marker: &'a RawTableInner<(K, V)>
@pre
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@verbatim
impl<'a, K, V> Iter<'a, K, V> {
    pub open spec fn ok(&self) -> bool { self.marker.wf() && self.inner.ok(self.marker.n()) && self.inner.iter.c() == self.marker.c() }
    /// what has been handed out
    pub open spec fn past(&self) -> Pairs<K, V> { bag(self.marker.c(), self.inner.iter.lo@, self.marker.els@, 0) }
    pub open spec fn left(&self) -> int { self.marker.n() - self.inner.iter.lo@ }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
}
@end
@impl impl < 'a , K , V > Iterator for Iter < 'a , K , V > => impl<'a, K, V> Iter<'a, K, V>
@fn next id=Iter::next
    requires old(self).ok()
    ensures final(self).ok(), final(self).marker == old(self).marker, match r {
        Some(p) => final(self).left() < old(self).left() && exists|x: (u64, (K, V))| steps(old(self).past(), final(self).past(), old(self).marker.content(), x) && (*p.0, *p.1) == #[trigger] x.1,
        None => old(self).past() == old(self).marker.content() }
@sub x . as_ref ( ) ==> self.marker.ref_el(x.index)
@enter
    let ghost c = self.marker.c();
    let ghost els = self.marker.els@;
    let ghost n = self.marker.n();
    let ghost lo = self.inner.iter.lo@;
    proof {
        assert(self.inner.ok(n));
        assert forall|j: int| lo <= j <= n && #[trigger] gap(c, lo, j) implies bag(c, lo, els, 0) == bag(c, j, els, 0) by { count_gap(c, els, lo, j); };
        assert forall|j: int| 0 <= j < n && full(#[trigger] c[j]) implies bag(c, j + 1, els, 0) == bag(c, j, els, 0).insert(els[j]) && bag(c, j + 1, els, 0).subset_of(bag(c, n, els, 0)) && bag(c, n, els, 0).contains(els[j]) by { bag_within(c, j + 1, n, els); bag_has(c, n, els, 0, j); };
    }
@fn size_hint id=Iter::size_hint
    requires self.ok()
    ensures r.0 == self.inner.iter.rest(self.marker.n()), r.1 == Some(r.0)
@endimpl
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn iter id=HashMap::iter
    requires self.inv()
    ensures r.ok(), r.marker == &self.table.table, r.past() == Multiset::<(u64, (K, V))>::empty()
@sub marker : PhantomData ==> marker: &self.table.table
@endimpl
@verbatim
/// y holds x's key and an equal value
pub open spec fn twin<K, V>(x: (u64, (K, V)), y: (u64, (K, V))) -> bool { kc(x.1.0) == kc(y.1.0) && kc(x.1.1) == kc(y.1.1) }
pub open spec fn paired<K, V>(x: (u64, (K, V)), m: Pairs<K, V>) -> bool { exists|y: (u64, (K, V))| #[trigger] m.contains(y) && twin(x, y) }
pub open spec fn same_map<K, V>(a: Pairs<K, V>, b: Pairs<K, V>) -> bool { a.len() == b.len() && forall|x: (u64, (K, V))| #[trigger] a.contains(x) ==> paired(x, b) }
@end
@impl impl < K , V , E , G , R , S > RubyEql < E , G , R > for HashMap < K , V , E , G , R , S > where K : RubyEql < E , G , R > + Hash , V : RubyEql < E , G , R > , S : BuildHasher , => impl<K: RubyEql<E, G, R> + Hash, V: RubyEql<E, G, R>, E, G, R, S: BuildHasher> HashMap<K, V, E, G, R, S>
@fn eql id=HashMap::eql foriter
    requires self.inv(), other.inv()
    ensures r matches Ok(b) ==> b == same_map(self@, other@)
@enter
    let ghost mut was: Pairs<K, V> = Multiset::empty();
@loop 1
    invariant_except_break was == _it1.past(), self.inv(), other.inv(), _it1.ok(), _it1.marker == &self.table.table, self@.len() == other@.len(), forall|x: (u64, (K, V))| #[trigger] _it1.past().contains(x) ==> paired(x, other@)
    ensures forall|x: (u64, (K, V))| #[trigger] self@.contains(x) ==> paired(x, other@), self@.len() == other@.len()
    decreases _it1.left()
@loopenter 1
    let ghost x = choose|x: (u64, (K, V))| steps(was, _it1.past(), self@, x) && (*k, *v) == #[trigger] x.1;
@loopend 1
    proof {
        assert(paired(x, other@));
        assert forall|y: (u64, (K, V))| #[trigger] _it1.past().contains(y) implies paired(y, other@) by { if y != x { assert(was.contains(y)); } };
        was = _it1.past();
    }
@endimpl
@verbatim
/// the same, bucket by bucket
pub open spec fn keyed<K, V, S>(c: Seq<Tag>, n: int, els: Seq<(u64, (K, V))>, s: S) -> bool {
    &&& forall|i: int| 0 <= i < n && full(#[trigger] c[i]) ==> els[i].0 == hk(s, kc(els[i].1.0))
    &&& forall|i: int, j: int| 0 <= i < j < n && full(#[trigger] c[i]) && full(#[trigger] c[j]) ==> kc(els[i].1.0) != kc(els[j].1.0)
}
pub proof fn keyed_of<K, V, S>(c: Seq<Tag>, n: int, els: Seq<(u64, (K, V))>, s: S)
    requires 0 <= n <= c.len(), n <= els.len(), mapped(bag(c, n, els, 0), s)
    ensures keyed(c, n, els, s)
{
    let m = bag(c, n, els, 0);
    assert forall|i: int| 0 <= i < n && full(#[trigger] c[i]) implies els[i].0 == hk(s, kc(els[i].1.0)) by { bag_has(c, n, els, 0, i); };
    assert forall|i: int, j: int| 0 <= i < j < n && full(#[trigger] c[i]) && full(#[trigger] c[j]) implies kc(els[i].1.0) != kc(els[j].1.0) by {
        bag_has(c, n, els, 0, i);
        bag_has(c, n, els, 0, j);
        bag_has(c, j, els, 0, i);
        bag_within(c, j + 1, n, els);
        if kc(els[i].1.0) == kc(els[j].1.0) { assert(els[i] == els[j]); assert(bag(c, j + 1, els, 0) == bag(c, j, els, 0).insert(els[j])); assert(bag(c, j + 1, els, 0).count(els[j]) >= 2); assert(m.count(els[j]) >= 2); }
    };
}
pub proof fn once<K, V, S>(c: Seq<Tag>, n: int, els: Seq<(u64, (K, V))>, s: S, x: (u64, (K, V)))
    requires 0 <= n <= c.len(), n <= els.len(), keyed(c, n, els, s)
    ensures bag(c, n, els, 0).count(x) <= 1
    decreases n
{
    if n > 0 {
        assert(keyed(c, n - 1, els, s)) by {
            assert forall|i: int, j: int| 0 <= i < j < n - 1 && full(#[trigger] c[i]) && full(#[trigger] c[j]) implies kc(els[i].1.0) != kc(els[j].1.0) by {};
        };
        once(c, n - 1, els, s, x);
        if is_(0, c[n - 1]) && els[n - 1] == x && bag(c, n - 1, els, 0).contains(x) { let i = bag_find(c, n - 1, els, x); assert(full(c[i]) && full(c[n - 1])); }
    }
}
pub proof fn mapped_of<K, V, S>(c: Seq<Tag>, n: int, els: Seq<(u64, (K, V))>, s: S)
    requires 0 <= n <= c.len(), n <= els.len(), keyed(c, n, els, s)
    ensures mapped(bag(c, n, els, 0), s)
{
    let m = bag(c, n, els, 0);
    assert forall|x: (u64, (K, V))| #[trigger] m.contains(x) implies x.0 == hk(s, kc(x.1.0)) && m.count(x) == 1 by { let i = bag_find(c, n, els, x); assert(full(c[i])); once(c, n, els, s, x); };
    assert forall|x: (u64, (K, V)), y: (u64, (K, V))| #[trigger] m.contains(x) && #[trigger] m.contains(y) && kc(x.1.0) == kc(y.1.0) implies x == y by {
        let i = bag_find(c, n, els, x);
        let j = bag_find(c, n, els, y);
        assert(full(c[i]) && full(c[j]));
    };
}
/// a caller's filter over keys and values
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct PairFilter<K, V> { x: core::marker::PhantomData<(K, V)> }
impl<K, V> PairFilter<K, V> {
    pub uninterp spec fn can(&self) -> spec_fn(K, V, V, bool) -> bool;
    #[verifier::external_body]
    pub fn ask(&mut self, k: &K, v: &mut V) -> (r: bool) ensures final(self).can() == old(self).can(), (old(self).can())(*k, *old(v), *final(v), r) { unimplemented!() }
}
pub open spec fn on_pairs<K, V>(f: spec_fn(K, V, V, bool) -> bool) -> spec_fn((K, V), (K, V), bool) -> bool { |a: (K, V), b: (K, V), r: bool| a.0 == b.0 && f(a.0, a.1, b.1, r) }
/// x after the filter: kept, perhaps with another value, or gone
pub open spec fn sifted<K, V>(f: spec_fn(K, V, V, bool) -> bool, x: (u64, (K, V)), m: Pairs<K, V>) -> bool {
    ||| exists|v: V| #[trigger] f(x.1.0, x.1.1, v, true) && m.contains(with(x, v))
    ||| without(m, kc(x.1.0)) && exists|v: V| #[trigger] f(x.1.0, x.1.1, v, false)
}
pub open spec fn stems<K, V>(f: spec_fn(K, V, V, bool) -> bool, y: (u64, (K, V)), m: Pairs<K, V>) -> bool { exists|x: (u64, (K, V))| #[trigger] m.contains(x) && y == with(x, y.1.1) && f(x.1.0, x.1.1, y.1.1, true) }
pub proof fn sieve<K, V, S>(o: RawTableInner<(K, V)>, t: RawTableInner<(K, V)>, f: spec_fn(K, V, V, bool) -> bool, s: S)
    requires o.wf(), t.wf(), o.bucket_mask == t.bucket_mask, mapped(o.content(), s), forall|i: int| 0 <= i < o.n() ==> #[trigger] sieved(o, t, on_pairs(f), i)
    ensures mapped(t.content(), s), forall|x: (u64, (K, V))| #[trigger] o.content().contains(x) ==> sifted(f, x, t.content()), forall|y: (u64, (K, V))| #[trigger] t.content().contains(y) ==> stems(f, y, o.content())
{
    let n = o.n();
    let c = o.c();
    let d = t.c();
    keyed_of(c, n, o.els@, s);
    assert forall|i: int| 0 <= i < n && full(#[trigger] d[i]) implies full(c[i]) && t.els@[i].0 == o.els@[i].0 && t.els@[i].1.0 == o.els@[i].1.0 && f(o.els@[i].1.0, o.els@[i].1.1, t.els@[i].1.1, true) by { assert(sieved(o, t, on_pairs(f), i)); };
    assert(keyed(d, n, t.els@, s)) by {
        assert forall|i: int| 0 <= i < n && full(#[trigger] d[i]) implies t.els@[i].0 == hk(s, kc(t.els@[i].1.0)) by { assert(full(c[i])); };
        assert forall|i: int, j: int| 0 <= i < j < n && full(#[trigger] d[i]) && full(#[trigger] d[j]) implies kc(t.els@[i].1.0) != kc(t.els@[j].1.0) by { assert(full(c[i]) && full(c[j])); };
    };
    mapped_of(d, n, t.els@, s);
    assert forall|x: (u64, (K, V))| #[trigger] o.content().contains(x) implies sifted(f, x, t.content()) by {
        let i = bag_find(c, n, o.els@, x);
        assert(sieved(o, t, on_pairs(f), i));
        if full(d[i]) {
            bag_has(d, n, t.els@, 0, i);
            assert(t.els@[i] == with(x, t.els@[i].1.1));
            assert(f(x.1.0, x.1.1, t.els@[i].1.1, true));
        } else {
            let y = choose|y: (K, V)| #[trigger] (on_pairs(f))(o.els@[i].1, y, false);
            assert(f(x.1.0, x.1.1, y.1, false));
            assert forall|z: (u64, (K, V))| #[trigger] t.content().contains(z) implies kc(z.1.0) != kc(x.1.0) by { let j = bag_find(d, n, t.els@, z); assert(full(d[j])); assert(full(c[i]) && full(c[j])); };
        }
    };
    assert forall|y: (u64, (K, V))| #[trigger] t.content().contains(y) implies stems(f, y, o.content()) by {
        let i = bag_find(d, n, t.els@, y);
        assert(full(d[i]));
        bag_has(c, n, o.els@, 0, i);
        assert(o.content().contains(o.els@[i]));
    };
}
@end
@impl impl < K , V , E , G , R , S > HashMap < K , V , E , G , R , S > => impl<K, V, E, G, R, S> HashMap<K, V, E, G, R, S>
@fn retain id=HashMap::retain foriter
    requires old(self).inv()
    ensures final(self).inv(), final(self).kin(*old(self)), forall|x: (u64, (K, V))| #[trigger] old(self)@.contains(x) ==> sifted(f.can(), x, final(self)@), forall|y: (u64, (K, V))| #[trigger] final(self)@.contains(y) ==> stems(f.can(), y, old(self)@)
@sub < F > ( ==> (
@sub f : F ) ==> f: PairFilter<K, V>)
@sub where F : FnMut ( & K , & mut V ) -> bool , ==> 
@sub let & mut ( ref key , ref mut value ) = item . as_mut ( ) ==> let (key, value) = self.table.table.mut_el(item.index)
@sub f ( key , value ) ==> f.ask(key, value)
@enter
    let ghost o = self.table.table;
    let ghost n = o.n();
    let ghost cans = f.can();
    let ghost can = on_pairs(f.can());
    let ghost mut lo_: int = 0;
@loop 1
    invariant_except_break _it1.ok(n), lo_ == _it1.iter.lo@, _it1.iter.c() == o.c(), self.table.wf(), f.can() == cans, can == on_pairs(cans), self.hash_builder == old(self).hash_builder, self.table.table.bucket_mask == o.bucket_mask, n == o.n(),
        forall|i: int| 0 <= i < _it1.iter.lo@ ==> #[trigger] sieved(o, self.table.table, can, i),
        forall|i: int| _it1.iter.lo@ <= i < n ==> #[trigger] self.table.table.c()[i] == o.c()[i] && self.table.table.els@[i] == o.els@[i]
    ensures self.table.wf(), self.hash_builder == old(self).hash_builder, f.can() == cans, self.table.table.bucket_mask == o.bucket_mask, forall|i: int| 0 <= i < n ==> #[trigger] sieved(o, self.table.table, can, i)
    decreases n - _it1.iter.lo@
@loopenter 1
    let ghost ix = item.index as int;
    let ghost bk = item;
    let ghost b0 = self.table;
    let ghost mut b1 = self.table;
    let ghost mut gone = false;
    proof { assert(self.table.table.c()[ix] == o.c()[ix]); }
@before self . table . erase
    proof { b1 = self.table; gone = true; swapped_wf(b1, b0, bk, b1.at(bk).1); assert(can(b0.at(bk).1, b1.at(bk).1, false)); assert(dropped(can, o.els@[ix].1)); }
@loopend 1
    proof {
        if !gone { b1 = self.table; swapped_wf(b1, b0, bk, b1.at(bk).1); assert(can(b0.at(bk).1, b1.at(bk).1, true)); }
        let t = self.table.table;
        assert forall|i: int| 0 <= i < _it1.iter.lo@ implies #[trigger] sieved(o, t, can, i) by {
            if i < lo_ { assert(sieved(o, b0.table, can, i)); assert(b1.table.c()[i] == b0.table.c()[i]); assert(b1.table.els@[i] == b0.table.els@[i]); assert(t.c()[i] == b1.table.c()[i]); assert(t.els@[i] == b1.table.els@[i]); }
            else if i < ix { assert(!full(o.c()[i])); assert(b0.table.c()[i] == o.c()[i]); assert(t.c()[i] == b1.table.c()[i]); }
        };
        assert forall|i: int| _it1.iter.lo@ <= i < n implies #[trigger] t.c()[i] == o.c()[i] && t.els@[i] == o.els@[i] by {
            assert(b0.table.c()[i] == o.c()[i]); assert(t.c()[i] == b1.table.c()[i]); assert(t.els@[i] == b1.table.els@[i]);
        };
        lo_ = _it1.iter.lo@;
    }
@loopexit 1
    proof { sieve(o, self.table.table, cans, self.hash_builder); }
@endimpl
