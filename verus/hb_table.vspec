// The hash table wrapper: hashbrown/src/table.rs (HashTable, its entries) over the table of hb_raw.vspec.
@include hb_raw.vspec
@file hashbrown/src/table.rs
@item struct HashTable
@sub < T , E = ( ) , G = ( ) , R = ( ) > ==> <T, E, G, R>
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct OccupiedEntry
@sub Bucket < T > ==> Bucket
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct VacantEntry
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item struct AbsentEntry
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@item enum Entry
@sub R = ( ) > ==> R>
@pre
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(G)]
#[verifier::reject_recursive_types(R)]
@verbatim
impl<T, E, G, R> HashTable<T, E, G, R> {
    pub open spec fn wf(&self) -> bool { self.raw.wf() }
    pub open spec fn view(&self) -> Multiset<(u64, T)> { self.raw@ }
    pub open spec fn cap(&self) -> int { self.raw.table.items + self.raw.table.growth_left }
}
impl<'a, T, E, G, R> OccupiedEntry<'a, T, E, G, R> {
    pub open spec fn ok(self) -> bool { self.table.wf() && self.table.raw.holds(self.bucket) }
    pub open spec fn cur(self) -> (u64, T) { self.table.raw.at(self.bucket) }
}
impl<'a, T, E, G, R> VacantEntry<'a, T, E, G, R> {
    pub open spec fn ok(self) -> bool { self.table.wf() && self.table.raw.takes(self.hash, self.insert_slot) }
}
@end
@impl impl < T , E , G , R > HashTable < T , E , G , R > => impl<T, E, G, R> HashTable<T, E, G, R>
@fn new id=HashTable::new
    ensures r.wf(), r@ == Multiset::<(u64, T)>::empty()
@fn with_capacity id=HashTable::with_capacity
    ensures r.wf(), r@ == Multiset::<(u64, T)>::empty(), r.cap() >= capacity
@fn find id=HashTable::find
    requires self.wf()
    ensures match r {
        Ok(Some(x)) => exists|b: Bucket| #![trigger self.raw.at(b)] self.raw.holds(b) && (eq.can())(self.raw.at(b).1, Ok(true)) && *x == self.raw.at(b).1,
        Ok(None) => self.raw.lacks(hash, eq.can()),
        Err(e) => self.raw.failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@fn find_mut id=HashTable::find_mut
    requires old(self).wf()
    ensures match r {
        Ok(Some(x)) => exists|b: Bucket| #![trigger old(self).raw.at(b)] old(self).raw.holds(b) && (eq.can())(old(self).raw.at(b).1, Ok(true)) && *x == old(self).raw.at(b).1 && final(self).raw.swapped(old(self).raw, b, *final(x)),
        Ok(None) => *final(self) == *old(self) && old(self).raw.lacks(hash, eq.can()),
        Err(e) => *final(self) == *old(self) && old(self).raw.failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@fn find_entry id=HashTable::find_entry
    requires old(self).wf()
    ensures match r {
        Ok(Ok(o)) => o.ok() && *o.table == *old(self) && *final(o.table) == *final(self) && o.hash == hash && (eq.can())(o.cur().1, Ok(true)),
        Ok(Err(a)) => *a.table == *old(self) && *final(a.table) == *final(self) && old(self).raw.lacks(hash, eq.can()),
        Err(e) => *final(self) == *old(self) && old(self).raw.failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , e , g ) ==> , eq)
@fn entry id=HashTable::entry
    requires old(self).wf(), old(self).raw.table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures match r {
        Ok(Entry::Occupied(o)) => o.ok() && o.table@ == old(self)@ && *final(o.table) == *final(self) && o.hash == hash && (eq.can())(o.cur().1, Ok(true)),
        Ok(Entry::Vacant(v)) => v.ok() && v.table@ == old(self)@ && *final(v.table) == *final(self) && v.hash == hash && v.table.raw.lacks(hash, eq.can()),
        Err(e) => final(self).wf() && final(self)@ == old(self)@ && final(self).raw.failed(eq.can(), e) }
@sub eq : impl FnMut ( & T , & mut E , & mut G ) -> Result < bool , R > ==> eq: KeyEq<T, R>
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub , e : & mut E , g : & mut G , ) ==> )
@sub , eq , hasher , e , g ) ==> , eq, hasher)
@fn entry_sym id=HashTable::entry_sym
    requires old(self).wf(), old(self).raw.table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures match r {
        Entry::Occupied(o) => o.ok() && o.table@ == old(self)@ && *final(o.table) == *final(self) && o.hash == hash && (eq.can())(o.cur().1, Ok(true)),
        Entry::Vacant(v) => v.ok() && v.table@ == old(self)@ && *final(v.table) == *final(self) && v.hash == hash && v.table.raw.lacks(hash, eq.can()) }
@sub eq : impl FnMut ( & T ) -> bool ==> eq: KeyEq<T, R>
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@fn insert_unique id=HashTable::insert_unique
    requires old(self).wf(), old(self).raw.table.growth_left > 0 || agrees(old(self)@, hasher.of())
    ensures r.ok(), r.table@ == old(self)@.insert((hash, value)), r.cur() == (hash, value), r.hash == hash, *final(r.table) == *final(self)
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@fn clear id=HashTable::clear
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ == Multiset::<(u64, T)>::empty()
@fn shrink_to_fit id=HashTable::shrink_to_fit
    requires old(self).wf(), agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@sub self . raw . shrink_to ( self . len ( ) , hasher ) ==> let n_ = self.len(); self.raw.shrink_to(n_, hasher)
@fn shrink_to id=HashTable::shrink_to
    requires old(self).wf(), agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@fn reserve id=HashTable::reserve
    requires old(self).wf(), agrees(old(self)@, hasher.of())
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).cap() >= final(self)@.len() + additional
@sub hasher : impl Fn ( & T ) -> u64 ==> hasher: Hasher<T>
@exit
    proof { bag_len(self.raw.table.c(), self.raw.table.n(), self.raw.table.els@, 0); }
@fn capacity id=HashTable::capacity
    requires self.wf()
    ensures r == self.cap(), r >= self@.len()
@enter
    proof { bag_len(self.raw.table.c(), self.raw.table.n(), self.raw.table.els@, 0); }
@fn len id=HashTable::len
    requires self.wf()
    ensures r == self@.len()
@fn is_empty id=HashTable::is_empty
    requires self.wf()
    ensures r == (self@.len() == 0)
@endimpl
@impl impl < 'a , T , E , G , R > OccupiedEntry < 'a , T , E , G , R > => impl<'a, T, E, G, R> OccupiedEntry<'a, T, E, G, R>
@fn remove id=OccupiedEntry::remove
    requires self.ok()
    ensures r.0 == self.cur().1, r.1.table@ == (*old(self.table))@.remove(self.cur()), r.1.hash == self.hash, *final(r.1.table) == *final(self.table), r.1.table.wf(), self.hash == self.cur().0 ==> r.1.ok()
@fn get id=OccupiedEntry::get
    requires self.ok()
    ensures *r == self.cur().1
@sub self . bucket . as_ref ( ) ==> self.table.raw.table.ref_el(self.bucket.index)
@fn get_mut id=OccupiedEntry::get_mut
    requires old(self).ok()
    ensures *r == old(self).cur().1, final(self).bucket == old(self).bucket, final(self).hash == old(self).hash, *final(final(self).table) == *final(old(self).table), (*final(self).table).raw.swapped((*old(self).table).raw, old(self).bucket, *final(r))
@sub self . bucket . as_mut ( ) ==> self.table.raw.table.mut_el(self.bucket.index)
@fn into_mut id=OccupiedEntry::into_mut
    requires self.ok()
    ensures *r == self.cur().1, final(self.table).raw.swapped((*old(self.table)).raw, self.bucket, *final(r))
@sub self . bucket . as_mut ( ) ==> self.table.raw.table.mut_el(self.bucket.index)
@fn into_table id=OccupiedEntry::into_table
    ensures *r == *old(self.table), *final(r) == *final(self.table)
@endimpl
@impl impl < 'a , T , E , G , R > VacantEntry < 'a , T , E , G , R > => impl<'a, T, E, G, R> VacantEntry<'a, T, E, G, R>
@fn insert id=VacantEntry::insert
    requires self.ok()
    ensures r.ok(), r.table@ == (*old(self.table))@.insert((self.hash, value)), r.cur() == (self.hash, value), r.hash == self.hash, *final(r.table) == *final(self.table)
@fn into_table id=VacantEntry::into_table
    ensures *r == *old(self.table), *final(r) == *final(self.table)
@endimpl
@impl impl < 'a , T , E , G , R > AbsentEntry < 'a , T , E , G , R > => impl<'a, T, E, G, R> AbsentEntry<'a, T, E, G, R>
@fn into_table id=AbsentEntry::into_table
    ensures *r == *old(self.table), *final(r) == *final(self.table)
@endimpl
@impl impl < 'a , T , E , G , R > Entry < 'a , T , E , G , R > => impl<'a, T, E, G, R> Entry<'a, T, E, G, R>
@fn or_insert id=Entry::or_insert
    requires match self { Entry::Occupied(o) => o.ok(), Entry::Vacant(v) => v.ok() }
    ensures r.ok(), match self { Entry::Occupied(o) => r == o, Entry::Vacant(v) => r.table@ == v.table@.insert((v.hash, default)) && r.cur() == (v.hash, default) && *final(r.table) == *final(v.table) }
@fn or_insert_with id=Entry::or_insert_with
    requires default.requires(()), match self { Entry::Occupied(o) => o.ok(), Entry::Vacant(v) => v.ok() }
    ensures r.ok(), match self { Entry::Occupied(o) => r == o, Entry::Vacant(v) => default.ensures((), r.cur().1) && r.table@ == v.table@.insert((v.hash, r.cur().1)) && r.cur().0 == v.hash && *final(r.table) == *final(v.table) }
@fn insert id=Entry::insert
    requires match self { Entry::Occupied(o) => o.ok(), Entry::Vacant(v) => v.ok() }
    ensures r.ok(), match self {
        Entry::Occupied(o) => (*r.table).raw.swapped((*o.table).raw, o.bucket, value) && r.bucket == o.bucket && r.hash == o.hash && *final(r.table) == *final(o.table),
        Entry::Vacant(v) => r.table@ == v.table@.insert((v.hash, value)) && r.cur() == (v.hash, value) && *final(r.table) == *final(v.table) }
@after * entry . get_mut ( ) = value
    proof { swapped_wf((*entry.table).raw, me.raw, entry.bucket, value); }
@before * entry . get_mut ( )
    let ghost me = *entry.table;
@fn and_modify id=Entry::and_modify
    requires match self { Entry::Occupied(o) => o.ok() && forall|m: &mut T| *m == o.cur().1 ==> #[trigger] f.requires((m,)), Entry::Vacant(v) => v.ok() }
    ensures match self {
        Entry::Occupied(o) => r matches Entry::Occupied(p) && p.ok() && (*p.table).raw.swapped((*o.table).raw, o.bucket, p.cur().1) && p.bucket == o.bucket && p.hash == o.hash && *final(p.table) == *final(o.table)
            && exists|m: &mut T| *m == o.cur().1 && *final(m) == p.cur().1 && #[trigger] f.ensures((m,), ()),
        Entry::Vacant(v) => r == self }
@before f ( entry . get_mut ( ) )
    let ghost me = *entry.table;
@after f ( entry . get_mut ( ) )
    proof { swapped_wf((*entry.table).raw, me.raw, entry.bucket, entry.cur().1); }
@endimpl
@impl impl < T , E , G , R > HashTable < T , E , G , R > => impl<T, E, G, R> HashTable<T, E, G, R>
@fn retain id=HashTable::retain foriter
    requires old(self).wf()
    ensures final(self).wf(), final(self).raw.table.bucket_mask == old(self).raw.table.bucket_mask, forall|i: int| 0 <= i < old(self).raw.table.n() ==> #[trigger] sieved(old(self).raw.table, final(self).raw.table, f.can(), i)
@sub f : impl FnMut ( & mut T ) -> bool ==> f: Filter<T>
@sub if ! f ( item . as_mut ( ) ) ==> let keep_ = f.ask(self.raw.table.mut_el(item.index)); if !keep_
@enter
    let ghost o = self.raw.table;
    let ghost n = o.n();
    let ghost can = f.can();
    let ghost mut lo_: int = 0;
@loop 1
    invariant_except_break _it1.ok(n), lo_ == _it1.iter.lo@, _it1.iter.c() == o.c(), self.wf(), f.can() == can, self.raw.table.bucket_mask == o.bucket_mask, n == o.n(),
        forall|i: int| 0 <= i < _it1.iter.lo@ ==> #[trigger] sieved(o, self.raw.table, can, i),
        forall|i: int| _it1.iter.lo@ <= i < n ==> #[trigger] self.raw.table.c()[i] == o.c()[i] && self.raw.table.els@[i] == o.els@[i]
    ensures self.wf(), f.can() == can, self.raw.table.bucket_mask == o.bucket_mask, forall|i: int| 0 <= i < n ==> #[trigger] sieved(o, self.raw.table, can, i)
    decreases n - _it1.iter.lo@
@loopenter 1
    let ghost ix = item.index as int;
    let ghost bk = item;
    let ghost b0 = self.raw;
    proof { assert(self.raw.table.c()[ix] == o.c()[ix]); }
@before if ! keep_
    let ghost b1 = self.raw;
    proof {
        swapped_wf(b1, b0, bk, b1.at(bk).1);
        assert(can(b0.at(bk).1, b1.at(bk).1, keep_));
        if !keep_ { assert(dropped(can, o.els@[ix].1)); }
    }
@loopend 1
    proof {
        let t = self.raw.table;
        assert forall|i: int| 0 <= i < _it1.iter.lo@ implies #[trigger] sieved(o, t, can, i) by {
            if i < lo_ { assert(sieved(o, b0.table, can, i)); assert(b1.table.c()[i] == b0.table.c()[i]); assert(b1.table.els@[i] == b0.table.els@[i]); assert(t.c()[i] == b1.table.c()[i]); assert(t.els@[i] == b1.table.els@[i]); }
            else if i < ix { assert(!full(o.c()[i])); assert(b0.table.c()[i] == o.c()[i]); assert(t.c()[i] == b1.table.c()[i]); }
        };
        assert forall|i: int| _it1.iter.lo@ <= i < n implies #[trigger] t.c()[i] == o.c()[i] && t.els@[i] == o.els@[i] by {
            assert(b0.table.c()[i] == o.c()[i]); assert(t.c()[i] == b1.table.c()[i]); assert(t.els@[i] == b1.table.els@[i]);
        };
        lo_ = _it1.iter.lo@;
    }
@endimpl
