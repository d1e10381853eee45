// Iterators of the ordered map and set: rubymap/src/{macros,map/iter,set/iter}.rs and the functions making them
@include views.vspec
@verbatim
// ---- the iterators of std over a list: what is still to come, from both ends -----------------------------------
pub open spec fn took<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool { if n < a.len() { b == a.skip(n + 1) } else { b.len() == 0 } }
pub open spec fn took_back<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool { if n < a.len() { b == a.take(a.len() - 1 - n) } else { b.len() == 0 } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SIter<'a, T> { p: core::marker::PhantomData<&'a T> }
impl<'a, T> SIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>) ensures took(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> *x == old(self).rest()[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<&'a T>) ensures took(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> *x == old(self).rest()[n as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a T>) ensures took_back(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> *x == old(self).rest()[old(self).rest().len() - 1] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_back(&mut self, n: usize) -> (r: Option<&'a T>) ensures took_back(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> *x == old(self).rest()[old(self).rest().len() - 1 - n] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.rest().len(), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &'a [T]) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn over(s: &'a [T]) -> (r: Self) ensures r.rest() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn none() -> (r: Self) ensures r.rest().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn collected<X, C, F: Fn(&'a T) -> X>(self, f: F) -> (r: C) requires forall|b: &'a T| #[trigger] f.requires((b,)) ensures exists|s: Seq<X>| #[trigger] made(r, s) && s.len() == self.rest().len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] self.rest()[i],), s[i]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIter<T> { p: core::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures took(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> x == old(self).rest()[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>) ensures took(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> x == old(self).rest()[n as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>) ensures took_back(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> x == old(self).rest()[old(self).rest().len() - 1] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_back(&mut self, n: usize) -> (r: Option<T>) ensures took_back(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> x == old(self).rest()[old(self).rest().len() - 1 - n] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.rest().len(), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn over(s: Vec<T>) -> (r: Self) ensures r.rest() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_slice(&mut self) -> (r: &mut [T]) ensures r@ == old(self).rest(), final(r)@ == final(self).rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn collected<X, C, F: Fn(T) -> X>(self, f: F) -> (r: C) requires forall|b: T| #[trigger] f.requires((b,)) ensures exists|s: Seq<X>| #[trigger] made(r, s) && s.len() == self.rest().len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] self.rest()[i],), s[i]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DIter<'a, T> { p: core::marker::PhantomData<&'a T> }
impl<'a, T> DIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>) ensures took(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> x == old(self).rest()[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>) ensures took(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> x == old(self).rest()[n as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<T>) ensures took_back(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> x == old(self).rest()[old(self).rest().len() - 1] { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_back(&mut self, n: usize) -> (r: Option<T>) ensures took_back(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> x == old(self).rest()[old(self).rest().len() - 1 - n] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.rest().len(), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn collected<X, C, F: Fn(T) -> X>(self, f: F) -> (r: C) requires forall|b: T| #[trigger] f.requires((b,)) ensures exists|s: Seq<X>| #[trigger] made(r, s) && s.len() == self.rest().len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((#[trigger] self.rest()[i],), s[i]) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MIter<'a, T> { p: core::marker::PhantomData<&'a T> }
impl<'a, T> MIter<'a, T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    /// what the entries still to come will be when the borrow ends
    #[verifier::prophetic]
    pub uninterp spec fn fin(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>) ensures took(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> *x == old(self).rest()[0] && *final(x) == old(self).fin()[0] && took(old(self).fin(), final(self).fin(), 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<&'a mut T>) ensures took(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> *x == old(self).rest()[n as int] && *final(x) == old(self).fin()[n as int] && took(old(self).fin(), final(self).fin(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a mut T>) ensures took_back(old(self).rest(), final(self).rest(), 0), r is Some == (old(self).rest().len() > 0), r matches Some(x) ==> *x == old(self).rest()[old(self).rest().len() - 1] && *final(x) == old(self).fin()[old(self).rest().len() - 1] && took_back(old(self).fin(), final(self).fin(), 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth_back(&mut self, n: usize) -> (r: Option<&'a mut T>) ensures took_back(old(self).rest(), final(self).rest(), n as int), r is Some == (n < old(self).rest().len()), r matches Some(x) ==> *x == old(self).rest()[old(self).rest().len() - 1 - n] && *final(x) == old(self).fin()[old(self).rest().len() - 1 - n] && took_back(old(self).fin(), final(self).fin(), n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.rest().len(), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn over(s: &'a mut [T]) -> (r: Self) ensures r.rest() == old(s)@, r.fin() == final(s)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn none() -> (r: Self) ensures r.rest().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_slice(self) -> (r: &'a mut [T]) ensures r@ == self.rest(), final(r)@ == self.fin() { unimplemented!() }
}
/// c was collected from the items s, in that order
pub uninterp spec fn made<X, C>(c: C, s: Seq<X>) -> bool;
impl<K, V> RubyMap<K, V> {
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: Vec<Bucket<K, V>>) ensures r@ == self.es() { unimplemented!() }
}
@end
@file rubymap/src/map/iter.rs
@item struct Iter
@sub slice :: Iter < ==> SIter <
@impl impl<'a, K, V> Iter<'a, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn new id=Iter::new
    ensures r.iter.rest() == entries@
@sub entries . iter ( ) ==> SIter::over(entries)
@fn as_slice id=Iter::as_slice
    ensures r.es() == self.iter.rest()
@endimpl
@impl impl<'a, K, V> Iterator for Iter<'a, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn next id=Iter::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x.0 == old(self).iter.rest()[0].key && *x.1 == old(self).iter.rest()[0].value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a V)>
@fn nth id=Iter::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x.0 == old(self).iter.rest()[n as int].key && *x.1 == old(self).iter.rest()[n as int].value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a V)>
@fn size_hint id=Iter::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=Iter::count
    ensures r == self.iter.rest().len()
@fn last id=Iter::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x.0 == self.iter.rest().last().key && *x.1 == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a V)>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=Iter::collect
    ensures exists|s: Seq<(&'a K, &'a V)>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> *s[i].0 == (#[trigger] self.iter.rest()[i]).key && *s[i].1 == (#[trigger] self.iter.rest()[i]).value
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for Iter<'_, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn next_back id=Iter::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x.0 == old(self).iter.rest().last().key && *x.1 == old(self).iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a V)>
@fn nth_back id=Iter::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x.0 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key && *x.1 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a V)>
@endimpl
@impl impl<K, V> ExactSizeIterator for Iter<'_, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn len id=Iter::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Clone for Iter<'_, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn clone id=Iter::clone
    ensures r.iter.rest() == self.iter.rest()
@endimpl
@impl impl<K, V> Default for Iter<'_, K, V> => impl<'a, K, V> Iter<'a, K, V>
@fn default id=Iter::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter ( ) ==> SIter::none()
@endimpl
@file rubymap/src/map/iter.rs
@item struct IterMut
@sub slice :: IterMut < ==> MIter <
@impl impl<'a, K, V> IterMut<'a, K, V> => impl<'a, K, V> IterMut<'a, K, V>
@fn new id=IterMut::new
    ensures r.iter.rest() == old(entries)@, r.iter.fin() == final(entries)@
@sub entries . iter_mut ( ) ==> MIter::over(entries)
@fn as_slice id=IterMut::as_slice
    ensures r.es() == self.iter.rest()
@fn into_slice id=IterMut::into_slice
    ensures r.es() == self.iter.rest(), final(r).es() == self.iter.fin()
@endimpl
@impl impl<'a, K, V> Iterator for IterMut<'a, K, V> => impl<'a, K, V> IterMut<'a, K, V>
@fn next id=IterMut::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x.0 == old(self).iter.rest()[0].key && *x.1 == old(self).iter.rest()[0].value && old(self).iter.fin()[0] == with_value(old(self).iter.rest()[0], *final(x.1)) && took(old(self).iter.fin(), final(self).iter.fin(), 0)
@sub Option < Self :: Item > ==> Option<(&'a K, &'a mut V)>
@fn nth id=IterMut::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x.0 == old(self).iter.rest()[n as int].key && *x.1 == old(self).iter.rest()[n as int].value && old(self).iter.fin()[n as int] == with_value(old(self).iter.rest()[n as int], *final(x.1)) && took(old(self).iter.fin(), final(self).iter.fin(), n as int)
@sub Option < Self :: Item > ==> Option<(&'a K, &'a mut V)>
@fn size_hint id=IterMut::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=IterMut::count
    ensures r == self.iter.rest().len()
@fn last id=IterMut::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x.0 == self.iter.rest().last().key && *x.1 == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(&'a K, &'a mut V)>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@endimpl
@impl impl<K, V> DoubleEndedIterator for IterMut<'_, K, V> => impl<'a, K, V> IterMut<'a, K, V>
@fn next_back id=IterMut::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x.0 == old(self).iter.rest().last().key && *x.1 == old(self).iter.rest().last().value && old(self).iter.fin()[old(self).iter.rest().len() - 1] == with_value(old(self).iter.rest()[old(self).iter.rest().len() - 1], *final(x.1)) && took_back(old(self).iter.fin(), final(self).iter.fin(), 0)
@sub Option < Self :: Item > ==> Option<(&'a K, &'a mut V)>
@fn nth_back id=IterMut::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x.0 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key && *x.1 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value && old(self).iter.fin()[old(self).iter.rest().len() - 1 - n] == with_value(old(self).iter.rest()[old(self).iter.rest().len() - 1 - n], *final(x.1)) && took_back(old(self).iter.fin(), final(self).iter.fin(), n as int)
@sub Option < Self :: Item > ==> Option<(&'a K, &'a mut V)>
@endimpl
@impl impl<K, V> ExactSizeIterator for IterMut<'_, K, V> => impl<'a, K, V> IterMut<'a, K, V>
@fn len id=IterMut::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Default for IterMut<'_, K, V> => impl<'a, K, V> IterMut<'a, K, V>
@fn default id=IterMut::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter_mut ( ) ==> MIter::none()
@endimpl
@file rubymap/src/map/iter.rs
@item struct IntoIter
@sub vec :: IntoIter < ==> VIter <
@impl impl<K, V> IntoIter<K, V> => impl<K, V> IntoIter<K, V>
@fn new id=IntoIter::new
    ensures r.iter.rest() == entries@
@sub entries . into_iter ( ) ==> VIter::over(entries)
@fn as_slice id=IntoIter::as_slice
    ensures r.es() == self.iter.rest()
@fn as_mut_slice id=IntoIter::as_mut_slice
    ensures r.es() == old(self).iter.rest(), final(r).es() == final(self).iter.rest()
@endimpl
@impl impl<K, V> Iterator for IntoIter<K, V> => impl<K, V> IntoIter<K, V>
@fn next id=IntoIter::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x.0 == old(self).iter.rest()[0].key && x.1 == old(self).iter.rest()[0].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn nth id=IntoIter::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x.0 == old(self).iter.rest()[n as int].key && x.1 == old(self).iter.rest()[n as int].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn size_hint id=IntoIter::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=IntoIter::count
    ensures r == self.iter.rest().len()
@fn last id=IntoIter::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x.0 == self.iter.rest().last().key && x.1 == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(K, V)>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=IntoIter::collect
    ensures exists|s: Seq<(K, V)>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i].0 == (#[trigger] self.iter.rest()[i]).key && s[i].1 == (#[trigger] self.iter.rest()[i]).value
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for IntoIter<K, V> => impl<K, V> IntoIter<K, V>
@fn next_back id=IntoIter::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x.0 == old(self).iter.rest().last().key && x.1 == old(self).iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn nth_back id=IntoIter::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x.0 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key && x.1 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@endimpl
@impl impl<K, V> ExactSizeIterator for IntoIter<K, V> => impl<K, V> IntoIter<K, V>
@fn len id=IntoIter::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Default for IntoIter<K, V> => impl<K, V> IntoIter<K, V>
@fn default id=IntoIter::default
    ensures r.iter.rest().len() == 0
@sub Vec :: new ( ) . into_iter ( ) ==> VIter::over(Vec::new())
@endimpl
@file rubymap/src/map/iter.rs
@item struct Drain
@sub vec :: Drain < ==> DIter <
@impl impl<'a, K, V> Drain<'a, K, V> => impl<'a, K, V> Drain<'a, K, V>
@fn new id=Drain::new
    ensures r.iter.rest() == iter.rest()
@sub vec :: Drain < ==> DIter <
@fn as_slice id=Drain::as_slice
    ensures r.es() == self.iter.rest()
@endimpl
@impl impl<K, V> Iterator for Drain<'_, K, V> => impl<'a, K, V> Drain<'a, K, V>
@fn next id=Drain::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x.0 == old(self).iter.rest()[0].key && x.1 == old(self).iter.rest()[0].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn nth id=Drain::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x.0 == old(self).iter.rest()[n as int].key && x.1 == old(self).iter.rest()[n as int].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn size_hint id=Drain::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=Drain::count
    ensures r == self.iter.rest().len()
@fn last id=Drain::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x.0 == self.iter.rest().last().key && x.1 == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(K, V)>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=Drain::collect
    ensures exists|s: Seq<(K, V)>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i].0 == (#[trigger] self.iter.rest()[i]).key && s[i].1 == (#[trigger] self.iter.rest()[i]).value
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for Drain<'_, K, V> => impl<'a, K, V> Drain<'a, K, V>
@fn next_back id=Drain::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x.0 == old(self).iter.rest().last().key && x.1 == old(self).iter.rest().last().value
@sub Option < Self :: Item > ==> Option<(K, V)>
@fn nth_back id=Drain::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x.0 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key && x.1 == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value
@sub Option < Self :: Item > ==> Option<(K, V)>
@endimpl
@impl impl<K, V> ExactSizeIterator for Drain<'_, K, V> => impl<'a, K, V> Drain<'a, K, V>
@fn len id=Drain::len
    ensures r == self.iter.rest().len()
@endimpl
@file rubymap/src/map/iter.rs
@item struct Keys
@sub slice :: Iter < ==> SIter <
@impl impl<'a, K, V> Keys<'a, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn new id=Keys::new
    ensures r.iter.rest() == entries@
@sub entries . iter ( ) ==> SIter::over(entries)
@endimpl
@impl impl<'a, K, V> Iterator for Keys<'a, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn next id=Keys::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest()[0].key
@sub Option < Self :: Item > ==> Option<&'a K>
@fn nth id=Keys::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[n as int].key
@sub Option < Self :: Item > ==> Option<&'a K>
@fn size_hint id=Keys::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=Keys::count
    ensures r == self.iter.rest().len()
@fn last id=Keys::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x == self.iter.rest().last().key
@sub Option < Self :: Item > ==> Option<&'a K>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=Keys::collect
    ensures exists|s: Seq<&'a K>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> *s[i] == (#[trigger] self.iter.rest()[i]).key
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for Keys<'_, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn next_back id=Keys::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest().last().key
@sub Option < Self :: Item > ==> Option<&'a K>
@fn nth_back id=Keys::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key
@sub Option < Self :: Item > ==> Option<&'a K>
@endimpl
@impl impl<K, V> ExactSizeIterator for Keys<'_, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn len id=Keys::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Clone for Keys<'_, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn clone id=Keys::clone
    ensures r.iter.rest() == self.iter.rest()
@endimpl
@impl impl<K, V> Default for Keys<'_, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn default id=Keys::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter ( ) ==> SIter::none()
@endimpl
@impl impl<K, V> Index<usize> for Keys<'_, K, V> => impl<'a, K, V> Keys<'a, K, V>
@fn index id=Keys::index
    requires index < self.iter.rest().len()
    ensures *r == self.iter.rest()[index as int].key
@endimpl
@file rubymap/src/map/iter.rs
@item struct IntoKeys
@sub vec :: IntoIter < ==> VIter <
@impl impl<K, V> IntoKeys<K, V> => impl<K, V> IntoKeys<K, V>
@fn new id=IntoKeys::new
    ensures r.iter.rest() == entries@
@sub entries . into_iter ( ) ==> VIter::over(entries)
@endimpl
@impl impl<K, V> Iterator for IntoKeys<K, V> => impl<K, V> IntoKeys<K, V>
@fn next id=IntoKeys::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest()[0].key
@sub Option < Self :: Item > ==> Option<K>
@fn nth id=IntoKeys::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[n as int].key
@sub Option < Self :: Item > ==> Option<K>
@fn size_hint id=IntoKeys::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=IntoKeys::count
    ensures r == self.iter.rest().len()
@fn last id=IntoKeys::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x == self.iter.rest().last().key
@sub Option < Self :: Item > ==> Option<K>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=IntoKeys::collect
    ensures exists|s: Seq<K>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] self.iter.rest()[i]).key
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for IntoKeys<K, V> => impl<K, V> IntoKeys<K, V>
@fn next_back id=IntoKeys::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest().last().key
@sub Option < Self :: Item > ==> Option<K>
@fn nth_back id=IntoKeys::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key
@sub Option < Self :: Item > ==> Option<K>
@endimpl
@impl impl<K, V> ExactSizeIterator for IntoKeys<K, V> => impl<K, V> IntoKeys<K, V>
@fn len id=IntoKeys::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Default for IntoKeys<K, V> => impl<K, V> IntoKeys<K, V>
@fn default id=IntoKeys::default
    ensures r.iter.rest().len() == 0
@sub Vec :: new ( ) . into_iter ( ) ==> VIter::over(Vec::new())
@endimpl
@file rubymap/src/map/iter.rs
@item struct Values
@sub slice :: Iter < ==> SIter <
@impl impl<'a, K, V> Values<'a, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn new id=Values::new
    ensures r.iter.rest() == entries@
@sub entries . iter ( ) ==> SIter::over(entries)
@endimpl
@impl impl<'a, K, V> Iterator for Values<'a, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn next id=Values::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest()[0].value
@sub Option < Self :: Item > ==> Option<&'a V>
@fn nth id=Values::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[n as int].value
@sub Option < Self :: Item > ==> Option<&'a V>
@fn size_hint id=Values::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=Values::count
    ensures r == self.iter.rest().len()
@fn last id=Values::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<&'a V>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=Values::collect
    ensures exists|s: Seq<&'a V>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> *s[i] == (#[trigger] self.iter.rest()[i]).value
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for Values<'_, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn next_back id=Values::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest().last().value
@sub Option < Self :: Item > ==> Option<&'a V>
@fn nth_back id=Values::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value
@sub Option < Self :: Item > ==> Option<&'a V>
@endimpl
@impl impl<K, V> ExactSizeIterator for Values<'_, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn len id=Values::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Clone for Values<'_, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn clone id=Values::clone
    ensures r.iter.rest() == self.iter.rest()
@endimpl
@impl impl<K, V> Default for Values<'_, K, V> => impl<'a, K, V> Values<'a, K, V>
@fn default id=Values::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter ( ) ==> SIter::none()
@endimpl
@file rubymap/src/map/iter.rs
@item struct ValuesMut
@sub slice :: IterMut < ==> MIter <
@impl impl<'a, K, V> ValuesMut<'a, K, V> => impl<'a, K, V> ValuesMut<'a, K, V>
@fn new id=ValuesMut::new
    ensures r.iter.rest() == old(entries)@, r.iter.fin() == final(entries)@
@sub entries . iter_mut ( ) ==> MIter::over(entries)
@endimpl
@impl impl<'a, K, V> Iterator for ValuesMut<'a, K, V> => impl<'a, K, V> ValuesMut<'a, K, V>
@fn next id=ValuesMut::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest()[0].value && old(self).iter.fin()[0] == with_value(old(self).iter.rest()[0], *final(x)) && took(old(self).iter.fin(), final(self).iter.fin(), 0)
@sub Option < Self :: Item > ==> Option<&'a mut V>
@fn nth id=ValuesMut::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[n as int].value && old(self).iter.fin()[n as int] == with_value(old(self).iter.rest()[n as int], *final(x)) && took(old(self).iter.fin(), final(self).iter.fin(), n as int)
@sub Option < Self :: Item > ==> Option<&'a mut V>
@fn size_hint id=ValuesMut::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=ValuesMut::count
    ensures r == self.iter.rest().len()
@fn last id=ValuesMut::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<&'a mut V>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@endimpl
@impl impl<K, V> DoubleEndedIterator for ValuesMut<'_, K, V> => impl<'a, K, V> ValuesMut<'a, K, V>
@fn next_back id=ValuesMut::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest().last().value && old(self).iter.fin()[old(self).iter.rest().len() - 1] == with_value(old(self).iter.rest()[old(self).iter.rest().len() - 1], *final(x)) && took_back(old(self).iter.fin(), final(self).iter.fin(), 0)
@sub Option < Self :: Item > ==> Option<&'a mut V>
@fn nth_back id=ValuesMut::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value && old(self).iter.fin()[old(self).iter.rest().len() - 1 - n] == with_value(old(self).iter.rest()[old(self).iter.rest().len() - 1 - n], *final(x)) && took_back(old(self).iter.fin(), final(self).iter.fin(), n as int)
@sub Option < Self :: Item > ==> Option<&'a mut V>
@endimpl
@impl impl<K, V> ExactSizeIterator for ValuesMut<'_, K, V> => impl<'a, K, V> ValuesMut<'a, K, V>
@fn len id=ValuesMut::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Default for ValuesMut<'_, K, V> => impl<'a, K, V> ValuesMut<'a, K, V>
@fn default id=ValuesMut::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter_mut ( ) ==> MIter::none()
@endimpl
@file rubymap/src/map/iter.rs
@item struct IntoValues
@sub vec :: IntoIter < ==> VIter <
@impl impl<K, V> IntoValues<K, V> => impl<K, V> IntoValues<K, V>
@fn new id=IntoValues::new
    ensures r.iter.rest() == entries@
@sub entries . into_iter ( ) ==> VIter::over(entries)
@endimpl
@impl impl<K, V> Iterator for IntoValues<K, V> => impl<K, V> IntoValues<K, V>
@fn next id=IntoValues::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest()[0].value
@sub Option < Self :: Item > ==> Option<V>
@fn nth id=IntoValues::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[n as int].value
@sub Option < Self :: Item > ==> Option<V>
@fn size_hint id=IntoValues::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=IntoValues::count
    ensures r == self.iter.rest().len()
@fn last id=IntoValues::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x == self.iter.rest().last().value
@sub Option < Self :: Item > ==> Option<V>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=IntoValues::collect
    ensures exists|s: Seq<V>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] self.iter.rest()[i]).value
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<K, V> DoubleEndedIterator for IntoValues<K, V> => impl<K, V> IntoValues<K, V>
@fn next_back id=IntoValues::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest().last().value
@sub Option < Self :: Item > ==> Option<V>
@fn nth_back id=IntoValues::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].value
@sub Option < Self :: Item > ==> Option<V>
@endimpl
@impl impl<K, V> ExactSizeIterator for IntoValues<K, V> => impl<K, V> IntoValues<K, V>
@fn len id=IntoValues::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<K, V> Default for IntoValues<K, V> => impl<K, V> IntoValues<K, V>
@fn default id=IntoValues::default
    ensures r.iter.rest().len() == 0
@sub Vec :: new ( ) . into_iter ( ) ==> VIter::over(Vec::new())
@endimpl
@file rubymap/src/set/iter.rs
@item struct Iter
@sub SliceIter < ==> SIter <
@sub Bucket < T >> ==> Bucket<T, ()>>
@sub struct Iter ==> struct SetIter
@impl impl<'a, T> Iter<'a, T> => impl<'a, T> SetIter<'a, T>
@fn new id=SetIter::new
    ensures r.iter.rest() == entries@
@sub entries . iter ( ) ==> SIter::over(entries)
@sub Bucket < T > ==> Bucket<T, ()>
@endimpl
@impl impl<'a, T> Iterator for Iter<'a, T> => impl<'a, T> SetIter<'a, T>
@fn next id=SetIter::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest()[0].key
@sub Option < Self :: Item > ==> Option<&'a T>
@fn nth id=SetIter::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[n as int].key
@sub Option < Self :: Item > ==> Option<&'a T>
@fn size_hint id=SetIter::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=SetIter::count
    ensures r == self.iter.rest().len()
@fn last id=SetIter::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> *x == self.iter.rest().last().key
@sub Option < Self :: Item > ==> Option<&'a T>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=SetIter::collect
    ensures exists|s: Seq<&'a T>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> *s[i] == (#[trigger] self.iter.rest()[i]).key
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<T> DoubleEndedIterator for Iter<'_, T> => impl<'a, T> SetIter<'a, T>
@fn next_back id=SetIter::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> *x == old(self).iter.rest().last().key
@sub Option < Self :: Item > ==> Option<&'a T>
@fn nth_back id=SetIter::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> *x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key
@sub Option < Self :: Item > ==> Option<&'a T>
@endimpl
@impl impl<T> ExactSizeIterator for Iter<'_, T> => impl<'a, T> SetIter<'a, T>
@fn len id=SetIter::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<T> Clone for Iter<'_, T> => impl<'a, T> SetIter<'a, T>
@fn clone id=SetIter::clone
    ensures r.iter.rest() == self.iter.rest()
@sub Iter { ==> SetIter {
@endimpl
@impl impl<T> Default for Iter<'_, T> => impl<'a, T> SetIter<'a, T>
@fn default id=SetIter::default
    ensures r.iter.rest().len() == 0
@sub [ ] . iter ( ) ==> SIter::none()
@endimpl
@file rubymap/src/set/iter.rs
@item struct IntoIter
@sub vec :: IntoIter < ==> VIter <
@sub Bucket < T >> ==> Bucket<T, ()>>
@sub struct IntoIter ==> struct SetIntoIter
@impl impl<T> IntoIter<T> => impl<T> SetIntoIter<T>
@fn new id=SetIntoIter::new
    ensures r.iter.rest() == entries@
@sub entries . into_iter ( ) ==> VIter::over(entries)
@sub Bucket < T >> ==> Bucket<T, ()>>
@endimpl
@impl impl<T> Iterator for IntoIter<T> => impl<T> SetIntoIter<T>
@fn next id=SetIntoIter::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest()[0].key
@sub Option < Self :: Item > ==> Option<T>
@fn nth id=SetIntoIter::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[n as int].key
@sub Option < Self :: Item > ==> Option<T>
@fn size_hint id=SetIntoIter::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=SetIntoIter::count
    ensures r == self.iter.rest().len()
@fn last id=SetIntoIter::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x == self.iter.rest().last().key
@sub Option < Self :: Item > ==> Option<T>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=SetIntoIter::collect
    ensures exists|s: Seq<T>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] self.iter.rest()[i]).key
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<T> DoubleEndedIterator for IntoIter<T> => impl<T> SetIntoIter<T>
@fn next_back id=SetIntoIter::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest().last().key
@sub Option < Self :: Item > ==> Option<T>
@fn nth_back id=SetIntoIter::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key
@sub Option < Self :: Item > ==> Option<T>
@endimpl
@impl impl<T> ExactSizeIterator for IntoIter<T> => impl<T> SetIntoIter<T>
@fn len id=SetIntoIter::len
    ensures r == self.iter.rest().len()
@endimpl
@impl impl<T> Default for IntoIter<T> => impl<T> SetIntoIter<T>
@fn default id=SetIntoIter::default
    ensures r.iter.rest().len() == 0
@sub Vec :: new ( ) . into_iter ( ) ==> VIter::over(Vec::new())
@endimpl
@file rubymap/src/set/iter.rs
@item struct Drain
@sub vec :: Drain < ==> DIter <
@sub Bucket < T >> ==> Bucket<T, ()>>
@sub struct Drain ==> struct SetDrain
@impl impl<'a, T> Drain<'a, T> => impl<'a, T> SetDrain<'a, T>
@fn new id=SetDrain::new
    ensures r.iter.rest() == iter.rest()
@sub vec :: Drain < ==> DIter <
@sub Bucket < T >> ==> Bucket<T, ()>>
@fn as_slice id=SetDrain::as_slice
    ensures r.es() == self.iter.rest()
@sub -> & Slice < T > ==> -> &SetSlice<T>
@sub Slice :: from_slice ==> SetSlice::from_slice
@endimpl
@impl impl<T> Iterator for Drain<'_, T> => impl<'a, T> SetDrain<'a, T>
@fn next id=SetDrain::next
    ensures took(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest()[0].key
@sub Option < Self :: Item > ==> Option<T>
@fn nth id=SetDrain::nth
    ensures took(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[n as int].key
@sub Option < Self :: Item > ==> Option<T>
@fn size_hint id=SetDrain::size_hint
    ensures r.0 == self.iter.rest().len(), r.1 == Some(r.0)
@fn count id=SetDrain::count
    ensures r == self.iter.rest().len()
@fn last id=SetDrain::last
    ensures r is Some == (self.iter.rest().len() > 0), r matches Some(x) ==> x == self.iter.rest().last().key
@sub Option < Self :: Item > ==> Option<T>
@sub last ( mut self ) ==> last(self)
@optsub self . next_back ==> self_.next_back
@optsub self . next ==> self_.next
@enter
    let mut self_ = self;
@fn collect id=SetDrain::collect
    ensures exists|s: Seq<T>| #[trigger] made(r, s) && s.len() == self.iter.rest().len() && forall|i: int| 0 <= i < s.len() ==> s[i] == (#[trigger] self.iter.rest()[i]).key
@sub where C : FromIterator < Self :: Item > ==> where C: Sized
@sub self . iter . map ( $f ) . collect ( ) ==> self.iter.collected($f)
@endimpl
@impl impl<T> DoubleEndedIterator for Drain<'_, T> => impl<'a, T> SetDrain<'a, T>
@fn next_back id=SetDrain::next_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), 0), r is Some == (old(self).iter.rest().len() > 0), r matches Some(x) ==> x == old(self).iter.rest().last().key
@sub Option < Self :: Item > ==> Option<T>
@fn nth_back id=SetDrain::nth_back
    ensures took_back(old(self).iter.rest(), final(self).iter.rest(), n as int), r is Some == (n < old(self).iter.rest().len()), r matches Some(x) ==> x == old(self).iter.rest()[old(self).iter.rest().len() - 1 - n].key
@sub Option < Self :: Item > ==> Option<T>
@endimpl
@impl impl<T> ExactSizeIterator for Drain<'_, T> => impl<'a, T> SetDrain<'a, T>
@fn len id=SetDrain::len
    ensures r == self.iter.rest().len()
@endimpl
@file rubymap/src/map.rs
@impl impl<K, V, E, G, R, S> RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn iter id=Map::iter
    ensures r.iter.rest() == self.es()
@fn keys id=Map::keys
    ensures r.iter.rest() == self.es()
@fn values id=Map::values
    ensures r.iter.rest() == self.es()
@fn iter_mut id=Map::iter_mut
    ensures r.iter.rest() == old(self).es(), r.iter.fin() == final(self).es()
@fn values_mut id=Map::values_mut
    ensures r.iter.rest() == old(self).es(), r.iter.fin() == final(self).es()
@fn into_keys id=Map::into_keys
    ensures r.iter.rest() == self.es()
@fn into_values id=Map::into_values
    ensures r.iter.rest() == self.es()
@endimpl
@file rubymap/src/map/slice.rs
@impl impl<K, V> Slice<K, V>
@fn iter id=Slice::iter
    ensures r.iter.rest() == self.es()
@fn keys id=Slice::keys
    ensures r.iter.rest() == self.es()
@fn values id=Slice::values
    ensures r.iter.rest() == self.es()
@fn iter_mut id=Slice::iter_mut
    ensures r.iter.rest() == old(self).es(), r.iter.fin() == final(self).es()
@fn values_mut id=Slice::values_mut
    ensures r.iter.rest() == old(self).es(), r.iter.fin() == final(self).es()
@endimpl
@file rubymap/src/set/slice.rs
@impl impl<T> Slice<T> => impl<T> SetSlice<T>
@fn iter id=SetSlice::iter
    ensures r.iter.rest() == self.es()
@sub Iter < '_ , T > ==> SetIter<'_, T>
@sub Iter :: new ==> SetIter::new
@endimpl
@verbatim
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RubySet<T> { p: core::marker::PhantomData<T> }
impl<T> RubySet<T> {
    pub uninterp spec fn es(&self) -> Seq<Bucket<T, ()>>;
    #[verifier::external_body]
    pub fn as_entries(&self) -> (r: &[Bucket<T, ()>]) ensures r@ == self.es() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_entries(self) -> (r: Vec<Bucket<T, ()>>) ensures r@ == self.es() { unimplemented!() }
}
@end
@file rubymap/src/set.rs
@impl impl<T, E, G, R, S> RubySet<T, E, G, R, S> => impl<T> RubySet<T>
@fn as_slice id=Set::as_slice
    ensures r.es() == self.es()
@sub & Slice < T > ==> &SetSlice<T>
@sub Slice :: from_slice ==> SetSlice::from_slice
@fn get_range id=Set::get_range
    ensures r is Some == in_range(range, self.es().len() as usize), r matches Some(s) ==> s.es() =~= self.es().subrange(first(range), past(range, self.es().len() as usize))
@sub & Slice < ==> &SetSlice<
@sub Slice :: from_slice ==> SetSlice::from_slice
@fn binary_search id=Set::binary_search
    ensures searched(self.es(), r, keyed_against::<T, ()>(*x))
@sub T : Ord ==> T: Ranked
@fn binary_search_by id=Set::binary_search_by
    requires forall|k: &T| #[trigger] f.requires((k,))
    ensures forall|c: spec_fn(T) -> Ordering| #[trigger] gives(f, c) ==> searched(self.es(), r, on_key(c))
@sub FnMut ( & 'a T ) -> Ordering ==> Fn(&T) -> Ordering + Copy
@fn binary_search_by_key id=Set::binary_search_by_key
    requires forall|k: &T| #[trigger] f.requires((k,))
    ensures forall|c: spec_fn(T) -> B| #[trigger] gives(f, c) ==> searched(self.es(), r, made_against(on_key(c), *b))
@sub B : Ord ==> B: Ranked
@sub FnMut ( & 'a T ) -> B ==> Fn(&T) -> B + Copy
@fn partition_point id=Set::partition_point
    requires forall|k: &T| #[trigger] pred.requires((k,))
    ensures forall|c: spec_fn(T) -> bool| #[trigger] gives(pred, c) ==> parted(self.es(), r as int, on_key(c))
@sub P : FnMut ( & T ) -> bool ==> P: Fn(&T) -> bool + Copy
@fn iter id=Set::iter
    ensures r.iter.rest() == self.es()
@sub Iter < '_ , T > ==> SetIter<'_, T>
@sub Iter :: new ==> SetIter::new
@endimpl
@file rubymap/src/map/iter.rs
@impl impl<'a, K, V, E, G, R, S> IntoIterator for &'a RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn into_iter id=&Map::into_iter
    ensures r.iter.rest() == self.es()
@sub into_iter ( self ) -> Self :: IntoIter ==> into_iter_ref(&self) -> Iter<'_, K, V>
@endimpl
@impl impl<'a, K, V, E, G, R, S> IntoIterator for &'a mut RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn into_iter id=&mutMap::into_iter
    ensures r.iter.rest() == old(self).es(), r.iter.fin() == final(self).es()
@sub into_iter ( self ) -> Self :: IntoIter ==> into_iter_mut(&mut self) -> IterMut<'_, K, V>
@endimpl
@impl impl<K, V, E, G, R, S> IntoIterator for RubyMap<K, V, E, G, R, S> => impl<K, V> RubyMap<K, V>
@fn into_iter id=Map::into_iter
    ensures r.iter.rest() == self.es()
@sub -> Self :: IntoIter ==> -> IntoIter<K, V>
@endimpl
@file rubymap/src/set/iter.rs
@impl impl<'a, T, E, G, R, S> IntoIterator for &'a RubySet<T, E, G, R, S> => impl<T> RubySet<T>
@fn into_iter id=&Set::into_iter
    ensures r.iter.rest() == self.es()
@sub into_iter ( self ) -> Self :: IntoIter ==> into_iter_ref(&self) -> SetIter<'_, T>
@endimpl
@impl impl<T, E, G, R, S> IntoIterator for RubySet<T, E, G, R, S> => impl<T> RubySet<T>
@fn into_iter id=Set::into_iter
    ensures r.iter.rest() == self.es()
@sub -> Self :: IntoIter ==> -> SetIntoIter<T>
@sub IntoIter :: new ==> SetIntoIter::new
@endimpl
