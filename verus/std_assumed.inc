// Assumed contracts for std functions that vstd does not specify.
@verbatim
use vstd::std_specs::cmp::*;
use core::mem;

pub uninterp spec fn vec_cap<T>(v: Vec<T>) -> nat;

pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures r >= v@.len();

pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::reserve_exact ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;

pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::shrink_to ](v: &mut Vec<T, A>, n: usize)
    ensures final(v)@ == old(v)@;

pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };

pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub mod fl { use vstd::prelude::*;
pub open spec fn filter_by<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if keep[s.len() - 1] { filter_by(s.drop_last(), keep).push(s.last()) }
    else { filter_by(s.drop_last(), keep) }
}
/// the element at `from` taken out and put back at `to`
pub open spec fn moved_seq<T>(s: Seq<T>, from: int, to: int) -> Seq<T> { s.remove(from).insert(to, s[from]) }
}
pub use fl::*;
pub open spec fn keeps<T, F: FnMut(&T) -> bool>(s: Seq<T>, keep: Seq<bool>, f: F) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), keep[i])
}
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut(&T) -> bool>[ Vec::<T, A>::retain ](v: &mut Vec<T, A>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],)),
    ensures exists|keep: Seq<bool>| #[trigger] keeps(old(v)@, keep, f) && final(v)@ == filter_by(old(v)@, keep);

#[verifier::prophetic]
pub open spec fn keeps_mut<T, F: FnMut(&mut T) -> bool>(s: Seq<T>, t: Seq<T>, keep: Seq<bool>, f: F) -> bool {
    &&& t.len() == s.len() && keep.len() == s.len()
    &&& forall|k: int| #![trigger t[k]] #![trigger s[k]] 0 <= k < s.len() ==> exists|m: &mut T| *m == s[k] && *final(m) == t[k] && #[trigger] f.ensures((m,), keep[k])
}
pub assume_specification<T, A: core::alloc::Allocator, F: FnMut(&mut T) -> bool>[ Vec::<T, A>::retain_mut ](v: &mut Vec<T, A>, f: F)
    requires forall|m: &mut T, k: int| 0 <= k < old(v)@.len() && *m == (#[trigger] old(v)@[k]) ==> #[trigger] f.requires((m,))
    ensures exists|t: Seq<T>, keep: Seq<bool>| #[trigger] keeps_mut(old(v)@, t, keep, f) && final(v)@ == filter_by(t, keep);

/// v[a..=b].rotate_left(k) and v[a..=b].rotate_right(k)
#[verifier::external_body]
pub fn vrotl_<T>(v: &mut Vec<T>, a: usize, b: usize, k: usize)
    requires a <= b < old(v)@.len(), k <= b + 1 - a
    ensures final(v)@ == old(v)@.subrange(0, a as int) + old(v)@.subrange(a + k, b + 1) + old(v)@.subrange(a as int, a + k) + old(v)@.subrange(b + 1, old(v)@.len() as int)
{ v[a..=b].rotate_left(k) }
#[verifier::external_body]
pub fn vrotr_<T>(v: &mut Vec<T>, a: usize, b: usize, k: usize)
    requires a <= b < old(v)@.len(), k <= b + 1 - a
    ensures final(v)@ == old(v)@.subrange(0, a as int) + old(v)@.subrange(b + 1 - k, b + 1) + old(v)@.subrange(a as int, b + 1 - k) + old(v)@.subrange(b + 1, old(v)@.len() as int)
{ v[a..=b].rotate_right(k) }
pub fn vrotl<T>(v: &mut Vec<T>, a: usize, b: usize, k: usize)
    requires a <= b < old(v)@.len(), k <= b + 1 - a
    ensures k == 1 ==> final(v)@ == moved_seq(old(v)@, a as int, b as int)
{ vrotl_(v, a, b, k); assert(k == 1 ==> v@ =~= moved_seq(old(v)@, a as int, b as int)); }
pub fn vrotr<T>(v: &mut Vec<T>, a: usize, b: usize, k: usize)
    requires a <= b < old(v)@.len(), k <= b + 1 - a
    ensures k == 1 ==> final(v)@ == moved_seq(old(v)@, b as int, a as int)
{ vrotr_(v, a, b, k); assert(k == 1 ==> v@ =~= moved_seq(old(v)@, b as int, a as int)); }
@end
@include base.inc
