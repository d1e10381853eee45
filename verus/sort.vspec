// Merge sort of arrays: monoruby/src/executor/op/sort.rs
@include base.inc
@verbatim
#[derive(Clone, Copy)]
pub struct Value(pub u64);
pub struct MonorubyErr(pub u64);
pub type Result<T> = core::result::Result<T, MonorubyErr>;

/// a comparison: whether its answers are those of `lt`
pub struct Order { pub honest: bool, pub lt: spec_fn(Value, Value) -> bool }
pub trait Less {
    spec fn order(&self) -> Order;
    /// the error raised, if any: nothing is asked after that
    spec fn raised(&self) -> Option<MonorubyErr>;
    fn call(&mut self, a: Value, b: Value) -> (r: Result<bool>)
        requires old(self).raised() is None
        ensures final(self).order() == old(self).order(),
            match r {
                Ok(x) => final(self).raised() is None && (old(self).order().honest ==> x == (old(self).order().lt)(a, b)),
                Err(e) => final(self).raised() == Some(e),
            };
}
pub open spec fn quiet(r: Result<()>, raised: Option<MonorubyErr>) -> bool { match r { Ok(_) => raised is None, Err(e) => raised == Some(e) } }
/// a strict weak order
pub open spec fn swo(lt: spec_fn(Value, Value) -> bool) -> bool {
    &&& forall|a: Value, b: Value| #[trigger] lt(a, b) ==> !lt(b, a)
    &&& forall|a: Value, b: Value, c: Value| #[trigger] lt(a, c) ==> lt(a, b) || #[trigger] lt(b, c)
}
pub open spec fn good(o: Order) -> bool { o.honest && swo(o.lt) }
pub open spec fn le(o: Order, a: Value, b: Value) -> bool { !(o.lt)(b, a) }
pub open spec fn eqv(o: Order, a: Value, b: Value) -> bool { !(o.lt)(a, b) && !(o.lt)(b, a) }
pub open spec fn sorted(o: Order, s: Seq<Value>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> le(o, #[trigger] s[i], #[trigger] s[j]) }
/// every element of a comes before every element of b
pub open spec fn below(o: Order, a: Seq<Value>, b: Seq<Value>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> le(o, #[trigger] a[i], #[trigger] b[j]) }
/// the elements of s that compare equal to x, in order
pub open spec fn class(o: Order, s: Seq<Value>, x: Value) -> Seq<Value>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if eqv(o, x, s.last()) { class(o, s.drop_last(), x).push(s.last()) } else { class(o, s.drop_last(), x) } }
/// the same elements, those that compare equal in the same order
pub open spec fn stable(o: Order, a: Seq<Value>, b: Seq<Value>) -> bool {
    a.len() == b.len() && a.to_multiset() == b.to_multiset() && (good(o) ==> forall|x: Value| #[trigger] class(o, a, x) == class(o, b, x))
}
pub proof fn class_add(o: Order, a: Seq<Value>, b: Seq<Value>, x: Value)
    ensures class(o, a + b, x) == class(o, a, x) + class(o, b, x)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(class(o, a, x) + class(o, b, x) =~= class(o, a, x)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        class_add(o, a, b.drop_last(), x);
        assert(class(o, a + b, x) =~= class(o, a, x) + class(o, b, x));
    }
}
pub proof fn class_none(o: Order, a: Seq<Value>, x: Value)
    requires forall|i: int| 0 <= i < a.len() ==> !eqv(o, x, #[trigger] a[i])
    ensures class(o, a, x) == Seq::<Value>::empty()
    decreases a.len()
{ if a.len() > 0 { assert(!eqv(o, x, a.last())); assert forall|i: int| 0 <= i < a.drop_last().len() implies !eqv(o, x, #[trigger] a.drop_last()[i]) by { assert(a.drop_last()[i] == a[i]); }; class_none(o, a.drop_last(), x); } }
pub proof fn stable_refl(o: Order, a: Seq<Value>) ensures stable(o, a, a) {}
pub proof fn stable_trans(o: Order, a: Seq<Value>, b: Seq<Value>, c: Seq<Value>) requires stable(o, a, b), stable(o, b, c) ensures stable(o, a, c)
{ if good(o) { assert forall|x: Value| #[trigger] class(o, a, x) == class(o, c, x) by { assert(class(o, a, x) == class(o, b, x)); }; } }
/// congruence: rearranging a part
pub proof fn stable_part(o: Order, p: Seq<Value>, a: Seq<Value>, b: Seq<Value>, q: Seq<Value>)
    requires stable(o, a, b)
    ensures stable(o, p + a + q, p + b + q)
{
    bag_add(p, a); bag_add(p + a, q); bag_add(p, b); bag_add(p + b, q);
    if good(o) {
        assert forall|x: Value| #[trigger] class(o, p + a + q, x) == class(o, p + b + q, x) by {
            class_add(o, p, a, x); class_add(o, p + a, q, x); class_add(o, p, b, x); class_add(o, p + b, q, x);
            assert(class(o, a, x) == class(o, b, x));
        };
    }
}
pub proof fn bag_add(a: Seq<Value>, b: Seq<Value>) ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset())
{ vstd::seq_lib::lemma_multiset_commutative(a, b); }
/// an element moved past elements that do not compare equal to it
pub proof fn stable_shift(o: Order, p: Seq<Value>, l: Seq<Value>, r: Value, q: Seq<Value>)
    requires good(o) ==> forall|i: int| 0 <= i < l.len() ==> !eqv(o, r, #[trigger] l[i])
    ensures stable(o, p + l + seq![r] + q, p + seq![r] + l + q), stable(o, p + seq![r] + l + q, p + l + seq![r] + q)
{
    let s = seq![r];
    bag_add(l, s); bag_add(s, l);
    assert((l + s).to_multiset() =~= (s + l).to_multiset());
    if good(o) {
        assert forall|x: Value| #[trigger] class(o, l + s, x) == class(o, s + l, x) by {
            class_add(o, l, s, x); class_add(o, s, l, x);
            if eqv(o, x, r) {
                assert forall|i: int| 0 <= i < l.len() implies !eqv(o, x, #[trigger] l[i]) by { eqv_trans(o, x, r, l[i]); };
                class_none(o, l, x);
                assert(class(o, l, x) + class(o, s, x) =~= class(o, s, x) + class(o, l, x));
            } else {
                assert forall|i: int| 0 <= i < s.len() implies !eqv(o, x, #[trigger] s[i]) by {};
                class_none(o, s, x);
                assert(class(o, l, x) + class(o, s, x) =~= class(o, s, x) + class(o, l, x));
            }
        };
    }
    assert(stable(o, l + s, s + l));
    assert(stable(o, s + l, l + s)) by { if good(o) { assert forall|x: Value| #[trigger] class(o, s + l, x) == class(o, l + s, x) by { assert(class(o, l + s, x) == class(o, s + l, x)); }; } }
    stable_part(o, p, l + s, s + l, q);
    stable_part(o, p, s + l, l + s, q);
    assert(p + (l + s) + q =~= p + l + s + q);
    assert(p + (s + l) + q =~= p + s + l + q);
}
pub proof fn eqv_trans(o: Order, x: Value, r: Value, y: Value)
    requires good(o)
    ensures eqv(o, x, r) && eqv(o, x, y) ==> eqv(o, r, y), eqv(o, x, r) && eqv(o, r, y) ==> eqv(o, x, y)
{
    let lt = o.lt;
    if eqv(o, x, r) && eqv(o, x, y) {
        if lt(r, y) { assert(lt(r, x) || lt(x, y)); }
        if lt(y, r) { assert(lt(y, x) || lt(x, r)); }
    }
    if eqv(o, x, r) && eqv(o, r, y) {
        if lt(x, y) { assert(lt(x, r) || lt(r, y)); }
        if lt(y, x) { assert(lt(y, r) || lt(r, x)); }
    }
}
pub proof fn le_trans(o: Order, a: Value, b: Value, c: Value)
    requires good(o), le(o, a, b), le(o, b, c)
    ensures le(o, a, c)
{ let lt = o.lt; if lt(c, a) { assert(lt(c, b) || lt(b, a)); } }
pub proof fn lt_le(o: Order, a: Value, b: Value, c: Value)
    requires good(o)
    ensures (o.lt)(a, b) ==> le(o, a, b), (o.lt)(a, b) && le(o, b, c) ==> (o.lt)(a, c), le(o, a, b) && (o.lt)(b, c) ==> (o.lt)(a, c)
{ let lt = o.lt; if lt(a, b) && le(o, b, c) { assert(lt(a, c) || lt(c, b)); } if le(o, a, b) && lt(b, c) { assert(lt(b, a) || lt(a, c)); } }
/// a strictly falling stretch holds no two equal elements, so turning it around keeps equal ones in order
pub open spec fn falling(o: Order, s: Seq<Value>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (o.lt)(#[trigger] s[j], #[trigger] s[i]) }
pub proof fn stable_reverse(o: Order, s: Seq<Value>)
    requires good(o) ==> falling(o, s)
    ensures stable(o, s, s.reverse()), good(o) ==> sorted(o, s.reverse())
    decreases s.len()
{
    if good(o) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies le(o, #[trigger] s.reverse()[i], #[trigger] s.reverse()[j]) by { let a = s.len() - 1 - j; let b = s.len() - 1 - i; assert((o.lt)(s[b], s[a])); }; }
    if s.len() == 0 { assert(s.reverse() =~= s); }
    else {
        let t = s.drop_last();
        let e = Seq::<Value>::empty();
        stable_reverse(o, t);
        stable_part(o, seq![s.last()], t, t.reverse(), e);
        if good(o) { assert forall|i: int| 0 <= i < t.len() implies !eqv(o, s.last(), #[trigger] t[i]) by { assert((o.lt)(s[s.len() - 1], s[i])); }; }
        stable_shift(o, e, t, s.last(), e);
        assert(e + t + seq![s.last()] + e =~= s);
        assert(e + seq![s.last()] + t + e =~= seq![s.last()] + t + e);
        assert(s.reverse() =~= seq![s.last()] + t.reverse() + e);
        stable_trans(o, s, seq![s.last()] + t + e, s.reverse());
    }
}

// ---- memory ------------------------------------------------------------------------------------
/// a place in the array or in the scratch buffer
#[derive(Clone, Copy)]
pub struct Ptr { pub sc: bool, pub at: usize }
impl Ptr {
    pub fn add(self, n: usize) -> (r: Ptr) requires self.at + n <= usize::MAX ensures r == (Ptr { sc: self.sc, at: (self.at + n) as usize }) { Ptr { sc: self.sc, at: self.at + n } }
    pub fn up(self) -> (r: Ptr) requires self.at < usize::MAX ensures r == (Ptr { sc: self.sc, at: (self.at + 1) as usize }) { Ptr { sc: self.sc, at: self.at + 1 } }
    pub fn down(self) -> (r: Ptr) requires self.at > 0 ensures r == (Ptr { sc: self.sc, at: (self.at - 1) as usize }) { Ptr { sc: self.sc, at: self.at - 1 } }
    pub fn before(self, o: Ptr) -> (r: bool) requires self.sc == o.sc ensures r == (self.at < o.at) { self.at < o.at }
    pub fn since(self, o: Ptr) -> (r: usize) requires self.sc == o.sc, o.at <= self.at ensures r == self.at - o.at { self.at - o.at }
}
pub open spec fn mem(v: Seq<Value>, sc: Seq<Value>, p: Ptr) -> Seq<Value> { if p.sc { sc } else { v } }
pub open spec fn put(s: Seq<Value>, at: int, x: Seq<Value>) -> Seq<Value> { s.subrange(0, at) + x + s.subrange(at + x.len(), s.len() as int) }
pub fn vread(v: &[Value], sc: &Vec<Value>, p: Ptr) -> (r: Value)
    requires p.at < mem(v@, sc@, p).len()
    ensures r == mem(v@, sc@, p)[p.at as int]
{ if p.sc { sc[p.at] } else { v[p.at] } }
/// ptr::copy_nonoverlapping
#[verifier::external_body]
pub fn vcopy(v: &mut [Value], sc: &mut Vec<Value>, from: Ptr, to: Ptr, n: usize)
    requires from.at + n <= mem(old(v)@, old(sc)@, from).len(), to.at + n <= mem(old(v)@, old(sc)@, to).len(),
        from.sc == to.sc ==> from.at + n <= to.at || to.at + n <= from.at
    ensures final(v)@ == if to.sc { old(v)@ } else { put(old(v)@, to.at as int, mem(old(v)@, old(sc)@, from).subrange(from.at as int, from.at + n)) },
        final(sc)@ == if to.sc { put(old(sc)@, to.at as int, mem(old(v)@, old(sc)@, from).subrange(from.at as int, from.at + n)) } else { old(sc)@ }
{ unimplemented!() }
/// one element of the array copied to another place of it
#[verifier::external_body]
pub fn vmove(v: &mut [Value], from: usize, to: usize)
    requires from < old(v)@.len(), to < old(v)@.len(), from != to
    ensures final(v)@ == old(v)@.update(to as int, old(v)@[from as int])
{ v[to] = v[from] }
#[verifier::external_body]
pub fn vput(v: &mut [Value], at: usize, x: Value)
    requires at < old(v)@.len()
    ensures final(v)@ == old(v)@.update(at as int, x)
{ v[at] = x }
pub fn vaddr(v: &[Value], i: usize) -> (r: usize) requires i < v@.len() ensures r == i { i }
/// &mut v[a..b]
#[verifier::external_body]
pub fn vsub(v: &mut [Value], a: usize, b: usize) -> (r: &mut [Value])
    requires a <= b <= old(v)@.len()
    ensures r@ == old(v)@.subrange(a as int, b as int), final(r)@.len() == r@.len() ==> final(v)@ == put(old(v)@, a as int, final(r)@)
{ &mut v[a..b] }
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub fn nonnull(sc: &Vec<Value>) -> (r: bool) requires sc@.len() > 0 ensures r { true }
pub struct Steps { pub at: usize, pub end: usize }
impl Steps {
    pub fn new(at: usize, end: usize) -> (r: Steps) ensures r.at == at, r.end == end { Steps { at, end } }
    pub fn into_iter(self) -> (r: Steps) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, old(self).at < old(self).end ==> r == Some(old(self).at) && final(self).at == old(self).at + 1, old(self).at >= old(self).end ==> r is None && final(self).at == old(self).at
    { if self.at < self.end { let x = self.at; self.at = self.at + 1; Some(x) } else { None } }
}
@end
@file monoruby/src/executor/op/sort.rs
@gsub is_less ( $a ) ==> is_less.call($a)
@item const MAX_INSERTION
@fn merge_scratch_len
    ensures r == if len <= 20 { 0int } else { len as int / 2 }

// ---- insertion
@item struct InsertionHole fn insert_head
@sub < T > ==>
@sub src : * mut T ==> src: Value
@sub dest : * mut T ==> dest: usize
@impl impl < T > Drop for InsertionHole < T > => impl InsertionHole
@fn drop id=InsertionHole::drop
    requires old(self).dest < old(v)@.len()
    ensures *final(self) == *old(self), final(v)@ == old(v)@.update(old(self).dest as int, old(self).src)
@sub fn drop ( & mut self ) ==> fn drop(&mut self, v: &mut [Value])
@sub std :: ptr :: copy_nonoverlapping ( self . src , self . dest , 1 ) ==> vput(v, self.dest, self.src)
@endimpl
@verbatim
/// the first n elements after the head are below it
pub open spec fn passed(o: Order, s: Seq<Value>, n: int) -> bool { forall|i: int| 1 <= i < n ==> (o.lt)(#[trigger] s[i], s[0]) }
/// the elements after the head moved down by one, up to a hole at n
pub open spec fn pushed(v: Seq<Value>, s: Seq<Value>, n: int) -> bool { v.len() == s.len() && (forall|j: int| 0 <= j < n ==> #[trigger] v[j] == s[j + 1]) && (forall|j: int| n < j < s.len() ==> #[trigger] v[j] == s[j]) }
pub open spec fn slid(s: Seq<Value>, n: int) -> Seq<Value> { s.subrange(1, n) + seq![s[0]] + s.subrange(n, s.len() as int) }
pub proof fn slid_ok(o: Order, s: Seq<Value>, n: int)
    requires 1 <= n <= s.len(), good(o) ==> passed(o, s, n) && sorted(o, s.subrange(1, s.len() as int))
    ensures stable(o, s, slid(s, n)), good(o) && (n < s.len() ==> le(o, s[0], s[n])) ==> sorted(o, slid(s, n))
{
    let e = Seq::<Value>::empty();
    let l = s.subrange(1, n);
    let q = s.subrange(n, s.len() as int);
    if good(o) { assert forall|i: int| 0 <= i < l.len() implies !eqv(o, s[0], #[trigger] l[i]) by { assert((o.lt)(s[i + 1], s[0])); }; }
    stable_shift(o, e, l, s[0], q);
    assert(e + seq![s[0]] + l + q =~= s);
    assert(e + l + seq![s[0]] + q =~= slid(s, n));
    if good(o) && (n < s.len() ==> le(o, s[0], s[n])) {
        let t = s.subrange(1, s.len() as int);
        let w = slid(s, n);
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies le(o, #[trigger] w[i], #[trigger] w[j]) by {
            if j < n - 1 { assert(w[i] == t[i] && w[j] == t[j]); }
            else if j == n - 1 { assert(w[i] == s[i + 1] && w[j] == s[0]); lt_le(o, w[i], w[j], w[j]); }
            else if i < n - 1 { assert(w[i] == t[i] && w[j] == t[j - 1]); }
            else if i == n - 1 { assert(w[i] == s[0] && w[j] == s[j]); if j > n { assert(t[n - 1] == s[n] && t[j - 1] == s[j]); le_trans(o, s[0], s[n], s[j]); } }
            else { assert(w[i] == t[i - 1] && w[j] == t[j - 1]); }
        };
    }
}
@end
@fn insert_head foriter
    requires old(is_less).raised() is None, old(v)@.len() > 0, good(old(is_less).order()) ==> sorted(old(is_less).order(), old(v)@.subrange(1, old(v)@.len() as int))
    ensures final(is_less).order() == old(is_less).order(), quiet(r, final(is_less).raised()), stable(old(is_less).order(), old(v)@, final(v)@),
        r is Ok && good(old(is_less).order()) ==> sorted(old(is_less).order(), final(v)@)
@sub < F > ( v : & mut [ Value ] , is_less : & mut F ) -> Result < ( ) > where F : FnMut ( Value , Value ) -> Result < bool > , ==> <F: Less>(v: &mut [Value], is_less: &mut F) -> Result<()>
@sub let mut tmp = std :: mem :: ManuallyDrop :: new ( std :: ptr :: read ( & v [ 0 ] ) ) ; ==> let tmp = v[0];
@sub src : & mut * tmp , dest : & mut v [ 1 ] ==> src: tmp, dest: vaddr(v, 1)
@sub * tmp ==> tmp
@sub std :: ptr :: copy_nonoverlapping ( & v [ $a ] , & mut v [ $b ] , 1 ) ==> vmove(v, $a, $b)
@sub hole . dest = & mut v [ $a ] ; ==> hole.dest = vaddr(v, $a);
@sub 2 .. v . len ( ) ==> Steps::new(2, v.len())
@dropglue hole ==> hole.drop(v); proof { slid_ok(o, s, hole.dest + 1); assert(v@ =~= slid(s, hole.dest + 1)); }
@enter
    let ghost o = is_less.order();
    let ghost s = v@;
    proof { stable_refl(o, s); }
@loop 1
    invariant_except_break 2 <= _it1.at <= s.len(), _it1.end == s.len(), hole.dest == _it1.at - 1, hole.src == s[0], tmp == s[0], s.len() >= 2, v@.len() == s.len(), is_less.order() == o, o == old(is_less).order(), s == old(v)@, is_less.raised() is None,
        pushed(v@, s, _it1.at - 1), good(o) ==> passed(o, s, _it1.at as int), good(o) ==> sorted(o, s.subrange(1, s.len() as int))
    ensures hole.dest < v@.len(), v@.len() == s.len(), is_less.order() == o, is_less.raised() is None, hole.src == s[0], pushed(v@, s, hole.dest as int), good(o) ==> passed(o, s, hole.dest + 1) && (hole.dest + 1 < s.len() ==> le(o, s[0], s[hole.dest + 1]))
    decreases s.len() - _it1.at
@before return Ok ( ( ) ) ;
    proof { slid_ok(o, s, 1); assert(slid(s, 1) =~= s); }

// ---- merging
@item struct MergeHole fn merge
@sub < T > ==>
@sub * mut T ==> Ptr
@impl impl < T > Drop for MergeHole < T > => impl MergeHole
@fn drop id=MergeHole::drop
    requires old(self).start.sc, old(self).end.sc, !old(self).dest.sc, old(self).start.at <= old(self).end.at <= old(sc)@.len(), old(self).dest.at + (old(self).end.at - old(self).start.at) <= old(v)@.len()
    ensures *final(self) == *old(self), final(sc)@ == old(sc)@, final(v)@ == put(old(v)@, old(self).dest.at as int, old(sc)@.subrange(old(self).start.at as int, old(self).end.at as int))
@sub fn drop ( & mut self ) ==> fn drop(&mut self, v: &mut [Value], sc: &mut Vec<Value>)
@sub ( self . end as usize - self . start as usize ) / std :: mem :: size_of :: < T > ( ) ==> self.end.since(self.start)
@sub std :: ptr :: copy_nonoverlapping ( self . start , self . dest , len ) ==> vcopy(v, sc, self.start, self.dest, len)
@endimpl
@fn get_and_increment
    requires old(ptr).at < usize::MAX
    ensures r == *old(ptr), *final(ptr) == (Ptr { sc: r.sc, at: (r.at + 1) as usize })
@ctx fn merge
@sub < T > ( ptr : & mut * mut T ) -> * mut T ==> (ptr: &mut Ptr) -> Ptr
@sub let old = * ptr ; ==> let old_ = *ptr;
@sub ptr . offset ( 1 ) ==> ptr.up()
@sub ; old } ==> ; old_ }
@fn decrement_and_get
    requires old(ptr).at > 0
    ensures r == (Ptr { sc: old(ptr).sc, at: (old(ptr).at - 1) as usize }), *final(ptr) == r
@ctx fn merge
@sub < T > ( ptr : & mut * mut T ) -> * mut T ==> (ptr: &mut Ptr) -> Ptr
@sub ptr . offset ( - 1 ) ==> ptr.down()
@verbatim
pub open spec fn tail(s: Seq<Value>, i: int) -> Seq<Value> { s.subrange(i, s.len() as int) }
pub open spec fn front(s: Seq<Value>, i: int) -> Seq<Value> { s.subrange(0, i) }
pub proof fn sorted_sub(o: Order, s: Seq<Value>, a: int, b: int) requires sorted(o, s), 0 <= a <= b <= s.len() ensures sorted(o, s.subrange(a, b))
{ let w = s.subrange(a, b); assert forall|i: int, j: int| 0 <= i < j < w.len() implies le(o, #[trigger] w[i], #[trigger] w[j]) by { assert(w[i] == s[a + i] && w[j] == s[a + j]); }; }
pub proof fn sorted_add(o: Order, a: Seq<Value>, b: Seq<Value>) requires sorted(o, a), sorted(o, b), below(o, a, b) ensures sorted(o, a + b)
{
    let w = a + b;
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies le(o, #[trigger] w[i], #[trigger] w[j]) by {
        if j < a.len() { assert(w[i] == a[i] && w[j] == a[j]); }
        else if i < a.len() { assert(w[i] == a[i] && w[j] == b[j - a.len()]); }
        else { assert(w[i] == b[i - a.len()] && w[j] == b[j - a.len()]); }
    };
}
/// merging forwards: p has been put out, l[i..] and r[j..] are left
pub open spec fn fwd(o: Order, s: Seq<Value>, p: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int) -> bool {
    &&& 0 <= i <= l.len() && 0 <= j <= r.len() && p.len() == i + j
    &&& stable(o, s, p + tail(l, i) + tail(r, j))
    &&& good(o) ==> sorted(o, l) && sorted(o, r) && sorted(o, p) && below(o, p, tail(l, i)) && below(o, p, tail(r, j))
}
pub proof fn fwd_right(o: Order, s: Seq<Value>, p: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires fwd(o, s, p, l, r, i, j), i < l.len(), j < r.len(), good(o) ==> (o.lt)(r[j], l[i])
    ensures fwd(o, s, p.push(r[j]), l, r, i, j + 1)
{
    let x = r[j];
    let (ll, rr) = (tail(l, i), tail(r, j + 1));
    if good(o) { assert forall|k: int| 0 <= k < ll.len() implies !eqv(o, x, #[trigger] ll[k]) by { assert(ll[k] == l[i + k]); lt_le(o, x, l[i], l[i + k]); if k > 0 { assert(le(o, l[i], l[i + k])); } }; }
    stable_shift(o, p, ll, x, rr);
    assert(p + ll + tail(r, j) =~= p + ll + seq![x] + rr);
    assert(p.push(x) + ll + rr =~= p + seq![x] + ll + rr);
    stable_trans(o, s, p + ll + tail(r, j), p.push(x) + ll + rr);
    if good(o) {
        let q = p.push(x);
        assert(tail(r, j)[0] == x);
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies le(o, #[trigger] q[a], #[trigger] q[b]) by { if b == p.len() { assert(le(o, p[a], tail(r, j)[0])); } };
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < ll.len() implies le(o, #[trigger] q[a], #[trigger] ll[b]) by { if a == p.len() { lt_le(o, x, l[i], l[i + b]); lt_le(o, x, l[i + b], l[i]); assert(ll[b] == l[i + b]); if b > 0 { assert(le(o, l[i], l[i + b])); } } };
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < rr.len() implies le(o, #[trigger] q[a], #[trigger] rr[b]) by { assert(rr[b] == r[j + 1 + b]); if a == p.len() { assert(le(o, r[j], r[j + 1 + b])); } else { assert(tail(r, j)[b + 1] == rr[b]); } };
    }
}
pub proof fn fwd_left(o: Order, s: Seq<Value>, p: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires fwd(o, s, p, l, r, i, j), i < l.len(), j < r.len(), good(o) ==> !(o.lt)(r[j], l[i])
    ensures fwd(o, s, p.push(l[i]), l, r, i + 1, j)
{
    let x = l[i];
    let (ll, rr) = (tail(l, i + 1), tail(r, j));
    assert(p.push(x) + ll + rr =~= p + tail(l, i) + rr);
    if good(o) {
        let q = p.push(x);
        assert(tail(l, i)[0] == x);
        assert forall|a: int, b: int| 0 <= a < b < q.len() implies le(o, #[trigger] q[a], #[trigger] q[b]) by { if b == p.len() { assert(le(o, p[a], tail(l, i)[0])); } };
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < ll.len() implies le(o, #[trigger] q[a], #[trigger] ll[b]) by { assert(ll[b] == l[i + 1 + b]); if a == p.len() { assert(le(o, l[i], l[i + 1 + b])); } else { assert(tail(l, i)[b + 1] == ll[b]); } };
        assert forall|a: int, b: int| 0 <= a < q.len() && 0 <= b < rr.len() implies le(o, #[trigger] q[a], #[trigger] rr[b]) by { if a == p.len() { assert(rr[b] == r[j + b]); if b > 0 { assert(le(o, r[j], r[j + b])); le_trans(o, x, r[j], r[j + b]); } } };
    }
}
pub proof fn fwd_end(o: Order, s: Seq<Value>, p: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires fwd(o, s, p, l, r, i, j)
    ensures stable(o, s, p + tail(l, i) + tail(r, j)), good(o) && (i == l.len() || j == r.len()) ==> sorted(o, p + tail(l, i) + tail(r, j))
{
    let w = p + tail(l, i) + tail(r, j);
    if good(o) && i == l.len() { sorted_sub(o, r, j, r.len() as int); sorted_add(o, p, tail(r, j)); assert(w =~= p + tail(r, j)); }
    if good(o) && j == r.len() { sorted_sub(o, l, i, l.len() as int); sorted_add(o, p, tail(l, i)); assert(w =~= p + tail(l, i)); }
}
/// merging backwards: q has been put out, l[..i] and r[..j] are left
pub open spec fn bwd(o: Order, s: Seq<Value>, q: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int) -> bool {
    &&& 0 <= i <= l.len() && 0 <= j <= r.len() && q.len() == l.len() - i + r.len() - j
    &&& stable(o, s, front(l, i) + front(r, j) + q)
    &&& good(o) ==> sorted(o, l) && sorted(o, r) && sorted(o, q) && below(o, front(l, i), q) && below(o, front(r, j), q)
}
pub proof fn bwd_left(o: Order, s: Seq<Value>, q: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires bwd(o, s, q, l, r, i, j), 0 < i, 0 < j, good(o) ==> (o.lt)(r[j - 1], l[i - 1])
    ensures bwd(o, s, seq![l[i - 1]] + q, l, r, i - 1, j)
{
    let x = l[i - 1];
    let (ll, rr) = (front(l, i - 1), front(r, j));
    let p = seq![x] + q;
    if good(o) { assert forall|k: int| 0 <= k < rr.len() implies !eqv(o, x, #[trigger] rr[k]) by { assert(rr[k] == r[k]); if k < j - 1 { assert(le(o, r[k], r[j - 1])); } lt_le(o, r[k], r[j - 1], x); }; }
    stable_shift(o, ll, rr, x, q);
    assert(front(l, i) + rr + q =~= ll + seq![x] + rr + q);
    assert(ll + rr + p =~= ll + rr + seq![x] + q);
    stable_trans(o, s, front(l, i) + rr + q, ll + rr + p);
    if good(o) {
        assert(front(l, i)[i - 1] == x);
        assert forall|a: int, b: int| 0 <= a < b < p.len() implies le(o, #[trigger] p[a], #[trigger] p[b]) by { if a == 0 { assert(p[b] == q[b - 1]); } else { assert(p[a] == q[a - 1] && p[b] == q[b - 1]); } };
        assert forall|a: int, b: int| 0 <= a < ll.len() && 0 <= b < p.len() implies le(o, #[trigger] ll[a], #[trigger] p[b]) by { assert(ll[a] == l[a]); if b == 0 { assert(le(o, l[a], l[i - 1])); } else { assert(front(l, i)[a] == ll[a] && p[b] == q[b - 1]); } };
        assert forall|a: int, b: int| 0 <= a < rr.len() && 0 <= b < p.len() implies le(o, #[trigger] rr[a], #[trigger] p[b]) by { assert(rr[a] == r[a]); if b == 0 { if a < j - 1 { assert(le(o, r[a], r[j - 1])); } lt_le(o, r[a], r[j - 1], x); lt_le(o, r[a], x, x); } else { assert(p[b] == q[b - 1]); } };
    }
}
pub proof fn bwd_right(o: Order, s: Seq<Value>, q: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires bwd(o, s, q, l, r, i, j), 0 < i, 0 < j, good(o) ==> !(o.lt)(r[j - 1], l[i - 1])
    ensures bwd(o, s, seq![r[j - 1]] + q, l, r, i, j - 1)
{
    let x = r[j - 1];
    let (ll, rr) = (front(l, i), front(r, j - 1));
    let p = seq![x] + q;
    assert(ll + rr + p =~= ll + front(r, j) + q);
    if good(o) {
        assert(front(r, j)[j - 1] == x);
        assert forall|a: int, b: int| 0 <= a < b < p.len() implies le(o, #[trigger] p[a], #[trigger] p[b]) by { if a == 0 { assert(p[b] == q[b - 1]); } else { assert(p[a] == q[a - 1] && p[b] == q[b - 1]); } };
        assert forall|a: int, b: int| 0 <= a < ll.len() && 0 <= b < p.len() implies le(o, #[trigger] ll[a], #[trigger] p[b]) by { assert(ll[a] == l[a]); if b == 0 { if a < i - 1 { assert(le(o, l[a], l[i - 1])); le_trans(o, l[a], l[i - 1], x); } } else { assert(p[b] == q[b - 1]); } };
        assert forall|a: int, b: int| 0 <= a < rr.len() && 0 <= b < p.len() implies le(o, #[trigger] rr[a], #[trigger] p[b]) by { assert(rr[a] == r[a]); if b == 0 { assert(le(o, r[a], r[j - 1])); } else { assert(front(r, j)[a] == rr[a] && p[b] == q[b - 1]); } };
    }
}
pub proof fn bwd_end(o: Order, s: Seq<Value>, q: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int)
    requires bwd(o, s, q, l, r, i, j)
    ensures stable(o, s, front(l, i) + front(r, j) + q), good(o) && (i == 0 || j == 0) ==> sorted(o, front(l, i) + front(r, j) + q)
{
    let w = front(l, i) + front(r, j) + q;
    if good(o) && i == 0 { sorted_sub(o, r, 0, j); sorted_add(o, front(r, j), q); assert(w =~= front(r, j) + q); }
    if good(o) && j == 0 { sorted_sub(o, l, 0, i); sorted_add(o, front(l, i), q); assert(w =~= front(l, i) + q); }
}
/// the left run is in the scratch buffer, l[i..] of it left; r[j..] is in place
pub open spec fn ahead(o: Order, s: Seq<Value>, v: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int) -> bool {
    &&& v.len() == s.len() == l.len() + r.len() && l.len() <= sc.len() && front(sc, l.len() as int) == l
    &&& 0 <= i <= l.len() && 0 <= j <= r.len()
    &&& tail(v, l.len() + j) == tail(r, j)
    &&& fwd(o, s, front(v, i + j), l, r, i, j)
}
/// the right run is in the scratch buffer, r[..j] of it left; l[..i] is in place
pub open spec fn back(o: Order, s: Seq<Value>, v: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int) -> bool {
    &&& v.len() == s.len() == l.len() + r.len() && r.len() <= sc.len() && front(sc, r.len() as int) == r
    &&& 0 <= i <= l.len() && 0 <= j <= r.len()
    &&& front(v, i) == front(l, i)
    &&& bwd(o, s, tail(v, i + j), l, r, i, j)
}
pub proof fn ahead_step(o: Order, s: Seq<Value>, v: Seq<Value>, w: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int, right: bool)
    requires ahead(o, s, v, sc, l, r, i, j), i < l.len(), j < r.len(),
        right ==> w == put(v, i + j, v.subrange(l.len() + j, l.len() + j + 1)) && (good(o) ==> (o.lt)(r[j], l[i])),
        !right ==> w == put(v, i + j, sc.subrange(i, i + 1)) && (good(o) ==> !(o.lt)(r[j], l[i])),
    ensures right ==> ahead(o, s, w, sc, l, r, i, j + 1), !right ==> ahead(o, s, w, sc, l, r, i + 1, j)
{
    assert(v[l.len() + j] == tail(v, l.len() + j)[0]);
    assert(tail(r, j)[0] == r[j]);
    assert(sc[i] == front(sc, l.len() as int)[i]);
    if right {
        fwd_right(o, s, front(v, i + j), l, r, i, j);
        assert(front(w, i + j + 1) =~= front(v, i + j).push(r[j]));
        assert forall|k: int| 0 <= k < tail(r, j + 1).len() implies tail(w, l.len() + j + 1)[k] == #[trigger] tail(r, j + 1)[k] by { assert(tail(v, l.len() + j)[k + 1] == tail(r, j)[k + 1]); };
        assert(tail(w, l.len() + j + 1) =~= tail(r, j + 1));
    } else {
        fwd_left(o, s, front(v, i + j), l, r, i, j);
        assert(front(w, i + j + 1) =~= front(v, i + j).push(l[i]));
        assert forall|k: int| 0 <= k < tail(r, j).len() implies tail(w, l.len() + j)[k] == #[trigger] tail(r, j)[k] by { assert(tail(v, l.len() + j)[k] == tail(r, j)[k]); };
        assert(tail(w, l.len() + j) =~= tail(r, j));
    }
}
pub proof fn back_step(o: Order, s: Seq<Value>, v: Seq<Value>, w: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, i: int, j: int, left: bool)
    requires back(o, s, v, sc, l, r, i, j), i > 0, j > 0,
        left ==> w == put(v, i + j - 1, v.subrange(i - 1, i)) && (good(o) ==> (o.lt)(r[j - 1], l[i - 1])),
        !left ==> w == put(v, i + j - 1, sc.subrange(j - 1, j)) && (good(o) ==> !(o.lt)(r[j - 1], l[i - 1])),
    ensures left ==> back(o, s, w, sc, l, r, i - 1, j), !left ==> back(o, s, w, sc, l, r, i, j - 1)
{
    assert(v[i - 1] == front(v, i)[i - 1]);
    assert(front(l, i)[i - 1] == l[i - 1]);
    assert(sc[j - 1] == front(sc, r.len() as int)[j - 1]);
    if left {
        bwd_left(o, s, tail(v, i + j), l, r, i, j);
        assert(tail(w, i + j - 1) =~= seq![l[i - 1]] + tail(v, i + j));
        assert forall|k: int| 0 <= k < i - 1 implies front(w, i - 1)[k] == #[trigger] front(l, i - 1)[k] by { assert(front(v, i)[k] == front(l, i)[k]); };
        assert(front(w, i - 1) =~= front(l, i - 1));
    } else {
        bwd_right(o, s, tail(v, i + j), l, r, i, j);
        assert(tail(w, i + j - 1) =~= seq![r[j - 1]] + tail(v, i + j));
        assert forall|k: int| 0 <= k < i implies front(w, i)[k] == #[trigger] front(l, i)[k] by { assert(front(v, i)[k] == front(l, i)[k]); };
        assert(front(w, i) =~= front(l, i));
    }
}
pub proof fn merged(o: Order, s: Seq<Value>, v: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, h: MergeHole, fw: bool)
    requires fw ==> ahead(o, s, v, sc, l, r, h.start.at as int, h.dest.at - h.start.at) && h.end.at == l.len(),
        !fw ==> back(o, s, v, sc, l, r, h.dest.at as int, h.end.at as int) && h.start.at == 0
    ensures ({ let w = put(v, h.dest.at as int, sc.subrange(h.start.at as int, h.end.at as int)); &&& stable(o, s, w)
        &&& good(o) && fw && (h.start.at == l.len() || h.dest.at - h.start.at == r.len()) ==> sorted(o, w)
        &&& good(o) && !fw && (h.dest.at == 0 || h.end.at == 0) ==> sorted(o, w) })
{
    let w = put(v, h.dest.at as int, sc.subrange(h.start.at as int, h.end.at as int));
    if fw {
        let i = h.start.at as int;
        let j = h.dest.at - i;
        fwd_end(o, s, front(v, i + j), l, r, i, j);
        assert(sc.subrange(i, l.len() as int) =~= tail(l, i)) by { assert forall|k: int| 0 <= k < l.len() - i implies #[trigger] sc.subrange(i, l.len() as int)[k] == tail(l, i)[k] by { assert(front(sc, l.len() as int)[i + k] == l[i + k]); }; }
        assert(w =~= front(v, i + j) + tail(l, i) + tail(r, j));
    } else {
        let i = h.dest.at as int;
        let j = h.end.at as int;
        bwd_end(o, s, tail(v, i + j), l, r, i, j);
        assert(sc.subrange(0, j) =~= front(r, j)) by { assert forall|k: int| 0 <= k < j implies #[trigger] sc.subrange(0, j)[k] == front(r, j)[k] by { assert(front(sc, r.len() as int)[k] == r[k]); }; }
        assert(w =~= front(l, i) + front(r, j) + tail(v, i + j));
    }
}
pub proof fn start_ok(o: Order, s: Seq<Value>, v: Seq<Value>, sc: Seq<Value>, l: Seq<Value>, r: Seq<Value>, fw: bool)
    requires v == s, s =~= l + r, good(o) ==> sorted(o, l) && sorted(o, r), fw ==> l.len() <= sc.len() && front(sc, l.len() as int) =~= l, !fw ==> r.len() <= sc.len() && front(sc, r.len() as int) =~= r
    ensures fw ==> ahead(o, s, v, sc, l, r, 0, 0), !fw ==> back(o, s, v, sc, l, r, l.len() as int, r.len() as int)
{
    stable_refl(o, s);
    if fw { assert(tail(v, l.len() as int) =~= tail(r, 0)); assert(front(v, 0) + tail(l, 0) + tail(r, 0) =~= s); }
    else { assert(front(v, l.len() as int) =~= front(l, l.len() as int)); assert(front(l, l.len() as int) + front(r, r.len() as int) + tail(v, s.len() as int) =~= s); }
}
@end
@fn merge
    requires old(is_less).raised() is None, mid <= old(v_)@.len(), mid <= old(v_)@.len() - mid ==> mid <= old(sc_)@.len(), mid > old(v_)@.len() - mid ==> old(v_)@.len() - mid <= old(sc_)@.len(),
        good(old(is_less).order()) ==> sorted(old(is_less).order(), old(v_)@.subrange(0, mid as int)) && sorted(old(is_less).order(), old(v_)@.subrange(mid as int, old(v_)@.len() as int))
    ensures final(is_less).order() == old(is_less).order(), quiet(r, final(is_less).raised()), stable(old(is_less).order(), old(v_)@, final(v_)@), final(sc_)@.len() == old(sc_)@.len(),
        r is Ok && good(old(is_less).order()) ==> sorted(old(is_less).order(), final(v_)@)
@sub < F > ( v : & mut [ Value ] , mid : usize , buf : * mut Value , is_less : & mut F ) -> Result < ( ) > where F : FnMut ( Value , Value ) -> Result < bool > , ==> <F: Less>(v_: &mut [Value], mid: usize, sc_: &mut Vec<Value>, is_less: &mut F) -> Result<()>
@sub let len = v . len ( ) ; let v = v . as_mut_ptr ( ) ; ==> let len = v_.len(); let v = Ptr { sc: false, at: 0 }; let buf = Ptr { sc: true, at: 0 };
@sub std :: ptr :: copy_nonoverlapping ( $a , $b , $c ) ==> { let to_ = $b; vcopy(v_, sc_, $a, to_, $c) }
@sub * left < hole . end && right < v_end ==> hole.start.before(hole.end) && right.before(v_end)
@sub let left = & mut hole . start ; ==>
@sub let out = & mut hole . dest ; ==>
@sub get_and_increment ( left ) ==> get_and_increment(&mut hole.start)
@sub get_and_increment ( out ) ==> get_and_increment(&mut hole.dest)
@sub v < * left && buf < * right ==> v.before(hole.dest) && buf.before(hole.end)
@sub let left = & mut hole . dest ; ==>
@sub let right = & mut hole . end ; ==>
@sub decrement_and_get ( left ) ==> decrement_and_get(&mut hole.dest)
@sub decrement_and_get ( right ) ==> decrement_and_get(&mut hole.end)
@sub is_less ( * right , * * left ) ==> is_less.call(vread(&*v_, &*sc_, right), vread(&*v_, &*sc_, hole.start))
@sub is_less ( * right . offset ( - 1 ) , * left . offset ( - 1 ) ) ==> is_less.call(vread(&*v_, &*sc_, hole.end.down()), vread(&*v_, &*sc_, hole.dest.down()))
@dropglue hole ==> let ghost va = v_@; hole.drop(v_, sc_); proof { merged(o, s, va, sc_@, l, rr, hole, fw); }
@enter
    let ghost o = is_less.order();
    let ghost s = v_@;
    let ghost l = s.subrange(0, mid as int);
    let ghost rr = s.subrange(mid as int, s.len() as int);
    let ghost fw = mid <= s.len() - mid;
@before while hole . start
    proof { start_ok(o, s, v_@, sc_@, l, rr, fw); }
@before while v . before
    proof { start_ok(o, s, v_@, sc_@, l, rr, fw); }
@loop 1
    invariant is_less.order() == o, o == old(is_less).order(), is_less.raised() is None, s == old(v_)@, len == s.len(), sc_@.len() == old(sc_)@.len(), fw, l.len() == mid, v_end == (Ptr { sc: false, at: len }), hole.end == (Ptr { sc: true, at: mid }), hole.start.sc, !right.sc, !hole.dest.sc, right.at >= mid, hole.dest.at == hole.start.at + (right.at - mid), ahead(o, s, v_@, sc_@, l, rr, hole.start.at as int, right.at - mid)
    decreases mid - hole.start.at + len - right.at
@loopenter 1
    let ghost va = v_@;
    let ghost i0 = hole.start.at as int;
    let ghost j0 = right.at - mid;
    proof { assert(v_@[right.at as int] == tail(v_@, right.at as int)[0]); assert(tail(rr, j0)[0] == rr[j0]); assert(sc_@[i0] == front(sc_@, mid as int)[i0]); }
@loopend 1
    proof { ahead_step(o, s, va, v_@, sc_@, l, rr, i0, j0, right.at - mid > j0); }
@loop 2
    invariant is_less.order() == o, o == old(is_less).order(), is_less.raised() is None, s == old(v_)@, len == s.len(), sc_@.len() == old(sc_)@.len(), !fw, l.len() == mid, v == (Ptr { sc: false, at: 0 }), buf == (Ptr { sc: true, at: 0 }), hole.start == buf, !hole.dest.sc, hole.end.sc, !out.sc, out.at == hole.dest.at + hole.end.at, back(o, s, v_@, sc_@, l, rr, hole.dest.at as int, hole.end.at as int)
    decreases hole.dest.at + hole.end.at
@loopenter 2
    let ghost va = v_@;
    let ghost i0 = hole.dest.at as int;
    let ghost j0 = hole.end.at as int;
    proof { assert(v_@[i0 - 1] == front(v_@, i0)[i0 - 1]); assert(front(l, i0)[i0 - 1] == l[i0 - 1]); assert(sc_@[j0 - 1] == front(sc_@, rr.len() as int)[j0 - 1]); }
@loopend 2
    proof { back_step(o, s, va, v_@, sc_@, l, rr, i0, j0, hole.dest.at < i0); }

// ---- the driver
@item struct Run fn merge_sort
@pre
#[derive(Clone, Copy)]
@verbatim
/// the runs found so far, from the right end of the array: adjacent, down to `from`
pub open spec fn tiled(runs: Seq<Run>, from: int, len: int) -> bool {
    &&& 0 <= from <= len
    &&& runs.len() == 0 ==> from == len
    &&& runs.len() > 0 ==> runs[0].start + runs[0].len == len && runs.last().start == from
    &&& forall|k: int| 0 <= k < runs.len() ==> (#[trigger] runs[k]).len > 0 && from <= runs[k].start && runs[k].start + runs[k].len <= len
    &&& forall|k: int| 0 <= k < runs.len() - 1 ==> #[trigger] abut(runs, k)
}
pub open spec fn abut(runs: Seq<Run>, k: int) -> bool { runs[k + 1].start + runs[k + 1].len == runs[k].start }
pub open spec fn run_of(v: Seq<Value>, r: Run) -> Seq<Value> { v.subrange(r.start as int, r.start + r.len) }
pub open spec fn tidy(o: Order, v: Seq<Value>, runs: Seq<Run>) -> bool { good(o) ==> forall|k: int| 0 <= k < runs.len() ==> sorted(o, run_of(v, #[trigger] runs[k])) }
/// rearranging a part of the array
pub proof fn put_stable(o: Order, s: Seq<Value>, v: Seq<Value>, a: int, b: int, x: Seq<Value>)
    requires stable(o, s, v), 0 <= a <= b <= v.len(), stable(o, v.subrange(a, b), x)
    ensures stable(o, s, put(v, a, x)), put(v, a, x).subrange(a, b) == x, x.len() == b - a
{
    stable_part(o, v.subrange(0, a), v.subrange(a, b), x, v.subrange(b, v.len() as int));
    assert(v.subrange(0, a) + v.subrange(a, b) + v.subrange(b, v.len() as int) =~= v);
    stable_trans(o, s, v, put(v, a, x));
    assert(put(v, a, x).subrange(a, b) =~= x);
}
pub proof fn put_stable_all(o: Order, s: Seq<Value>, v: Seq<Value>, a: int, b: int)
    requires stable(o, s, v), 0 <= a <= b <= v.len()
    ensures forall|x: Seq<Value>| stable(o, v.subrange(a, b), x) ==> stable(o, s, #[trigger] put(v, a, x)) && put(v, a, x).subrange(a, b) == x && x.len() == b - a && put(v, a, x).len() == v.len()
{ assert forall|x: Seq<Value>| stable(o, v.subrange(a, b), x) implies stable(o, s, #[trigger] put(v, a, x)) && put(v, a, x).subrange(a, b) == x && x.len() == b - a && put(v, a, x).len() == v.len() by { put_stable(o, s, v, a, b, x); }; }
/// runs right of the change stay as they are
pub proof fn tidy_put(o: Order, v: Seq<Value>, a: int, x: Seq<Value>, runs: Seq<Run>, from: int)
    requires tidy(o, v, runs), tiled(runs, from, v.len() as int), 0 <= a, a + x.len() <= from
    ensures tidy(o, put(v, a, x), runs)
{
    if good(o) { assert forall|k: int| 0 <= k < runs.len() implies sorted(o, run_of(put(v, a, x), #[trigger] runs[k])) by { assert(run_of(put(v, a, x), runs[k]) =~= run_of(v, runs[k])); }; }
}
pub proof fn joined(o: Order, v: Seq<Value>, x: Seq<Value>, runs: Seq<Run>, out: Seq<Run>, r: int, from: int)
    requires tidy(o, v, runs), tiled(runs, from, v.len() as int), 0 <= r, r + 1 < runs.len(), x.len() == runs[r].len + runs[r + 1].len, good(o) ==> sorted(o, x),
        out == runs.update(r, Run { start: runs[r + 1].start, len: (runs[r].len + runs[r + 1].len) as usize }).remove(r + 1), v.len() <= usize::MAX
    ensures tiled(out, from, v.len() as int), tidy(o, put(v, runs[r + 1].start as int, x), out)
{
    let w = put(v, runs[r + 1].start as int, x);
    assert(abut(runs, r));
    spread(runs, from, v.len() as int);
    assert(out.len() == runs.len() - 1);
    assert forall|k: int| 0 <= k < out.len() implies #[trigger] out[k] == if k < r { runs[k] } else if k == r { Run { start: runs[r + 1].start, len: (runs[r].len + runs[r + 1].len) as usize } } else { runs[k + 1] } by {};
    assert forall|k: int| 0 <= k < out.len() - 1 implies #[trigger] abut(out, k) by {
        if k + 1 < r { assert(abut(runs, k)); } else if k + 1 == r { assert(abut(runs, k)); assert(abut(runs, k + 1)); } else { assert(abut(runs, k + 1)); }
    };
    assert forall|k: int| 0 <= k < out.len() implies (#[trigger] out[k]).len > 0 && from <= out[k].start && out[k].start + out[k].len <= v.len() by {
        if k < r { assert(out[k] == runs[k]); } else if k > r { assert(out[k] == runs[k + 1]); } else { assert(runs[r].len > 0 && runs[r + 1].len > 0); }
    };
    if good(o) {
        assert forall|k: int| 0 <= k < out.len() implies sorted(o, run_of(w, #[trigger] out[k])) by {
            if k < r { assert(out[k] == runs[k]); assert(runs[r].start + runs[r].len <= runs[k].start); assert(run_of(w, out[k]) =~= run_of(v, runs[k])); }
            else if k > r { assert(out[k] == runs[k + 1]); assert(runs[k + 1].start + runs[k + 1].len <= runs[r + 1].start); assert(run_of(w, out[k]) =~= run_of(v, runs[k + 1])); }
            else { assert(run_of(w, out[k]) =~= x); }
        };
    }
}
/// later runs lie to the left
pub proof fn spread(runs: Seq<Run>, from: int, len: int)
    requires tiled(runs, from, len)
    ensures forall|i: int, j: int| 0 <= i < j < runs.len() ==> (#[trigger] runs[j]).start + runs[j].len <= (#[trigger] runs[i]).start
{
    assert forall|i: int, j: int| 0 <= i < j < runs.len() implies (#[trigger] runs[j]).start + runs[j].len <= (#[trigger] runs[i]).start by { spread_at(runs, from, len, i, j); };
}
pub proof fn spread_at(runs: Seq<Run>, from: int, len: int, i: int, j: int)
    requires tiled(runs, from, len), 0 <= i < j < runs.len()
    ensures runs[j].start + runs[j].len <= runs[i].start
    decreases j - i
{ assert(abut(runs, j - 1)); if j > i + 1 { spread_at(runs, from, len, i, j - 1); } }
pub proof fn pushed_run(o: Order, v: Seq<Value>, runs: Seq<Run>, out: Seq<Run>, from: int, x: Run)
    requires tidy(o, v, runs), tiled(runs, from, v.len() as int), x.len > 0, x.start + x.len == from, out == runs.push(x), good(o) ==> sorted(o, run_of(v, x))
    ensures tidy(o, v, out), tiled(out, x.start as int, v.len() as int)
{
    assert forall|k: int| 0 <= k < out.len() - 1 implies #[trigger] abut(out, k) by { if k + 1 < runs.len() { assert(abut(runs, k)); } };
    assert forall|k: int| 0 <= k < out.len() implies (#[trigger] out[k]).len > 0 && x.start <= out[k].start && out[k].start + out[k].len <= v.len() by { if k < runs.len() { assert(out[k] == runs[k]); } };
    if good(o) { assert forall|k: int| 0 <= k < out.len() implies sorted(o, run_of(v, #[trigger] out[k])) by { if k < runs.len() { assert(out[k] == runs[k]); } }; }
}
pub proof fn grow_falling(o: Order, v: Seq<Value>, a: int, b: int)
    requires 0 < a < b <= v.len(), good(o) ==> falling(o, v.subrange(a, b)) && (o.lt)(v[a], v[a - 1])
    ensures good(o) ==> falling(o, v.subrange(a - 1, b))
{
    if good(o) {
        let (t, w) = (v.subrange(a, b), v.subrange(a - 1, b));
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies (o.lt)(#[trigger] w[j], #[trigger] w[i]) by {
            assert(w[j] == t[j - 1]);
            if i > 0 { assert(w[i] == t[i - 1]); } else { assert(t[0] == v[a]); if j > 1 { assert((o.lt)(t[j - 1], t[0])); lt_le(o, t[j - 1], v[a], v[a - 1]); } lt_le(o, t[j - 1], v[a], v[a - 1]); }
        };
    }
}
pub proof fn grow_sorted(o: Order, v: Seq<Value>, a: int, b: int)
    requires 0 < a < b <= v.len(), good(o) ==> sorted(o, v.subrange(a, b)) && le(o, v[a - 1], v[a])
    ensures good(o) ==> sorted(o, v.subrange(a - 1, b))
{
    if good(o) {
        let (t, w) = (v.subrange(a, b), v.subrange(a - 1, b));
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies le(o, #[trigger] w[i], #[trigger] w[j]) by {
            assert(w[j] == t[j - 1]);
            if i > 0 { assert(w[i] == t[i - 1]); } else { assert(t[0] == v[a]); if j > 1 { assert(le(o, t[0], t[j - 1])); le_trans(o, v[a - 1], v[a], t[j - 1]); } }
        };
    }
}
@end
@fn collapse
    requires exists|from: int, len: int| #[trigger] tiled(runs@, from, len) && len <= usize::MAX
    ensures match r { Some(k) => k + 1 < runs@.len() <= usize::MAX, None => runs@.len() < 2 || runs@.last().start != 0 }
@ctx fn merge_sort
@enter
    proof { let (from, len) = choose|from: int, len: int| #[trigger] tiled(runs@, from, len) && len <= usize::MAX; spread(runs@, from, len); }
@fn merge_sort
    requires old(is_less).raised() is None, old(v)@.len() > 20 ==> old(sc_)@.len() >= old(v)@.len() / 2
    ensures final(is_less).order() == old(is_less).order(), quiet(r, final(is_less).raised()), stable(old(is_less).order(), old(v)@, final(v)@), final(sc_)@.len() == old(sc_)@.len(),
        r is Ok && good(old(is_less).order()) ==> sorted(old(is_less).order(), final(v)@)
@sub < F > ( v : & mut [ Value ] , buf : * mut Value , mut is_less : F ) -> Result < ( ) > where F : FnMut ( Value , Value ) -> Result < bool > , ==> <F: Less>(v: &mut [Value], sc_: &mut Vec<Value>, is_less: &mut F) -> Result<()>
@sub const MIN_RUN : usize = $a ; ==> let MIN_RUN: usize = $a;
@sub & mut is_less ==> is_less
@sub & mut v [ i .. ] ==> { let n_ = v.len(); vsub(v, i, n_) }
@sub & mut v [ start .. end ] ==> vsub(v, start, end)
@sub v [ start .. end ] . reverse ( ) ==> vsub(v, start, end).reverse()
@sub & mut v [ left . start .. right . start + right . len ] ==> vsub(v, left.start, right.start + right.len)
@sub buf , ==> sc_,
@sub ! buf . is_null ( ) ==> nonnull(&*sc_)
@sub * v . get_unchecked ( $a ) ==> v[$a]
@sub vec ! [ ] ==> Vec::<Run>::new()
@sub while let Some ( r ) = collapse ( & runs ) { ==> loop { let r = match collapse(&runs) { Some(r) => r, None => break };
@enter
    let ghost o = is_less.order();
    let ghost s = v@;
    proof { stable_refl(o, s); }
@loop 1
    invariant o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), stable(o, s, v@), len == s.len(), 2 <= len, _n1 == len - 1, good(o) ==> sorted(o, v@.subrange(len - 1 - _k1, len as int))
@before insert_head ( { let n_
    let ghost va = v@;
    proof { assert(v@.subrange(i as int, len as int).subrange(1, len - i) =~= v@.subrange(i + 1, len as int)); put_stable_all(o, s, v@, i as int, len as int); }
@loop 2
    invariant o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), sc_@.len() >= s.len() / 2, stable(o, s, v@), len == s.len(), tiled(runs@, end as int, len as int), tidy(o, v@, runs@), end == 0 ==> runs@.len() == 1, MIN_RUN <= 100, len > 20
    decreases end
@loop 3
    invariant o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), v@ == va, stable(o, s, v@), len == s.len(), start < end <= len, good(o) ==> falling(o, v@.subrange(start as int, end as int))
    decreases start
@loopenter 3
    proof { grow_falling(o, v@, start as int, end as int); }
@loop 4
    invariant o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), v@ == va, stable(o, s, v@), len == s.len(), start < end <= len, good(o) ==> sorted(o, v@.subrange(start as int, end as int))
    decreases start
@loopenter 4
    proof { grow_sorted(o, v@, start as int, end as int); }
@loop 5
    invariant o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), stable(o, s, v@), len == s.len(), start < end <= len, tiled(runs@, end as int, len as int), tidy(o, v@, runs@), good(o) ==> sorted(o, v@.subrange(start as int, end as int)), MIN_RUN <= 100
    decreases start
@loopenter 5
    let ghost vb = v@;
    proof { put_stable_all(o, s, v@, start - 1, end as int); assert(v@.subrange(start - 1, end as int).subrange(1, end - start + 1) =~= v@.subrange(start as int, end as int)); }
@loopend 5
    proof { tidy_put(o, vb, start as int, v@.subrange(start as int, end as int), runs@, end as int); }
@loopenter 2
    let ghost va = v@;
    let ghost e0 = end as int;
@before vsub ( v , start , end ) . reverse
    proof { put_stable_all(o, s, v@, start as int, end as int); stable_reverse(o, v@.subrange(start as int, end as int)); }
@after vsub ( v , start , end ) . reverse
    proof { tidy_put(o, va, start as int, v@.subrange(start as int, end as int), runs@, end as int); }
@after runs . push
    proof { pushed_run(o, v@, runs0, runs@, e0, runs@.last()); }
@before runs . push
    let ghost runs0 = runs@;
@loop 6
    invariant_except_break o == old(is_less).order(), s == old(v)@, is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), sc_@.len() >= s.len() / 2, stable(o, s, v@), len == s.len(), tiled(runs@, end as int, len as int), tidy(o, v@, runs@), runs@.len() > 0, end < len, len > 20
    ensures is_less.order() == o, is_less.raised() is None, sc_@.len() == old(sc_)@.len(), stable(o, s, v@), tiled(runs@, end as int, len as int), tidy(o, v@, runs@), end == 0 ==> runs@.len() == 1
    decreases runs@.len()
@before merge (
    let ghost vc = v@;
    let ghost runs1 = runs@;
    proof {
        assert(abut(runs@, r as int));
        put_stable_all(o, s, v@, left.start as int, right.start + right.len);
        let m = v@.subrange(left.start as int, right.start + right.len);
        assert(m.subrange(0, left.len as int) =~= run_of(v@, left));
        assert(m.subrange(left.len as int, m.len() as int) =~= run_of(v@, right));
    }
@before return Ok ( ( ) ) ;
    proof { assert(v@.subrange(0, len as int) =~= v@); if len == 1 { assert(sorted(o, v@)); } }
@lastbefore return Ok ( ( ) ) ;
    proof { assert(run_of(v@, runs@[0]) =~= v@); }
@after runs . remove
    proof { joined(o, vc, v@.subrange(left.start as int, right.start + right.len), runs1, runs@, r as int, end as int); }

// ---- the callers' closures
@verbatim
use core::cmp::Ordering;
/// a comparison answering with an ordering
pub trait Compare {
    spec fn order(&self) -> Order;
    spec fn raised(&self) -> Option<MonorubyErr>;
    fn call(&mut self, a: Value, b: Value) -> (r: Result<Ordering>)
        requires old(self).raised() is None
        ensures final(self).order() == old(self).order(),
            match r {
                Ok(x) => final(self).raised() is None && (old(self).order().honest ==> (x == Ordering::Less) == (old(self).order().lt)(a, b)),
                Err(e) => final(self).raised() == Some(e),
            };
}
pub struct Globals;
#[verifier::external_body]
pub struct Executor;
impl Executor {
    pub uninterp spec fn order(&self) -> Order;
    pub uninterp spec fn raised(&self) -> Option<MonorubyErr>;
    #[verifier::external_body]
    pub fn compare_values(&mut self, globals: &mut Globals, a: Value, b: Value) -> (r: Result<Ordering>)
        requires old(self).raised() is None
        ensures final(self).order() == old(self).order(),
            match r {
                Ok(x) => final(self).raised() is None && (old(self).order().honest ==> (x == Ordering::Less) == (old(self).order().lt)(a, b)),
                Err(e) => final(self).raised() == Some(e),
            }
    { unimplemented!() }
}
/// the error that surfaces is the one raised
pub fn surfaced<F: Compare>(r: &Result<()>, f: &F) requires quiet(*r, f.raised()) {}
pub fn surfaced_vm(r: &Result<()>, f: &Executor) requires quiet(*r, f.raised()) {}
/// the closures as values: what they capture
pub struct Asked<'a, F> { pub compare: &'a mut F }
pub struct AskedVm<'a> { pub self_: &'a mut Executor, pub globals: &'a mut Globals }
@end
@impl impl<'a, F: Compare> Less for Asked<'a, F>
@verbatim
    open spec fn order(&self) -> Order { self.compare.order() }
    open spec fn raised(&self) -> Option<MonorubyErr> { self.compare.raised() }
@end
@fn sort_by id=sort_by::f closure=1 nopub
@ctx
@head fn call(&mut self, a: Value, b: Value) -> Result<bool>
@sub compare ( a , b ) ==> self.compare.call(a, b)
@sub ord == std :: cmp :: Ordering :: Less ==> matches!(ord, Ordering::Less)
@sub Result :: Ok ==> Ok
@endimpl
@fn sort_by
    requires old(compare).raised() is None, old(vec)@.len() > 20 ==> old(sc_)@.len() >= old(vec)@.len() / 2
    ensures stable(old(compare).order(), old(vec)@, final(vec)@),
        r is Ok && good(old(compare).order()) ==> sorted(old(compare).order(), final(vec)@)
@sub < F > ( vec : & mut [ Value ] , buf : * mut Value , mut compare : F ) -> Result < ( ) > where F : FnMut ( Value , Value ) -> Result < std :: cmp :: Ordering > , ==> <F: Compare>(vec: &mut [Value], sc_: &mut Vec<Value>, compare: &mut F) -> Result<()>
@lift 1 ==> Asked { compare: compare }
@sub let f = ==> let mut f =
@sub merge_sort ( vec , buf , f ) ==> let r_ = merge_sort(vec, sc_, &mut f); surfaced(&r_, f.compare); r_
@impl impl<'a> Less for AskedVm<'a>
@verbatim
    open spec fn order(&self) -> Order { self.self_.order() }
    open spec fn raised(&self) -> Option<MonorubyErr> { self.self_.raised() }
@end
@fn sort id=Executor::sort::is_less closure=1 nopub
@ctx impl Executor
@head fn call(&mut self, a: Value, b: Value) -> Result<bool>
@sub Executor :: compare_values ( self , globals , a , b ) ==> Executor::compare_values(self.self_, self.globals, a, b)
@sub ord == std :: cmp :: Ordering :: Less ==> matches!(ord, Ordering::Less)
@sub Result :: Ok ==> Ok
@endimpl
@impl impl Executor
@fn sort id=Executor::sort
    requires old(self).raised() is None, old(vec)@.len() > 20 ==> old(sc_)@.len() >= old(vec)@.len() / 2
    ensures stable(old(self).order(), old(vec)@, final(vec)@),
        r is Ok && good(old(self).order()) ==> sorted(old(self).order(), final(vec)@)
@sub buf : * mut Value ==> sc_: &mut Vec<Value>
@lift 1 ==> AskedVm { self_: self, globals: globals }
@sub let is_less = ==> let mut is_less =
@sub merge_sort ( vec , buf , is_less ) ==> let r_ = merge_sort(vec, sc_, &mut is_less); surfaced_vm(&r_, is_less.self_); r_
@endimpl
