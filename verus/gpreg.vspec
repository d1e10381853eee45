@include base.inc
@file monoruby/src/codegen.rs
@item enum GP
@pre
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@file monoruby/src/executor.rs
@item struct SlotId
@pre
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@file monoruby/src/bytecodegen.rs
@item enum BinOpK
@pre
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
@file monoruby/src/codegen/jitgen/gp_alloc.rs
@item const GP_ALLOC_SET
@sub & [ GP ] = & [ $a ] ==> [GP; 4] = [$a]
@item struct BinOpInst
@pre
#[derive(Clone, Copy)]
@item enum GpAction
@pre
#[derive(Clone, Copy)]
@item struct Holder
@pre
#[derive(Clone, Copy)]
@item struct GpRegFile
@verbatim
// ---- std's searches over ranges and lists, written out -----------------------------------------------
pub fn find_in<F: Fn(&usize) -> bool>(n: usize, f: F) -> (r: Option<usize>)
    requires forall|i: usize| i < n ==> f.requires((&i,))
    ensures r matches Some(i) ==> i < n && f.ensures((&i,), true) && forall|j: usize| j < i ==> f.ensures((&j,), false),
        r is None ==> forall|j: usize| j < n ==> f.ensures((&j,), false)
{
    let mut i: usize = 0;
    while i < n
        invariant i <= n, forall|i: usize| i < n ==> f.requires((&i,)), forall|j: usize| j < i ==> f.ensures((&j,), false)
        decreases n - i
    {
        if f(&i) { return Some(i); }
        i = i + 1;
    }
    None
}
/// `(0..n).filter(f).min_by_key(g)`: the first of the least
pub fn least_in<F: Fn(&usize) -> bool, G: Fn(&usize) -> u64>(n: usize, f: F, g: G) -> (r: Option<usize>)
    requires forall|i: usize| i < n ==> f.requires((&i,)), forall|i: usize| i < n && f.ensures((&i,), true) ==> g.requires((&i,))
    ensures r matches Some(i) ==> i < n && f.ensures((&i,), true) && exists|k: u64| #[trigger] g.ensures((&i,), k) && forall|j: usize| j < n ==> f.ensures((&j,), false) || exists|l: u64| #[trigger] g.ensures((&j,), l) && k <= l,
        r is None ==> forall|j: usize| j < n ==> f.ensures((&j,), false)
{
    let mut i: usize = 0;
    let mut best: Option<usize> = None;
    let mut k: u64 = 0;
    while i < n
        invariant i <= n, forall|i: usize| i < n ==> f.requires((&i,)), forall|i: usize| i < n && f.ensures((&i,), true) ==> g.requires((&i,)),
            best matches Some(b) ==> b < i && f.ensures((&b,), true) && g.ensures((&b,), k) && forall|j: usize| j < i ==> f.ensures((&j,), false) || exists|l: u64| #[trigger] g.ensures((&j,), l) && k <= l,
            best is None ==> forall|j: usize| j < i ==> f.ensures((&j,), false)
        decreases n - i
    {
        if f(&i) {
            let l = g(&i);
            if best.is_none() || l < k { best = Some(i); k = l; }
        }
        i = i + 1;
    }
    best
}
pub open spec fn somes<T>(o: Seq<Option<T>>) -> Seq<T> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else if let Some(x) = o.last() { somes(o.drop_last()).push(x) } else { somes(o.drop_last()) }
}
pub open spec fn picked<T, F: Fn(usize) -> Option<T>>(f: F, n: usize, r: Seq<T>) -> bool {
    exists|o: Seq<Option<T>>| o.len() == n && (forall|i: usize| i < n ==> f.ensures((i,), #[trigger] o[i as int])) && r == #[trigger] somes(o)
}
/// `(0..n).filter_map(f).collect()`
pub fn pick_in<T, F: Fn(usize) -> Option<T>>(n: usize, f: F) -> (r: Vec<T>)
    requires forall|i: usize| i < n ==> f.requires((i,))
    ensures picked(f, n, r@)
{
    let mut i: usize = 0;
    let mut v: Vec<T> = Vec::new();
    let ghost mut o: Seq<Option<T>> = Seq::empty();
    while i < n
        invariant i <= n, forall|i: usize| i < n ==> f.requires((i,)), o.len() == i, forall|j: usize| j < i ==> f.ensures((j,), #[trigger] o[j as int]), v@ == somes(o)
        decreases n - i
    {
        let x = f(i);
        proof { let ghost p = o.push(x); assert(p.drop_last() =~= o); o = p; }
        if let Some(y) = x { v.push(y); }
        i = i + 1;
    }
    v
}
pub fn position_in<F: Fn(&Option<Holder>) -> bool>(v: &Vec<Option<Holder>>, f: F) -> (r: Option<usize>)
    requires forall|h: &Option<Holder>| f.requires((h,))
    ensures r matches Some(i) ==> i < v@.len() && f.ensures((&v@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        r is None ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|h: &Option<Holder>| f.requires((h,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false)
        decreases v@.len() - i
    {
        if f(&v[i]) { return Some(i); }
        i = i + 1;
    }
    None
}
pub fn all_in<F: Fn(&Option<Holder>) -> bool>(v: &Vec<Option<Holder>>, f: F) -> (r: bool)
    requires forall|h: &Option<Holder>| f.requires((h,))
    ensures r ==> forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), true),
        !r ==> exists|j: int| 0 <= j < v@.len() && f.ensures((&#[trigger] v@[j],), false)
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|h: &Option<Holder>| f.requires((h,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), true)
        decreases v@.len() - i
    {
        if !f(&v[i]) { return false; }
        i = i + 1;
    }
    true
}
pub fn set_position<F: Fn(&GP) -> bool>(f: F) -> (r: Option<usize>)
    requires forall|g: &GP| f.requires((g,))
    ensures r matches Some(i) ==> i < nregs() && f.ensures((&set_at(i as int),), true),
        r is None ==> forall|j: int| 0 <= j < nregs() ==> f.ensures((&#[trigger] set_at(j),), false)
{
    let mut i: usize = 0;
    while i < GP_ALLOC_SET.len()
        invariant i <= nregs(), forall|g: &GP| f.requires((g,)), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] set_at(j),), false)
        decreases nregs() - i
    {
        let g = GP_ALLOC_SET[i];
        assert(g == set_at(i as int));
        if f(&g) { return Some(i); }
        i = i + 1;
    }
    None
}
pub fn among(p: &[GP], g: GP) -> (r: bool) ensures r == p@.contains(g) {
    let mut i: usize = 0;
    while i < p.len() invariant i <= p@.len(), forall|j: int| 0 <= j < i ==> p@[j] != g decreases p@.len() - i {
        if p[i] == g { assert(p@[i as int] == g); return true; }
        i = i + 1;
    }
    false
}
pub fn nones(n: usize) -> (r: Vec<Option<Holder>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] is None {
    let mut v: Vec<Option<Holder>> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] is None decreases n - i { v.push(None); i = i + 1; }
    v
}
/// `&[]` and `&[g]`
pub fn pin0() -> (r: Vec<GP>) ensures r@ == Seq::<GP>::empty() { Vec::new() }
pub fn pin1(g: GP) -> (r: Vec<GP>) ensures r@ == seq![g] { let mut v: Vec<GP> = Vec::new(); v.push(g); assert(v@ =~= seq![g]); v }
/// `h.map(|h| h.slot) == Some(slot)`
pub fn holds(h: &Option<Holder>, s: SlotId) -> (r: bool) ensures r == keeps(*h, s) { match h { Some(x) => x.slot == s, None => false } }

// ---- the register file -------------------------------------------------------------------------------
pub open spec fn nregs() -> int { GP_ALLOC_SET@.len() as int }
pub open spec fn set_at(i: int) -> GP { GP_ALLOC_SET@[i] }
pub open spec fn in_set(g: GP) -> bool { exists|i: int| 0 <= i < nregs() && #[trigger] set_at(i) == g }
pub open spec fn pos(g: GP) -> int { choose|i: int| 0 <= i < nregs() && #[trigger] set_at(i) == g }
pub proof fn pos_at(i: int) requires 0 <= i < nregs() ensures pos(set_at(i)) == i, in_set(set_at(i)) {
    assert(nregs() == 4);
    assert(set_at(0) != set_at(1) && set_at(0) != set_at(2) && set_at(0) != set_at(3) && set_at(1) != set_at(2) && set_at(1) != set_at(3) && set_at(2) != set_at(3));
    assert(set_at(i) == set_at(i));
}
pub open spec fn keeps(o: Option<Holder>, s: SlotId) -> bool { o is Some && (o->0).slot == s }
/// one slot a register, one register a slot
pub open spec fn wf(h: Seq<Option<Holder>>) -> bool {
    h.len() == nregs() && forall|i: int, j: int| 0 <= i < j < h.len() && h[i] is Some && h[j] is Some ==> (#[trigger] h[i]->0).slot != (#[trigger] h[j]->0).slot
}
pub open spec fn without(h: Seq<Option<Holder>>, s: SlotId) -> Seq<Option<Holder>> { Seq::new(h.len(), |i: int| if keeps(h[i], s) { None } else { h[i] }) }
pub open spec fn below(h: Seq<Option<Holder>>, sp: SlotId) -> Seq<Option<Holder>> { Seq::new(h.len(), |i: int| if h[i] is Some && (h[i]->0).slot.0 >= sp.0 { None } else { h[i] }) }
pub open spec fn none_of(h: Seq<Option<Holder>>, s: SlotId) -> bool { forall|i: int| 0 <= i < h.len() ==> !keeps(#[trigger] h[i], s) }
pub open spec fn dirty_at(h: Seq<Option<Holder>>, i: int) -> bool { h[i] is Some && (h[i]->0).dirty }
pub open spec fn spill_of(h: Seq<Option<Holder>>, i: int) -> Option<(GP, SlotId)> { if dirty_at(h, i) { Some((set_at(i), (h[i]->0).slot)) } else { None } }
pub open spec fn dirties(h: Seq<Option<Holder>>, n: int) -> Seq<(GP, SlotId)> decreases n {
    if n <= 0 { Seq::empty() } else if dirty_at(h, n - 1) { dirties(h, n - 1).push((set_at(n - 1), (h[n - 1]->0).slot)) } else { dirties(h, n - 1) }
}
pub proof fn somes_dirty(h: Seq<Option<Holder>>, o: Seq<Option<(GP, SlotId)>>)
    requires o.len() <= h.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] o[i] == spill_of(h, i)
    ensures somes(o) == dirties(h, o.len() as int)
    decreases o.len()
{ if o.len() > 0 { somes_dirty(h, o.drop_last()); } }
pub proof fn one_pick<F: Fn(usize) -> Option<(GP, SlotId)>>(f: F, h: Seq<Option<Holder>>, n: usize, r: Seq<(GP, SlotId)>)
    requires picked(f, n, r), n == h.len(), forall|i: usize, o: Option<(GP, SlotId)>| #[trigger] f.ensures((i,), o) && i < n ==> o == spill_of(h, i as int)
    ensures r == dirties(h, n as int)
{
    let o = choose|o: Seq<Option<(GP, SlotId)>>| o.len() == n && (forall|i: usize| i < n ==> f.ensures((i,), #[trigger] o[i as int])) && r == #[trigger] somes(o);
    assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == spill_of(h, i) by { let k = i as usize; assert(f.ensures((k,), o[k as int])); }
    somes_dirty(h, o);
}
pub open spec fn free_at(h: Seq<Option<Holder>>, p: Seq<GP>, i: int) -> bool { h[i] is None && !p.contains(set_at(i)) }
pub open spec fn room(p: Seq<GP>) -> bool { exists|i: int| 0 <= i < nregs() && !p.contains(#[trigger] set_at(i)) }
pub proof fn room_one(p: Seq<GP>) requires p.len() <= 1 ensures room(p) {
    pos_at(0); pos_at(1);
    if p.contains(set_at(0)) { assert(!p.contains(set_at(1))); }
}
/// register `i` may be handed out: not pinned, and free if any is, otherwise the oldest
pub open spec fn takes(h: Seq<Option<Holder>>, p: Seq<GP>, i: int) -> bool {
    0 <= i < nregs() && !p.contains(set_at(i))
    && (h[i] is Some ==> forall|j: int| 0 <= j < nregs() && !p.contains(#[trigger] set_at(j)) ==> h[j] is Some && (h[i]->0).age <= (h[j]->0).age)
}

// ---- what the actions do -----------------------------------------------------------------------------
pub struct Mach { pub reg: spec_fn(GP) -> int, pub home: spec_fn(SlotId) -> int }
pub uninterp spec fn op(k: BinOpK, a: int, b: int) -> int;
pub open spec fn put_reg(m: Mach, g: GP, v: int) -> Mach { Mach { reg: |x: GP| if x == g { v } else { (m.reg)(x) }, home: m.home } }
pub open spec fn put_home(m: Mach, s: SlotId, v: int) -> Mach { Mach { reg: m.reg, home: |x: SlotId| if x == s { v } else { (m.home)(x) } } }
pub open spec fn act(m: Mach, a: GpAction) -> Mach {
    match a {
        GpAction::Load { slot, reg, guard } => put_reg(m, reg, (m.home)(slot)),
        GpAction::BinOp { kind, dst, lhs, rhs } => put_reg(m, dst, op(kind, (m.reg)(lhs), (m.reg)(rhs))),
        GpAction::Spill { reg, slot } => put_home(m, slot, (m.reg)(reg)),
    }
}
pub open spec fn play(m: Mach, a: Seq<GpAction>) -> Mach decreases a.len() { if a.len() == 0 { m } else { act(play(m, a.drop_last()), a.last()) } }
pub proof fn play_push(m: Mach, a: Seq<GpAction>, x: GpAction) ensures play(m, a.push(x)) == act(play(m, a), x) { assert(a.push(x).drop_last() =~= a); }

// ---- what the instructions mean ----------------------------------------------------------------------
/// what slot `s` should hold after the first `n` instructions, from the stack `v0`
pub open spec fn val(ins: Seq<BinOpInst>, v0: spec_fn(SlotId) -> int, n: int, s: SlotId) -> int decreases n {
    if n <= 0 { v0(s) }
    else if s == ins[n - 1].dst { op(ins[n - 1].kind, val(ins, v0, n - 1, ins[n - 1].lhs), val(ins, v0, n - 1, ins[n - 1].rhs)) }
    else { val(ins, v0, n - 1, s) }
}
/// an instruction pops what is at or above its `next_sp`, its result aside
pub open spec fn live(ins: Seq<BinOpInst>, n: int, s: SlotId) -> bool decreases n {
    if n <= 0 { true } else { s == ins[n - 1].dst || (live(ins, n - 1, s) && s.0 < ins[n - 1].next_sp.0) }
}
pub open spec fn reads_live(ins: Seq<BinOpInst>) -> bool { forall|n: int| 0 <= n < ins.len() ==> live(ins, n, (#[trigger] ins[n]).lhs) && live(ins, n, ins[n].rhs) }
pub open spec fn loc(h: Seq<Option<Holder>>, m: Mach, s: SlotId, v: int) -> bool {
    &&& forall|i: int| 0 <= i < h.len() && keeps(#[trigger] h[i], s) ==> (m.reg)(set_at(i)) == v && (!(h[i]->0).dirty ==> (m.home)(s) == v)
    &&& (none_of(h, s) ==> (m.home)(s) == v)
}
/// every live slot is where the register file says, and in its home unless a register copy is newer
pub open spec fn agree(h: Seq<Option<Holder>>, m: Mach, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool) -> bool {
    wf(h) && forall|s: SlotId| #[trigger] l(s) ==> loc(h, m, s, v(s))
}
pub open spec fn spill_act(h: Seq<Option<Holder>>, i: int) -> Seq<GpAction> {
    if dirty_at(h, i) { seq![GpAction::Spill { reg: set_at(i), slot: (h[i]->0).slot }] } else { Seq::empty() }
}
pub open spec fn flush_acts(h: Seq<Option<Holder>>, n: int) -> Seq<GpAction> decreases n { if n <= 0 { Seq::empty() } else { flush_acts(h, n - 1) + spill_act(h, n - 1) } }
/// giving up register `i`, spilled if newer, loses nothing
pub proof fn evict(h: Seq<Option<Holder>>, m: Mach, a: Seq<GpAction>, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool, i: int)
    requires agree(h, play(m, a), v, l), 0 <= i < h.len()
    ensures agree(h.update(i, None), play(m, a + spill_act(h, i)), v, l), play(m, a + spill_act(h, i)).reg == play(m, a).reg
{
    let h2 = h.update(i, None);
    let m0 = play(m, a);
    let m2 = play(m, a + spill_act(h, i));
    if dirty_at(h, i) {
        let x = GpAction::Spill { reg: set_at(i), slot: (h[i]->0).slot };
        assert(a + spill_act(h, i) =~= a.push(x));
        play_push(m, a, x);
    } else { assert(a + spill_act(h, i) =~= a); }
    assert forall|s: SlotId| #[trigger] l(s) implies loc(h2, m2, s, v(s)) by {
        assert(loc(h, m0, s, v(s)));
        assert forall|j: int| 0 <= j < h2.len() && keeps(#[trigger] h2[j], s) implies (m2.reg)(set_at(j)) == v(s) && (!(h2[j]->0).dirty ==> (m2.home)(s) == v(s)) by {
            assert(j != i && h2[j] == h[j]); assert(keeps(h[j], s));
            if h[i] is Some { if i < j { assert((h[i]->0).slot != (h[j]->0).slot); } else { assert((h[j]->0).slot != (h[i]->0).slot); } }
        }
        if none_of(h2, s) {
            if keeps(h[i], s) { assert((m0.reg)(set_at(i)) == v(s)); }
            else { assert forall|j: int| 0 <= j < h.len() implies !keeps(#[trigger] h[j], s) by { if j != i { assert(h2[j] == h[j]); } } }
        }
    }
    assert(wf(h2)) by {
        assert forall|a_: int, b_: int| 0 <= a_ < b_ < h2.len() && h2[a_] is Some && h2[b_] is Some implies (#[trigger] h2[a_]->0).slot != (#[trigger] h2[b_]->0).slot by { assert(h2[a_] == h[a_] && h2[b_] == h[b_]); }
    }
}
/// a slot loaded from its home into a free register
pub proof fn loaded(h: Seq<Option<Holder>>, m: Mach, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool, i: int, x: Holder)
    requires agree(h, m, v, l), 0 <= i < h.len(), h[i] is None, none_of(h, x.slot), l(x.slot), !x.dirty
    ensures agree(h.update(i, Some(x)), put_reg(m, set_at(i), (m.home)(x.slot)), v, l)
{
    let h2 = h.update(i, Some(x));
    let m2 = put_reg(m, set_at(i), (m.home)(x.slot));
    assert(loc(h, m, x.slot, v(x.slot)));
    assert forall|s: SlotId| #[trigger] l(s) implies loc(h2, m2, s, v(s)) by {
        assert(loc(h, m, s, v(s)));
        assert forall|j: int| 0 <= j < h2.len() && keeps(#[trigger] h2[j], s) implies (m2.reg)(set_at(j)) == v(s) && (!(h2[j]->0).dirty ==> (m2.home)(s) == v(s)) by {
            pos_at(i); pos_at(j);
            if j != i { assert(h2[j] == h[j]); assert(keeps(h[j], s)); }
        }
        if none_of(h2, s) { assert forall|j: int| 0 <= j < h.len() implies !keeps(#[trigger] h[j], s) by { assert(!keeps(h2[j], s)); if j != i { assert(h2[j] == h[j]); } } }
    }
    wf_put(h, i, x);
}
pub proof fn wf_put(h: Seq<Option<Holder>>, i: int, x: Holder)
    requires wf(h), 0 <= i < h.len(), none_of(h, x.slot)
    ensures wf(h.update(i, Some(x)))
{
    let h2 = h.update(i, Some(x));
    assert forall|a: int, b: int| 0 <= a < b < h2.len() && h2[a] is Some && h2[b] is Some implies (#[trigger] h2[a]->0).slot != (#[trigger] h2[b]->0).slot by {
        if a != i { assert(h2[a] == h[a]); assert(!keeps(h[a], x.slot)); } if b != i { assert(h2[b] == h[b]); assert(!keeps(h[b], x.slot)); }
    }
}
/// copies of slots that are no longer live may be dropped
pub proof fn dropped(h: Seq<Option<Holder>>, g: Seq<Option<Holder>>, m: Mach, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool, l2: spec_fn(SlotId) -> bool)
    requires agree(h, m, v, l), g.len() == h.len(), forall|s: SlotId| #[trigger] l2(s) ==> l(s),
        forall|i: int| 0 <= i < h.len() ==> #[trigger] g[i] == h[i] || (g[i] is None && h[i] is Some && !l2((h[i]->0).slot))
    ensures agree(g, m, v, l2)
{
    assert forall|s: SlotId| #[trigger] l2(s) implies loc(g, m, s, v(s)) by {
        assert(l(s)); assert(loc(h, m, s, v(s)));
        assert forall|j: int| 0 <= j < g.len() && keeps(#[trigger] g[j], s) implies (m.reg)(set_at(j)) == v(s) && (!(g[j]->0).dirty ==> (m.home)(s) == v(s)) by { assert(keeps(h[j], s)); }
        if none_of(g, s) { assert forall|j: int| 0 <= j < h.len() implies !keeps(#[trigger] h[j], s) by { assert(!keeps(g[j], s)); } }
    }
    assert forall|a: int, b: int| 0 <= a < b < g.len() && g[a] is Some && g[b] is Some implies (#[trigger] g[a]->0).slot != (#[trigger] g[b]->0).slot by { assert(g[a] == h[a] && g[b] == h[b]); }
}
/// a result put in a free register, its old copies gone
pub proof fn defined(h: Seq<Option<Holder>>, m: Mach, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool, v2: spec_fn(SlotId) -> int, l2: spec_fn(SlotId) -> bool, i: int, x: Holder)
    requires agree(h, m, v, l), 0 <= i < h.len(), h[i] is None, none_of(h, x.slot), x.dirty,
        forall|s: SlotId| #[trigger] l2(s) ==> s == x.slot || (l(s) && v2(s) == v(s))
    ensures agree(h.update(i, Some(x)), put_reg(m, set_at(i), v2(x.slot)), v2, l2)
{
    let h2 = h.update(i, Some(x));
    let m2 = put_reg(m, set_at(i), v2(x.slot));
    assert forall|s: SlotId| #[trigger] l2(s) implies loc(h2, m2, s, v2(s)) by {
        if s != x.slot { assert(l(s)); assert(loc(h, m, s, v(s))); }
        assert forall|j: int| 0 <= j < h2.len() && keeps(#[trigger] h2[j], s) implies (m2.reg)(set_at(j)) == v2(s) && (!(h2[j]->0).dirty ==> (m2.home)(s) == v2(s)) by {
            pos_at(i); pos_at(j);
            if j != i { assert(h2[j] == h[j]); assert(keeps(h[j], s)); assert(s != x.slot); }
        }
        if none_of(h2, s) { assert(!keeps(h2[i], s)); assert forall|j: int| 0 <= j < h.len() implies !keeps(#[trigger] h[j], s) by { assert(!keeps(h2[j], s)); if j != i { assert(h2[j] == h[j]); } } }
    }
    wf_put(h, i, x);
}
pub open spec fn emptied(h: Seq<Option<Holder>>, n: int) -> Seq<Option<Holder>> { Seq::new(h.len(), |i: int| if i < n { None } else { h[i] }) }
pub proof fn flushed(h: Seq<Option<Holder>>, m: Mach, a: Seq<GpAction>, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool, n: int)
    requires agree(h, play(m, a), v, l), 0 <= n <= h.len()
    ensures agree(emptied(h, n), play(m, a + flush_acts(h, n)), v, l)
    decreases n
{
    if n > 0 {
        flushed(h, m, a, v, l, n - 1);
        let g = emptied(h, n - 1);
        evict(g, m, a + flush_acts(h, n - 1), v, l, n - 1);
        assert(g.update(n - 1, None) =~= emptied(h, n));
        assert(spill_act(g, n - 1) == spill_act(h, n - 1));
        assert(a + flush_acts(h, n - 1) + spill_act(g, n - 1) =~= a + flush_acts(h, n));
    } else { assert(emptied(h, 0) =~= h); assert(a + flush_acts(h, 0) =~= a); }
}
/// what bringing slot `s` into a register does
pub open spec fn brings(h: Seq<Option<Holder>>, s: SlotId, p: Seq<GP>, h2: Seq<Option<Holder>>, a: Seq<GpAction>, a2: Seq<GpAction>, r: GP, age: u64) -> bool {
    in_set(r) && if none_of(h, s) {
        takes(h, p, pos(r)) && a2 == (a + spill_act(h, pos(r))).push(GpAction::Load { slot: s, reg: r, guard: true })
            && h2 == h.update(pos(r), Some(Holder { slot: s, dirty: false, age: age }))
    } else { h2 == h && a2 == a && keeps(h[pos(r)], s) }
}
pub proof fn brought(h: Seq<Option<Holder>>, s: SlotId, p: Seq<GP>, h2: Seq<Option<Holder>>, a: Seq<GpAction>, a2: Seq<GpAction>, r: GP, age: u64, m: Mach, v: spec_fn(SlotId) -> int, l: spec_fn(SlotId) -> bool)
    requires brings(h, s, p, h2, a, a2, r, age), agree(h, play(m, a), v, l), l(s)
    ensures agree(h2, play(m, a2), v, l), (play(m, a2).reg)(r) == v(s), forall|q: GP| p.contains(q) ==> (#[trigger] (play(m, a2).reg)(q)) == (play(m, a).reg)(q)
{
    let i = pos(r);
    assert(0 <= i < nregs() && set_at(i) == r);
    assert(loc(h, play(m, a), s, v(s)));
    if none_of(h, s) {
        evict(h, m, a, v, l, i);
        let a1 = a + spill_act(h, i);
        let g = h.update(i, None);
        assert(none_of(g, s)) by { assert forall|j: int| 0 <= j < g.len() implies !keeps(#[trigger] g[j], s) by { if j != i { assert(g[j] == h[j]); } } }
        let x = Holder { slot: s, dirty: false, age: age };
        loaded(g, play(m, a1), v, l, i, x);
        assert(g.update(i, Some(x)) =~= h2);
        play_push(m, a1, GpAction::Load { slot: s, reg: r, guard: true });
        assert(loc(g, play(m, a1), s, v(s)));
    }
}
pub open spec fn values(ins: Seq<BinOpInst>, v0: spec_fn(SlotId) -> int, n: int) -> spec_fn(SlotId) -> int { |s: SlotId| val(ins, v0, n, s) }
pub open spec fn lives(ins: Seq<BinOpInst>, n: int) -> spec_fn(SlotId) -> bool { |s: SlotId| live(ins, n, s) }
pub proof fn started(h: Seq<Option<Holder>>, m: Mach, a: Seq<GpAction>, ins: Seq<BinOpInst>)
    requires wf(h), forall|i: int| 0 <= i < nregs() ==> #[trigger] h[i] is None, a.len() == 0
    ensures agree(h, play(m, a), values(ins, m.home, 0), lives(ins, 0))
{}
/// one instruction
pub proof fn stepped(ins: Seq<BinOpInst>, n: int, m: Mach, h0: Seq<Option<Holder>>, a0: Seq<GpAction>, l: GP, g1: u64, h1: Seq<Option<Holder>>, a1: Seq<GpAction>,
    r: GP, g2: u64, h2: Seq<Option<Holder>>, a2: Seq<GpAction>, d: GP, g6: u64, h6: Seq<Option<Holder>>, a6: Seq<GpAction>)
    requires 0 <= n < ins.len(), reads_live(ins), agree(h0, play(m, a0), values(ins, m.home, n), lives(ins, n)),
        brings(h0, ins[n].lhs, Seq::<GP>::empty(), h1, a0, a1, l, g1), brings(h1, ins[n].rhs, seq![l], h2, a1, a2, r, g2),
        in_set(d), takes(below(without(h2, ins[n].dst), ins[n].next_sp), seq![r], pos(d)),
        a6 == (a2 + spill_act(below(without(h2, ins[n].dst), ins[n].next_sp), pos(d))).push(GpAction::BinOp { kind: ins[n].kind, dst: d, lhs: l, rhs: r }),
        h6 == without(below(without(h2, ins[n].dst), ins[n].next_sp).update(pos(d), None), ins[n].dst).update(pos(d), Some(Holder { slot: ins[n].dst, dirty: true, age: g6 }))
    ensures agree(h6, play(m, a6), values(ins, m.home, n + 1), lives(ins, n + 1))
{
    let x = ins[n];
    let v = values(ins, m.home, n);
    let v2 = values(ins, m.home, n + 1);
    let lv = lives(ins, n);
    let l2 = lives(ins, n + 1);
    let i = pos(d);
    assert(0 <= i < nregs() && set_at(i) == d);
    assert(lv(x.lhs) && lv(x.rhs));
    brought(h0, x.lhs, Seq::<GP>::empty(), h1, a0, a1, l, g1, m, v, lv);
    brought(h1, x.rhs, seq![l], h2, a1, a2, r, g2, m, v, lv);
    assert(seq![l].contains(l)) by { assert(seq![l][0] == l); }
    assert((play(m, a2).reg)(l) == v(x.lhs));
    let h4 = below(without(h2, x.dst), x.next_sp);
    let lm = |s: SlotId| live(ins, n, s) && s != x.dst && s.0 < x.next_sp.0;
    dropped(h2, h4, play(m, a2), v, lv, lm);
    evict(h4, m, a2, v, lm, i);
    let a5 = a2 + spill_act(h4, i);
    let h5 = h4.update(i, None);
    play_push(m, a5, GpAction::BinOp { kind: x.kind, dst: d, lhs: l, rhs: r });
    assert(none_of(h5, x.dst)) by { assert forall|j: int| 0 <= j < h5.len() implies !keeps(#[trigger] h5[j], x.dst) by { if j != i { assert(h5[j] == h4[j]); } } }
    assert(without(h5, x.dst) =~= h5) by { assert forall|j: int| 0 <= j < h5.len() implies without(h5, x.dst)[j] == #[trigger] h5[j] by {} }
    let y = Holder { slot: x.dst, dirty: true, age: g6 };
    assert(v2(x.dst) == op(x.kind, v(x.lhs), v(x.rhs)));
    defined(h5, play(m, a5), v, lm, v2, l2, i, y);
}
/// instructions are not zero-sized
#[verifier::external_body]
pub proof fn in_memory(s: &[BinOpInst]) ensures s@.len() * 8 <= isize::MAX {}
@end

@impl impl GpRegFile
@fn new
    ensures r.holder@.len() == nregs(), forall|i: int| 0 <= i < nregs() ==> #[trigger] r.holder@[i] is None, wf(r.holder@), r.clock == 0
@sub vec ! [ None ; GP_ALLOC_SET . len ( ) ] ==> nones(GP_ALLOC_SET.len())

@fn is_empty
    ensures r == forall|i: int| 0 <= i < self.holder@.len() ==> #[trigger] self.holder@[i] is None
@sub self . holder . iter ( ) . all ( $f ) ==> all_in(&self.holder, $f)
@closure 1 (&Option<Holder>) -> (o: bool)
    ensures o == (*h is None)

@fn dirty_residents
    requires wf(self.holder@)
    ensures r@ == dirties(self.holder@, nregs())
@sub ( 0 .. self . holder . len ( ) ) . filter_map ( $f ) . collect ( ) ==> { let f_ = $f; let v_ = pick_in(self.holder.len(), f_); proof { one_pick(f_, self.holder@, self.holder.len(), v_@); } v_ }
@closure 1 (usize) -> (o: Option<(GP, SlotId)>)
    requires i < self.holder@.len(), wf(self.holder@)
    ensures o == spill_of(self.holder@, i as int)

@fn take_dirty_spills
    requires wf(old(self).holder@)
    ensures r@ == dirties(old(self).holder@, nregs()), wf(final(self).holder@), forall|i: int| 0 <= i < nregs() ==> #[trigger] final(self).holder@[i] is None, final(self).clock == old(self).clock
@sub for h in self . holder . iter_mut ( ) { ==> let n_ = self.holder.len(); for j_ in 0 .. n_ {
@sub * h = None ==> self.holder[j_] = None
@loop 1
    invariant self.holder@.len() == nregs(), n_ == nregs(), forall|i: int| 0 <= i < j_ ==> #[trigger] self.holder@[i] is None, self.clock == old(self).clock

@fn tick
    requires old(self).clock < u64::MAX
    ensures r == old(self).clock + 1, final(self).clock == r, final(self).holder == old(self).holder

@fn index_of
    requires in_set(reg)
    ensures r == pos(reg), 0 <= r < nregs()
@sub GP_ALLOC_SET . iter ( ) . position ( $f ) . unwrap ( ) ==> { let i_ = set_position($f).unwrap(); proof { pos_at(i_ as int); } i_ }
@closure 1 (&GP) -> (o: bool)
    ensures o == (*r_ == reg)

@fn is_free
    requires wf(self.holder@), in_set(reg)
    ensures r == (self.holder@[pos(reg)] is None)

@fn reg_of
    requires wf(self.holder@)
    ensures r matches Some(g) ==> in_set(g) && keeps(self.holder@[pos(g)], slot), r is None ==> none_of(self.holder@, slot)
@sub self . holder . iter ( ) . position ( $f ) . map ( $g ) ==> match position_in(&self.holder, $f) { Some(i) => { proof { pos_at(i as int); } Some(GP_ALLOC_SET[i]) }, None => None }
@sub h . map ( | h | h . slot ) == Some ( slot ) ==> holds(h, slot)
@closure 1 (&Option<Holder>) -> (o: bool)
    ensures o == keeps(*h, slot)

@fn dirty_reg_of
    requires wf(self.holder@)
    ensures r matches Some(g) ==> in_set(g) && keeps(self.holder@[pos(g)], slot) && dirty_at(self.holder@, pos(g)),
        r is None ==> forall|i: int| 0 <= i < nregs() ==> !(keeps(#[trigger] self.holder@[i], slot) && dirty_at(self.holder@, i))
@sub self . holder . iter ( ) . position ( $f ) . map ( $g ) ==> match position_in(&self.holder, $f) { Some(i) => { proof { pos_at(i as int); } Some(GP_ALLOC_SET[i]) }, None => None }
@sub matches ! ( h , $p if * s == slot ) ==> match h { $p => *s == slot, _ => false }
@closure 1 (&Option<Holder>) -> (o: bool)
    ensures o == (keeps(*h, slot) && (*h)->0.dirty)

@fn find_free
    requires wf(self.holder@)
    ensures r matches Some(g) ==> in_set(g) && free_at(self.holder@, pinned@, pos(g)),
        r is None ==> forall|i: int| 0 <= i < nregs() ==> !(self.holder@[i] is None && !pinned@.contains(#[trigger] set_at(i)))
@sub ( 0 .. self . holder . len ( ) ) . find ( $f ) . map ( $g ) ==> { let f_ = $f; let o_ = find_in(self.holder.len(), f_); proof { assert forall|i: int| o_ is None && 0 <= i < nregs() implies !(self.holder@[i] is None && !pinned@.contains(#[trigger] set_at(i))) by { let k = i as usize; assert(f_.ensures((&k,), false)); } } match o_ { Some(i) => { proof { pos_at(i as int); } Some(GP_ALLOC_SET[i]) }, None => None } }
@sub pinned . contains ( & GP_ALLOC_SET [ i ] ) ==> among(pinned, GP_ALLOC_SET[i])
@closure 1 (&usize) -> (o: bool)
    requires *i_ < self.holder@.len(), wf(self.holder@)
    ensures o == free_at(self.holder@, pinned@, *i_ as int)

@fn alloc_reg
    requires wf(old(self).holder@), room(pinned@)
    ensures in_set(r.0), takes(old(self).holder@, pinned@, pos(r.0)), final(self).holder@ == old(self).holder@.update(pos(r.0), None),
        r.1 == spill_of(old(self).holder@, pos(r.0)), final(self).clock == old(self).clock
@sub ( 0 .. self . holder . len ( ) ) . filter ( $f ) . min_by_key ( $g ) ==> { let f_ = $f; let g_ = $g; let o_ = least_in(self.holder.len(), f_, g_); proof { let w = choose|i: int| 0 <= i < nregs() && !pinned@.contains(#[trigger] set_at(i)); let k = w as usize; assert(!f_.ensures((&k,), false)); pos_at(o_->0 as int); assert forall|i: int| 0 <= i < nregs() && !pinned@.contains(#[trigger] set_at(i)) implies (self.holder@[o_->0 as int]->0).age <= (self.holder@[i]->0).age by { let k = i as usize; assert(!f_.ensures((&k,), false)); } } o_ }
@sub pinned . contains ( & GP_ALLOC_SET [ i ] ) ==> among(pinned, GP_ALLOC_SET[i])
@closure 1 (&usize) -> (o: bool)
    requires *i_ < self.holder@.len(), wf(self.holder@)
    ensures o == !pinned@.contains(set_at(*i_ as int))
@closure 2 (&usize) -> (o: u64)
    requires *i_ < self.holder@.len(), self.holder@[*i_ as int] is Some
    ensures o == (self.holder@[*i_ as int]->0).age

@fn alloc
    requires wf(old(self).holder@), room(pinned@)
    ensures in_set(r), takes(old(self).holder@, pinned@, pos(r)), final(self).holder@ == old(self).holder@.update(pos(r), None),
        final(out)@ == old(out)@ + spill_act(old(self).holder@, pos(r)), final(self).clock == old(self).clock

@fn bind
    requires wf(old(self).holder@), in_set(reg), old(self).clock < u64::MAX
    ensures final(self).holder@ == without(old(self).holder@, slot).update(pos(reg), Some(Holder { slot: slot, dirty: dirty, age: (old(self).clock + 1) as u64 })),
        wf(final(self).holder@), final(self).clock == old(self).clock + 1
@sub for h in self . holder . iter_mut ( ) { ==> for j_ in 0 .. self.holder.len() { let h = self.holder[j_];
@sub h . map ( | h | h . slot ) == Some ( slot ) ==> holds(&h, slot)
@sub * h = None ==> self.holder[j_] = None
@loop 1
    invariant self.holder@.len() == nregs(), self.clock == old(self).clock, old(self).holder@.len() == nregs(),
        forall|i: int| 0 <= i < nregs() ==> #[trigger] self.holder@[i] == (if i < j_ && keeps(old(self).holder@[i], slot) { None } else { old(self).holder@[i] })

@fn sync
    requires wf(old(self).holder@)
    ensures final(self).clock == old(self).clock, wf(final(self).holder@),
        r is None ==> none_of(old(self).holder@, slot) && final(self).holder@ == old(self).holder@,
        r matches Some(g) ==> in_set(g) && keeps(old(self).holder@[pos(g)], slot)
            && final(self).holder@ == old(self).holder@.update(pos(g), Some(Holder { slot: slot, dirty: false, age: (old(self).holder@[pos(g)]->0).age }))
@sub self . holder . iter ( ) . position ( $f ) ? ==> match position_in(&self.holder, $f) { Some(i_) => i_, None => { return None; } }
@sub h . map ( | h | h . slot ) == Some ( slot ) ==> holds(h, slot)
@sub self . holder [ idx ] . as_mut ( ) . unwrap ( ) . dirty = false ==> { let mut h_ = self.holder[idx].unwrap(); h_.dirty = false; self.holder[idx] = Some(h_); proof { pos_at(idx as int); } }
@closure 1 (&Option<Holder>) -> (o: bool)
    ensures o == keeps(*h, slot)

@fn free_above_sp
    requires wf(old(self).holder@)
    ensures final(self).holder@ == below(old(self).holder@, sp), wf(final(self).holder@), final(self).clock == old(self).clock
@sub for h in self . holder . iter_mut ( ) { ==> for j_ in 0 .. self.holder.len() { let h = self.holder[j_];
@sub if let Some ( held ) = * h && held . slot >= sp { ==> if h.is_some() && h.unwrap().slot.0 >= sp.0 {
@sub * h = None ==> self.holder[j_] = None
@loop 1
    invariant self.holder@.len() == nregs(), self.clock == old(self).clock, old(self).holder@.len() == nregs(),
        forall|i: int| 0 <= i < nregs() ==> #[trigger] self.holder@[i] == (if i < j_ { below(old(self).holder@, sp)[i] } else { old(self).holder@[i] })

@fn invalidate
    requires wf(old(self).holder@)
    ensures final(self).holder@ == without(old(self).holder@, slot), wf(final(self).holder@), none_of(final(self).holder@, slot), final(self).clock == old(self).clock
@sub for h in self . holder . iter_mut ( ) { ==> for j_ in 0 .. self.holder.len() { let h = self.holder[j_];
@sub h . map ( | h | h . slot ) == Some ( slot ) ==> holds(&h, slot)
@sub * h = None ==> self.holder[j_] = None
@loop 1
    invariant self.holder@.len() == nregs(), self.clock == old(self).clock, old(self).holder@.len() == nregs(),
        forall|i: int| 0 <= i < nregs() ==> #[trigger] self.holder@[i] == (if i < j_ && keeps(old(self).holder@[i], slot) { None } else { old(self).holder@[i] })
@endimpl

@fn ensure
    requires wf(old(rf).holder@), old(rf).clock < u64::MAX, room(pinned@)
    ensures brings(old(rf).holder@, slot, pinned@, final(rf).holder@, old(out)@, final(out)@, r, (old(rf).clock + 1) as u64), wf(final(rf).holder@),
        old(rf).clock <= final(rf).clock <= old(rf).clock + 1
@enter
    let ghost h0 = rf.holder@;
    let ghost c0 = rf.clock;
@after rf . bind ( reg , slot , false ) ;
    proof { assert(rf.holder@ =~= h0.update(pos(reg), Some(Holder { slot: slot, dirty: false, age: (c0 + 1) as u64 }))); }

@fn flush_dirty
    requires wf(old(rf).holder@)
    ensures final(out)@ == old(out)@ + flush_acts(old(rf).holder@, nregs()), wf(final(rf).holder@), forall|i: int| 0 <= i < nregs() ==> #[trigger] final(rf).holder@[i] is None, final(rf).clock == old(rf).clock
@loop 1
    invariant old(rf).holder@.len() == nregs(), rf.holder@ == emptied(old(rf).holder@, i as int), out@ == old(out)@ + flush_acts(old(rf).holder@, i as int), rf.clock == old(rf).clock

@fn allocate_run
    requires reads_live(insts@)
    ensures forall|m: Mach, s: SlotId| live(insts@, insts@.len() as int, s) ==> #[trigger] (play(m, r@).home)(s) == val(insts@, m.home, insts@.len() as int, s)
@sub & [ ] ==> pin0().as_slice()
@sub & [ lhs_reg ] ==> pin1(lhs_reg).as_slice()
@sub & [ rhs_reg ] ==> pin1(rhs_reg).as_slice()
@enter
    proof { in_memory(insts); }
@before for inst in insts
    proof { assert forall|m: Mach| agree(rf.holder@, #[trigger] play(m, out@), values(insts@, m.home, 0), lives(insts@, 0)) by { started(rf.holder@, m, out@, insts@); } }
@loop 1
    invariant _n1 == insts@.len(), wf(rf.holder@), rf.clock <= 3 * _k1, insts@.len() * 8 <= isize::MAX, reads_live(insts@),
        forall|m: Mach| agree(rf.holder@, #[trigger] play(m, out@), values(insts@, m.home, _k1 as int), lives(insts@, _k1 as int))
@loopenter 1
    let ghost h0 = rf.holder@;
    let ghost a0 = out@;
    let ghost c0 = rf.clock;
    proof { room_one(Seq::<GP>::empty()); assert forall|g: GP| room(#[trigger] seq![g]) by { room_one(seq![g]); } }
@before let rhs_reg =
    let ghost h1 = rf.holder@;
    let ghost a1 = out@;
    let ghost c1 = rf.clock;
@before rf . invalidate ( inst . dst ) ;
    let ghost h2 = rf.holder@;
    let ghost a2 = out@;
@loopend 1
    proof {
        assert forall|m: Mach| agree(rf.holder@, #[trigger] play(m, out@), values(insts@, m.home, _k1 + 1), lives(insts@, _k1 + 1)) by {
            assert(agree(h0, play(m, a0), values(insts@, m.home, _k1 as int), lives(insts@, _k1 as int)));
            stepped(insts@, _k1 as int, m, h0, a0, lhs_reg, (c0 + 1) as u64, h1, a1, rhs_reg, (c1 + 1) as u64, h2, a2, dst_reg, rf.clock, rf.holder@, out@);
        }
    }
@before flush_dirty ( & mut rf , & mut out ) ;
    let ghost h9 = rf.holder@;
    let ghost a9 = out@;
@after flush_dirty ( & mut rf , & mut out ) ;
    proof {
        let n_ = insts@.len() as int;
        assert forall|m: Mach, s: SlotId| live(insts@, n_, s) implies #[trigger] (play(m, out@).home)(s) == val(insts@, m.home, n_, s) by {
            assert(agree(h9, play(m, a9), values(insts@, m.home, n_), lives(insts@, n_)));
            flushed(h9, m, a9, values(insts@, m.home, n_), lives(insts@, n_), nregs());
            assert(lives(insts@, n_)(s));
            assert(none_of(emptied(h9, nregs()), s));
        }
    }
