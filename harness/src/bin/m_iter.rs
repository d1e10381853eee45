//! Iteration, indexing and slice views against the plain list of entries; the published raw layout.
use rubymap::{map, set, GetDisjointMutError, RubyMap, RubySet};
use std::collections::VecDeque;
use std::ops::Bound;
use vharness::gen::*;
use vharness::keys::*;

type Res = Result<(), String>;
type M = RubyMap<K, V, E, G, R, IdB>;
type S = RubySet<K, E, G, R, IdB>;
type P = (u32, u32);
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
fn len(g: &mut Gen) -> usize {
    if g.small { g.choose(4) as usize } else { g.pick(&[0, 1, 2, 3, 5, 7, 8, 9, 12, 20]) }
}
fn build(g: &mut Gen, n: usize) -> (M, Vec<P>) {
    let hm = if g.small { 0 } else { g.choose(HMODES) };
    let (mut e, mut gg) = (E::default(), G::default());
    let mut m = M::with_capacity_and_hasher(if g.small { 0 } else { g.pick(&[0, 9]) }, IdB);
    let mut v = vec![];
    for i in 0..n as u32 {
        // ascending keys when asked for, otherwise scrambled
        let id = i * 3;
        m.insert(K::new(id, hash_of(hm, id), i), V::new(i * 10), &mut e, &mut gg).unwrap();
        v.push((id, i * 10));
    }
    // a removed entry leaves a hole in the index
    if !g.small && g.choose(3) == 0 && n > 1 {
        let at = g.choose(n as u32) as usize;
        m.shift_remove_index(at, &mut e, &mut gg).unwrap();
        v.remove(at);
    }
    (m, v)
}
fn build_set(g: &mut Gen, n: usize) -> (S, Vec<u32>) {
    let hm = if g.small { 0 } else { g.choose(HMODES) };
    let (mut e, mut gg) = (E::default(), G::default());
    let mut m = S::with_hasher(IdB);
    let mut v = vec![];
    for i in 0..n as u32 {
        m.insert(K::new(i * 3, hash_of(hm, i * 3), i), &mut e, &mut gg).unwrap();
        v.push(i * 3);
    }
    (m, v)
}
/// any interleaving of steps from both ends, then a consuming method
fn run<T, I, X: PartialEq + std::fmt::Debug>(what: &str, mut it: I, want: Vec<X>, g: &mut Gen, f: impl Fn(T) -> X) -> Res
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    let mut q: VecDeque<X> = want.into();
    let steps = g.upto(g.max_ops);
    for _ in 0..steps {
        ensure!(it.len() == q.len() && it.size_hint() == (q.len(), Some(q.len())), "{what}: length report {} with {} left", it.len(), q.len());
        let op = g.choose(4);
        let k = if op >= 2 { if g.small { g.choose(3) as usize } else { g.pick(&[0, 1, 2, 3, 8, 30, usize::MAX]) } } else { 0 };
        let (got, exp) = match op {
            0 => (it.next(), q.pop_front()),
            1 => (it.next_back(), q.pop_back()),
            2 => {
                let got = it.nth(k);
                q.drain(..k.min(q.len()));
                (got, q.pop_front())
            }
            _ => {
                let got = it.nth_back(k);
                let keep = q.len() - k.min(q.len());
                q.truncate(keep);
                (got, q.pop_back())
            }
        };
        let got = got.map(&f);
        ensure!(got == exp, "{what}: step {op}({k}) yields {got:?}, expected {exp:?}");
    }
    ensure!(it.len() == q.len(), "{what}: length report at the end");
    match g.choose(7) {
        0 => drop(it),
        1 => {
            let n = it.count();
            ensure!(n == q.len(), "{what}: count {n}, {} left", q.len());
        }
        2 => {
            let l = it.last().map(&f);
            ensure!(l == q.pop_back(), "{what}: last {l:?}");
        }
        3 => {
            let v: Vec<T> = it.collect();
            let v: VecDeque<X> = v.into_iter().map(&f).collect();
            ensure!(v == q, "{what}: collect {v:?}, expected {q:?}");
        }
        4 => {
            let mut v = vec![];
            it.fold((), |_, x| v.push(f(x)));
            ensure!(VecDeque::from(v) == q, "{what}: fold");
        }
        5 => {
            let v: VecDeque<X> = it.rev().map(&f).collect();
            let r: VecDeque<X> = q.into_iter().rev().collect();
            ensure!(v == r, "{what}: reversed");
        }
        _ => {
            while let Some(x) = it.next() {
                let e = q.pop_front();
                ensure!(Some(f(x)) == e, "{what}: rest");
            }
            ensure!(q.is_empty() && it.next().is_none() && it.next_back().is_none() && it.len() == 0, "{what}: stops early or not fused");
        }
    }
    Ok(())
}
fn kv((k, v): (&K, &V)) -> P {
    (k.s.id, v.v)
}
fn own((k, v): (K, V)) -> P {
    (k.s.id, v.v)
}
fn rows(m: &M) -> Vec<P> {
    m.iter().map(kv).collect()
}
fn c09_iter(g: &mut Gen) -> Res {
    let n = len(g);
    let kind = g.choose(19);
    g.log(|| format!("iterator kind {kind} over {n}"));
    if kind >= 15 {
        let (mut s, v) = build_set(g, n);
        let id = |k: &K| k.s.id;
        match kind {
            15 => run("set iter", s.iter(), v, g, |k: &K| id(k))?,
            16 => run("set slice iter", s.as_slice().iter(), v, g, |k: &K| id(k))?,
            17 => run("set into_iter", s.into_iter(), v, g, |k: K| id(&k))?,
            _ => {
                let (a, b) = span(g, v.len());
                run("set drain", s.drain(a..b, &mut E::default(), &mut G::default()).unwrap(), v[a..b].to_vec(), g, |k: K| id(&k))?;
                let rest: Vec<u32> = s.iter().map(id).collect();
                let want: Vec<u32> = v[..a].iter().chain(&v[b..]).copied().collect();
                ensure!(rest == want, "set after drain({a}..{b}): {rest:?}");
            }
        }
        return Ok(());
    }
    let (mut m, v) = build(g, n);
    let ks: Vec<u32> = v.iter().map(|x| x.0).collect();
    let vs: Vec<u32> = v.iter().map(|x| x.1).collect();
    match kind {
        0 => run("iter", m.iter(), v, g, kv)?,
        1 => run("iter_mut", m.iter_mut(), v, g, |(k, v): (&K, &mut V)| (k.s.id, v.v))?,
        2 => run("keys", m.keys(), ks, g, |k: &K| k.s.id)?,
        3 => run("values", m.values(), vs, g, |v: &V| v.v)?,
        4 => run("values_mut", m.values_mut(), vs, g, |v: &mut V| v.v)?,
        5 => run("into_iter", m.into_iter(), v, g, own)?,
        6 => run("into_keys", m.into_keys(), ks, g, |k: K| k.s.id)?,
        7 => run("into_values", m.into_values(), vs, g, |v: V| v.v)?,
        8 => {
            let (a, b) = span(g, v.len());
            run("drain", m.drain(a..b, &mut E::default(), &mut G::default()).unwrap(), v[a..b].to_vec(), g, own)?;
            let want: Vec<P> = v[..a].iter().chain(&v[b..]).copied().collect();
            ensure!(rows(&m) == want, "after drain({a}..{b}): {:?}", rows(&m));
            let (mut e, mut gg) = (E::default(), G::default());
            for (i, w) in want.iter().enumerate() {
                // lookups agree with the entries that are left
                let k = m.get_index(i).unwrap().0.clone();
                ensure!(m.get_index_of(&k, &mut e, &mut gg).unwrap() == Some(i), "lookup of {w:?} after drain");
            }
        }
        9 => run("slice iter", m.as_slice().iter(), v, g, kv)?,
        10 => run("slice iter_mut", m.as_mut_slice().iter_mut(), v, g, |(k, v): (&K, &mut V)| (k.s.id, v.v))?,
        11 => run("boxed slice", m.into_boxed_slice().into_iter(), v, g, own)?,
        12 => run("boxed slice keys", m.into_boxed_slice().into_keys(), ks, g, |k: K| k.s.id)?,
        13 => run("boxed slice values", m.into_boxed_slice().into_values(), vs, g, |v: V| v.v)?,
        _ => {
            let (a, b) = span(g, v.len());
            let s = m.get_range_mut(a..b).unwrap();
            match g.choose(4) {
                0 => run("range keys", s.keys(), ks[a..b].to_vec(), g, |k: &K| k.s.id)?,
                1 => run("range values", s.values(), vs[a..b].to_vec(), g, |v: &V| v.v)?,
                2 => run("range values_mut", s.values_mut(), vs[a..b].to_vec(), g, |v: &mut V| v.v)?,
                _ => run("range iter", s.into_iter(), v[a..b].to_vec(), g, |(k, v): (&K, &mut V)| (k.s.id, v.v))?,
            }
        }
    }
    Ok(())
}
/// partially consumed iterators report what is left as a slice; keys can be indexed; writes go through
fn c09_rest(g: &mut Gen) -> Res {
    let n = len(g);
    let (mut m, v) = build(g, n);
    let n = v.len();
    let a = g.upto(n);
    let b = g.upto(n - a);
    let rest = v[a..n - b].to_vec();
    g.log(|| format!("{n} entries, {a} from the front and {b} from the back consumed"));
    macro_rules! eat {
        ($it:expr) => {{
            for _ in 0..a {
                $it.next();
            }
            for _ in 0..b {
                $it.next_back();
            }
        }};
    }
    fn sl(s: &map::Slice<K, V>) -> Vec<P> {
        s.iter().map(kv).collect()
    }
    let mut it = m.iter();
    eat!(it);
    ensure!(sl(it.as_slice()) == rest, "iter rest");
    let c: Vec<P> = it.clone().map(kv).collect();
    ensure!(c == rest, "cloned iterator");
    let mut it = m.keys();
    eat!(it);
    for i in 0..rest.len() + 2 {
        let r = silent(|| it[i].s.id);
        match rest.get(i) {
            Some(w) => ensure!(r == Ok(w.0), "keys()[{i}] = {r:?}"),
            None => ensure!(r.is_err(), "keys()[{i}] answered beyond the end"),
        }
    }
    let mut it = m.iter_mut();
    eat!(it);
    ensure!(sl(it.as_slice()) == rest, "iter_mut rest");
    for (_, v) in it.into_slice() {
        v.v += 1;
    }
    let want: Vec<P> = v.iter().enumerate().map(|(i, x)| if i >= a && i < n - b { (x.0, x.1 + 1) } else { *x }).collect();
    ensure!(rows(&m) == want, "writes through iter_mut: {:?}", rows(&m));
    for v in m.values_mut() {
        v.v += 5;
    }
    let want: Vec<P> = want.iter().map(|x| (x.0, x.1 + 5)).collect();
    ensure!(rows(&m) == want, "writes through values_mut");
    let mut d = m.drain(.., &mut E::default(), &mut G::default()).unwrap();
    eat!(d);
    ensure!(sl(d.as_slice()) == want[a..n - b], "drain rest");
    drop(d);
    ensure!(m.is_empty() && m.iter().next().is_none(), "entries left after draining all");
    let (m, v) = build(g, n);
    if v.len() == n {
        let mut it = m.into_iter();
        eat!(it);
        ensure!(sl(it.as_slice()) == v[a..n - b], "into_iter rest");
        for (_, v) in it.as_mut_slice() {
            v.v += 1;
        }
        let out: Vec<P> = it.map(own).collect();
        let w: Vec<P> = v[a..n - b].iter().map(|x| (x.0, x.1 + 1)).collect();
        ensure!(out == w, "into_iter after writing to the rest");
    }
    // empty iterators
    ensure!(map::Iter::<K, V>::default().next().is_none() && map::Keys::<K, V>::default().len() == 0 && set::Iter::<K>::default().next().is_none(), "default iterator yields");
    Ok(())
}
fn span(g: &mut Gen, n: usize) -> (usize, usize) {
    let a = g.upto(n);
    let b = a + g.upto(n - a);
    (a, b)
}
fn bound(g: &mut Gen, n: usize) -> Bound<usize> {
    let i = match g.choose(5) {
        4 => usize::MAX,
        3 => usize::MAX - 1,
        _ => g.upto(n + 2),
    };
    match g.choose(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(i),
        _ => Bound::Excluded(i),
    }
}
/// every range form on maps, sets and slices of them
fn c09_range(g: &mut Gen) -> Res {
    let n = len(g);
    let (mut m, v) = build(g, n);
    let (mut s, sv) = build_set(g, n);
    let r = (bound(g, n), bound(g, n));
    g.log(|| format!("range {r:?} of {n}"));
    // exact arithmetic, no overflow
    let exp = |len: usize| -> Option<(usize, usize)> {
        let a = match r.0 {
            Bound::Unbounded => 0u128,
            Bound::Included(i) => i as u128,
            Bound::Excluded(i) => i as u128 + 1,
        };
        let b = match r.1 {
            Bound::Unbounded => len as u128,
            Bound::Included(i) => i as u128 + 1,
            Bound::Excluded(i) => i as u128,
        };
        if a <= b && b <= len as u128 { Some((a as usize, b as usize)) } else { None }
    };
    fn sl(s: &map::Slice<K, V>) -> Vec<P> {
        s.iter().map(kv).collect()
    }
    fn ss(s: &set::Slice<K>) -> Vec<u32> {
        s.iter().map(|k| k.s.id).collect()
    }
    let e = exp(v.len()).map(|(a, b)| v[a..b].to_vec());
    let es = exp(sv.len()).map(|(a, b)| sv[a..b].to_vec());
    let got = m.get_range(r).map(sl);
    ensure!(got == e, "get_range: {got:?}, expected {e:?}");
    let got = m.as_slice().get_range(r).map(sl);
    ensure!(got == e, "slice get_range: {got:?}");
    let got = m.get_range_mut(r).map(|x| sl(x));
    ensure!(got == e, "get_range_mut: {got:?}");
    let got = m.as_mut_slice().get_range_mut(r).map(|x| sl(x));
    ensure!(got == e, "slice get_range_mut: {got:?}");
    let got = s.get_range(r).map(ss);
    ensure!(got == es, "set get_range: {got:?}, expected {es:?}");
    let got = s.as_slice().get_range(r).map(ss);
    ensure!(got == es, "set slice get_range: {got:?}");
    macro_rules! ix {
        ($r:expr, $e:expr, $es:expr) => {{
            let (e, es): (Option<Vec<P>>, Option<Vec<u32>>) = ($e, $es);
            let got = silent(|| sl(&m[$r])).ok();
            ensure!(got == e, "map index: {got:?}, expected {e:?}");
            let got = silent(|| sl(&m.as_slice()[$r])).ok();
            ensure!(got == e, "slice index: {got:?}, expected {e:?}");
            let got = silent(|| sl(&mut m[$r])).ok();
            ensure!(got == e, "map index_mut: {got:?}, expected {e:?}");
            let got = silent(|| sl(&mut m.as_mut_slice()[$r])).ok();
            ensure!(got == e, "slice index_mut: {got:?}, expected {e:?}");
            let got = silent(|| ss(&s[$r])).ok();
            ensure!(got == es, "set index: {got:?}, expected {es:?}");
            let got = silent(|| ss(&s.as_slice()[$r])).ok();
            ensure!(got == es, "set slice index: {got:?}, expected {es:?}");
        }};
    }
    ix!(r, e.clone(), es.clone());
    match r {
        (Bound::Included(a), Bound::Excluded(b)) => ix!(a..b, e.clone(), es.clone()),
        (Bound::Included(a), Bound::Included(b)) => ix!(a..=b, e.clone(), es.clone()),
        (Bound::Included(a), Bound::Unbounded) => ix!(a.., e.clone(), es.clone()),
        (Bound::Unbounded, Bound::Excluded(b)) => ix!(..b, e.clone(), es.clone()),
        (Bound::Unbounded, Bound::Included(b)) => ix!(..=b, e.clone(), es.clone()),
        (Bound::Unbounded, Bound::Unbounded) => ix!(.., e.clone(), es.clone()),
        _ => {}
    }
    // draining the range: refused exactly when indexing is
    let before = rows(&m);
    let got = silent(|| m.drain(r, &mut E::default(), &mut G::default()).unwrap().map(own).collect::<Vec<P>>()).ok();
    ensure!(got == e, "drain {got:?}, expected {e:?}");
    match exp(before.len()) {
        Some((a, b)) => ensure!(rows(&m) == before[..a].iter().chain(&before[b..]).copied().collect::<Vec<P>>(), "map after drain"),
        None => ensure!(rows(&m) == before, "refused drain changed the map"),
    }
    let got = silent(|| s.drain(r, &mut E::default(), &mut G::default()).unwrap().map(|k| k.s.id).collect::<Vec<u32>>()).ok();
    ensure!(got == es, "set drain {got:?}");
    Ok(())
}
/// positional access, splits, searches, comparison
fn c09_slice(g: &mut Gen) -> Res {
    let n = len(g);
    let (mut m, v) = build(g, n);
    let (s, sv) = build_set(g, n);
    let n = v.len();
    let i = if g.choose(6) == 0 { usize::MAX } else { g.upto(n + 1) };
    let what = g.choose(8);
    g.log(|| format!("slice check {what} at {i} of {n}"));
    fn sl(s: &map::Slice<K, V>) -> Vec<P> {
        s.iter().map(kv).collect()
    }
    fn mk((k, v): (&K, &mut V)) -> P {
        (k.s.id, v.v)
    }
    match what {
        0 => {
            let w = v.get(i).copied();
            ensure!(m.get_index(i).map(kv) == w && m.as_slice().get_index(i).map(kv) == w, "get_index({i})");
            ensure!(m.get_index_mut(i).map(mk) == w && m.as_mut_slice().get_index_mut(i).map(mk) == w, "get_index_mut({i})");
            ensure!(s.get_index(i).map(|k| k.s.id) == sv.get(i).copied() && s.as_slice().get_index(i).map(|k| k.s.id) == sv.get(i).copied(), "set get_index({i})");
            let w1 = w.map(|x| x.1);
            ensure!(silent(|| m[i].v).ok() == w1 && silent(|| m.as_slice()[i].v).ok() == w1, "index {i}");
            ensure!(silent(|| s.as_slice()[i].s.id).ok() == sv.get(i).copied(), "set index {i}");
            let ok = silent(|| m[i].v = 99).is_ok();
            ensure!(ok == w.is_some(), "index_mut {i}");
            let ok = silent(|| m.as_mut_slice()[i].v += 1).is_ok();
            ensure!(ok == w.is_some(), "slice index_mut {i}");
            let want: Vec<P> = v.iter().enumerate().map(|(j, x)| if j == i { (x.0, 100) } else { *x }).collect();
            ensure!(rows(&m) == want, "write by index: {:?}", rows(&m));
            if let Some((_, x)) = m.get_index_mut(i) {
                x.v = 55;
                ensure!(m.get_index(i).unwrap().1.v == 55, "write through get_index_mut");
            }
        }
        1 => {
            let (f, l) = (v.first().copied(), v.last().copied());
            ensure!(m.first().map(kv) == f && m.last().map(kv) == l && m.as_slice().first().map(kv) == f && m.as_slice().last().map(kv) == l, "first/last");
            ensure!(m.first_mut().map(mk) == f && m.last_mut().map(mk) == l && m.as_mut_slice().first_mut().map(mk) == f && m.as_mut_slice().last_mut().map(mk) == l, "first_mut/last_mut");
            ensure!(s.first().map(|k| k.s.id) == sv.first().copied() && s.last().map(|k| k.s.id) == sv.last().copied(), "set first/last");
            ensure!(s.as_slice().first().map(|k| k.s.id) == sv.first().copied() && s.as_slice().last().map(|k| k.s.id) == sv.last().copied(), "set slice first/last");
            ensure!(m.as_slice().len() == n && m.as_slice().is_empty() == (n == 0) && s.as_slice().len() == sv.len() && s.as_slice().is_empty() == sv.is_empty(), "slice len");
        }
        2 => {
            let w = if i <= n { Some((v[..i].to_vec(), v[i..].to_vec())) } else { None };
            let got = silent(|| {
                let (a, b) = m.as_slice().split_at(i);
                (sl(a), sl(b))
            })
            .ok();
            ensure!(got == w, "split_at({i}): {got:?}");
            let got = silent(|| {
                let (a, b) = m.as_mut_slice().split_at_mut(i);
                (sl(a), sl(b))
            })
            .ok();
            ensure!(got == w, "split_at_mut({i})");
            let sw = if i <= sv.len() { Some((sv[..i].to_vec(), sv[i..].to_vec())) } else { None };
            let got = silent(|| {
                let (a, b) = s.as_slice().split_at(i);
                (a.iter().map(|k| k.s.id).collect::<Vec<_>>(), b.iter().map(|k| k.s.id).collect::<Vec<_>>())
            })
            .ok();
            ensure!(got == sw, "set split_at({i})");
        }
        3 => {
            let f = v.split_first().map(|(a, b)| (*a, b.to_vec()));
            let l = v.split_last().map(|(a, b)| (*a, b.to_vec()));
            ensure!(m.as_slice().split_first().map(|(a, b)| (kv(a), sl(b))) == f, "split_first");
            ensure!(m.as_slice().split_last().map(|(a, b)| (kv(a), sl(b))) == l, "split_last");
            ensure!(m.as_mut_slice().split_first_mut().map(|(a, b)| (mk(a), sl(b))) == f, "split_first_mut");
            ensure!(m.as_mut_slice().split_last_mut().map(|(a, b)| (mk(a), sl(b))) == l, "split_last_mut");
            let sf = sv.split_first().map(|(a, b)| (*a, b.to_vec()));
            let slast = sv.split_last().map(|(a, b)| (*a, b.to_vec()));
            ensure!(s.as_slice().split_first().map(|(a, b)| (a.s.id, b.iter().map(|k| k.s.id).collect())) == sf, "set split_first");
            ensure!(s.as_slice().split_last().map(|(a, b)| (a.s.id, b.iter().map(|k| k.s.id).collect())) == slast, "set split_last");
        }
        4 => {
            let x = g.choose(3 * n as u32 + 4);
            let k = K::new(x, 0, 0);
            let w = v.binary_search_by(|p| p.0.cmp(&x));
            ensure!(m.binary_search_keys(&k) == w && m.as_slice().binary_search_keys(&k) == w, "binary_search_keys({x})");
            ensure!(m.binary_search_by(|k, _| k.s.id.cmp(&x)) == w && m.as_slice().binary_search_by(|k, _| k.s.id.cmp(&x)) == w, "binary_search_by({x})");
            let y = x * 10 / 3;
            let wy = v.binary_search_by_key(&y, |p| p.1);
            ensure!(m.binary_search_by_key(&y, |_, v| v.v) == wy && m.as_slice().binary_search_by_key(&y, |_, v| v.v) == wy, "binary_search_by_key({y})");
            let wp = v.partition_point(|p| p.0 < x);
            ensure!(m.partition_point(|k, _| k.s.id < x) == wp && m.as_slice().partition_point(|k, _| k.s.id < x) == wp, "partition_point({x})");
            let ws = sv.binary_search(&x);
            ensure!(s.binary_search(&k) == ws && s.as_slice().binary_search(&k) == ws && s.binary_search_by(|k| k.s.id.cmp(&x)) == ws && s.as_slice().binary_search_by(|k| k.s.id.cmp(&x)) == ws, "set binary_search({x})");
            ensure!(s.binary_search_by_key(&x, |k| k.s.id) == ws && s.as_slice().binary_search_by_key(&x, |k| k.s.id) == ws, "set binary_search_by_key({x})");
            let wp = sv.partition_point(|p| *p < x);
            ensure!(s.partition_point(|k| k.s.id < x) == wp && s.as_slice().partition_point(|k| k.s.id < x) == wp, "set partition_point({x})");
        }
        5 => {
            // comparison of slices with slices and plain lists
            let (a, b) = span(g, n);
            let (c, d) = span(g, n);
            let mut va = v[a..b].to_vec();
            let vb = v[c..d].to_vec();
            let x: RubyMap<u32, u32> = RubyMap::from_iter(v.iter().copied(), &mut (), &mut ()).unwrap();
            let mut y = x.clone();
            if g.flag() && b > a {
                let j = a + g.choose((b - a) as u32) as usize;
                y[j] = 12345;
                va[j - a].1 = 12345;
            }
            let (p, q) = (&y[a..b], &x[c..d]);
            ensure!((p == q) == (va == vb) && (*p == vb[..]) == (va == vb) && (vb[..] == *p) == (va == vb), "slice equality");
            ensure!(p.partial_cmp(q) == va.partial_cmp(&vb) && p.cmp(q) == va.cmp(&vb), "slice ordering");
            if let ([p0], Ok(arr)) = (&va[..], <[P; 1]>::try_from(vb.clone())) {
                ensure!((*p == arr) == (*p0 == arr[0]) && (arr == *p) == (*p0 == arr[0]), "array equality");
            }
            use std::hash::{Hash, Hasher};
            let h = |x: &map::Slice<u32, u32>| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            if p == q {
                ensure!(h(p) == h(q), "equal slices hash differently");
            }
            let bx: Box<map::Slice<u32, u32>> = p.into();
            ensure!(*bx == *p && *bx.clone() == *p && bx.len() == p.len(), "boxed slice");
            let t: RubySet<u32> = RubySet::from_iter(v.iter().map(|x| x.0), &mut (), &mut ()).unwrap();
            let ids: Vec<u32> = v.iter().map(|x| x.0).collect();
            let (p, q) = (&t[a..b], &t[c..d]);
            let (va, vb) = (&ids[a..b], &ids[c..d]);
            ensure!((p == q) == (va == vb) && (*p == *vb) == (va == vb) && (*vb == *p) == (va == vb), "set slice equality");
            ensure!(p.partial_cmp(q) == va.partial_cmp(vb) && p.cmp(q) == va.cmp(vb), "set slice ordering");
            let bx: Box<set::Slice<u32>> = p.into();
            ensure!(*bx == *p && bx.into_iter().eq(va.iter().copied()), "boxed set slice");
        }
        6 => {
            // disjoint mutable access by position
            let mut ix = || if g.choose(12) == 0 { usize::MAX } else { g.upto(n) };
            let is = [ix(), ix(), ix()];
            let k = g.choose(4) as usize;
            fn exp(is: &[usize], n: usize) -> Result<(), GetDisjointMutError> {
                for (j, x) in is.iter().enumerate() {
                    if *x >= n {
                        return Err(GetDisjointMutError::IndexOutOfBounds);
                    }
                    if is[..j].contains(x) {
                        return Err(GetDisjointMutError::OverlappingIndices);
                    }
                }
                Ok(())
            }
            macro_rules! go {
                ($is:expr, $sl:expr) => {{
                    let is = $is;
                    let w = exp(&is, n);
                    let mut writes = vec![];
                    let r = if $sl { m.as_mut_slice().get_disjoint_mut(is) } else { m.get_disjoint_indices_mut(is) };
                    match r {
                        Ok(refs) => {
                            ensure!(w.is_ok(), "disjoint access to {is:?} of {n} granted");
                            for (r, i) in refs.into_iter().zip(is) {
                                ensure!((r.0.s.id, r.1.v) == v[i], "disjoint access to {i} gives {:?}", (r.0.s.id, r.1.v));
                                r.1.v += 1000 + i as u32;
                                writes.push(i);
                            }
                        }
                        Err(e) => {
                            let out = is.iter().any(|x| *x >= n);
                            let twice = is.iter().enumerate().any(|(j, x)| is[..j].contains(x));
                            ensure!(w.is_err(), "disjoint access to {is:?} of {n} refused");
                            ensure!((out && twice) || w.as_ref() == Err(&e), "disjoint access to {is:?} of {n}: {e:?}, expected {w:?}")
                        }
                    }
                    let want: Vec<P> = v.iter().enumerate().map(|(j, x)| if writes.contains(&j) { (x.0, x.1 + 1000 + j as u32) } else { *x }).collect();
                    ensure!(rows(&m) == want, "writes through disjoint references");
                }};
            }
            let via = g.flag();
            match k {
                0 => go!([0usize; 0], via),
                1 => go!([is[0]], via),
                2 => go!([is[0], is[1]], via),
                _ => go!(is, via),
            }
        }
        _ => {
            // disjoint mutable access by key
            let hm = g.choose(1);
            let _ = hm;
            let ids = [g.choose(3 * n as u32 + 2), g.choose(3 * n as u32 + 2), g.choose(3 * n as u32 + 2)];
            let hs: Vec<u64> = ids.iter().map(|id| m.keys().find(|k| k.s.id == *id).map(|k| k.s.h).unwrap_or(0)).collect();
            let ps = [Probe { id: ids[0], h: hs[0] }, Probe { id: ids[1], h: hs[1] }, Probe { id: ids[2], h: hs[2] }];
            let pos: Vec<Option<usize>> = ids.iter().map(|id| v.iter().position(|x| x.0 == *id)).collect();
            let dup = (0..3).any(|a| pos[a].is_some() && pos[..a].contains(&pos[a]));
            let (mut e, mut gg) = (E::default(), G::default());
            let r = silent(|| m.get_disjoint_mut([&ps[0], &ps[1], &ps[2]], &mut e, &mut gg).unwrap().map(|x| x.map(|v| {
                v.v += 1;
                v.v - 1
            })));
            match r {
                Err(_) => ensure!(dup, "get_disjoint_mut refused distinct keys {ids:?}"),
                Ok(r) => {
                    ensure!(!dup, "get_disjoint_mut granted the same entry twice");
                    let w: Vec<Option<u32>> = pos.iter().map(|p| p.map(|p| v[p].1)).collect();
                    ensure!(r.to_vec() == w, "get_disjoint_mut {r:?}, expected {w:?}");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ published layout
#[allow(unsafe_code)]
fn lay<A, B>(g: &mut Gen, what: &str, mk: impl Fn(u32) -> (A, B)) -> Res
where
    A: ruby_traits::RubyEql<(), (), ()> + ruby_traits::RubyHash<(), (), ()> + 'static,
    B: 'static,
{
    let l = rubymap::entries_layout::<A, B, (), (), (), std::collections::hash_map::RandomState>();
    let Some(l) = l else {
        g.log(|| format!("{what}: no layout published"));
        return Ok(());
    };
    ensure!(rubymap::entries_layout::<A, B, (), (), (), std::collections::hash_map::RandomState>() == Some(l), "{what}: layout differs between calls");
    let mut m: RubyMap<A, B> = RubyMap::with_capacity(g.pick(&[0, 0, 1, 8, 9, 30]));
    let steps = g.upto(g.max_ops);
    let mut next = 0;
    for s in 0..=steps {
        if s > 0 {
            match g.choose(9) {
                0..=3 => {
                    let n = 1 + g.choose(12);
                    for _ in 0..n {
                        let (k, v) = mk(next);
                        next += 1;
                        m.insert(k, v, &mut (), &mut ()).unwrap();
                    }
                }
                4 => {
                    m.pop(&mut (), &mut ()).unwrap();
                }
                5 => m.shrink_to_fit(),
                6 => {
                    if !m.is_empty() {
                        let i = g.choose(m.len() as u32) as usize;
                        m.swap_remove_index(i, &mut (), &mut ()).unwrap();
                    }
                }
                7 => m.reserve(g.choose(40) as usize),
                _ => m.clear(),
            }
        }
        g.log(|| format!("{what}: {} entries, capacity {}", m.len(), m.capacity()));
        unsafe {
            let base = &m as *const _ as *const u8;
            ensure!(l.ptr_offset + 8 <= std::mem::size_of_val(&m) && l.len_offset + 8 <= std::mem::size_of_val(&m), "{what}: offset outside the map");
            let len = (base.add(l.len_offset) as *const usize).read();
            ensure!(len == m.len(), "{what}: length read as {len}, is {}", m.len());
            let data = (base.add(l.ptr_offset) as *const *const u8).read();
            for i in 0..len {
                let (k, v) = m.get_index(i).unwrap();
                let b = data.wrapping_add(i * l.bucket_size);
                ensure!(b.wrapping_add(l.key_offset) == k as *const A as *const u8, "{what}: key {i} not where the layout says");
                ensure!(b.wrapping_add(l.value_offset) == v as *const B as *const u8, "{what}: value {i} not where the layout says");
                ensure!(l.key_offset + std::mem::size_of::<A>() <= l.bucket_size && l.value_offset + std::mem::size_of::<B>() <= l.bucket_size, "{what}: key or value outside the entry");
            }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
#[repr(align(64))]
struct Al(u32);
macro_rules! key {
    ($t:ty) => {
        impl ruby_traits::RubyEql<(), (), ()> for $t {
            fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
                Ok(self == o)
            }
        }
        impl ruby_traits::RubyHash<(), (), ()> for $t {
            fn ruby_hash<H: std::hash::Hasher>(&self, st: &mut H, _: &mut (), _: &mut ()) -> Result<(), ()> {
                std::hash::Hash::hash(self, st);
                Ok(())
            }
        }
    };
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Nz(std::num::NonZeroU64);
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct W3([u8; 3]);
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct W128(u128);
#[derive(PartialEq, Eq, Hash)]
struct Bx(Box<u32>);
key!(Al);
key!(Nz);
key!(W3);
key!(W128);
key!(Bx);
fn c11(g: &mut Gen) -> Res {
    let nz = |x: u32| std::num::NonZeroU64::new(x as u64 + 1).unwrap();
    match g.choose(16) {
        0 => lay(g, "u64, u64", |i| (i as u64, i as u64 * 3)),
        1 => lay(g, "NonZero, NonZero", |i| (Nz(nz(i)), Nz(nz(i * 3)))),
        2 => lay(g, "NonZero, u64", |i| (Nz(nz(i)), i as u64)),
        3 => lay(g, "u64, NonZero", |i| (i as u64, nz(i))),
        4 => lay(g, "u8, u64", |i| (i as u8, i as u64)),
        5 => lay(g, "u64, u8", |i| (i as u64, i as u8)),
        6 => lay(g, "u8, u8", |i| (i as u8, 7u8)),
        7 => lay(g, "String, u8", |i| (format!("k{i}"), i as u8)),
        8 => lay(g, "u16, String", |i| (i as u16, format!("v{i}"))),
        9 => lay(g, "(), ()", |_| ((), ())),
        10 => lay(g, "u32, ()", |i| (i, ())),
        11 => lay(g, "(), u64", |i| ((), i as u64)),
        12 => lay(g, "align 64", |i| (Al(i), i)),
        13 => lay(g, "[u8; 3], [u8; 5]", |i| (W3([i as u8, (i >> 8) as u8, 0]), [i as u8; 5])),
        14 => lay(g, "u128, Option<Box>", |i| (W128(i as u128), Some(Box::new(i)))),
        _ => lay(g, "Box, (u8, u32, u16)", |i| (Bx(Box::new(i)), (1u8, i, 2u16))),
    }
}
fn main() {
    main_with(&[
        Plan { name: "C09_iter", f: c09_iter, exhaustive: Some((2, 60000)), random: &[(6, 40000), (20, 10000)] },
        Plan { name: "C09_rest", f: c09_rest, exhaustive: Some((1, 5000)), random: &[(1, 5000)] },
        Plan { name: "C09_range", f: c09_range, exhaustive: Some((1, 20000)), random: &[(1, 20000)] },
        Plan { name: "C09_slice", f: c09_slice, exhaustive: Some((1, 30000)), random: &[(1, 40000)] },
        Plan { name: "C11", f: c11, exhaustive: None, random: &[(10, 6000), (40, 500)] },
    ]);
}
