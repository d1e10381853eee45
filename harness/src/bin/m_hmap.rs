//! HashMap and HashSet with fallible keys against a mathematical map.
use hashbrown::hash_map::{Entry, EntryRef, HashMap};
use hashbrown::hash_set::{self, HashSet};
use ruby_traits::RubyEql;
use std::collections::BTreeMap;
use vharness::gen::*;
use vharness::keys::*;

type Res = Result<(), String>;
type M = HashMap<K, V, E, G, R, IdB>;
type S = HashSet<K, E, G, R, IdB>;
/// a hash builder with state
#[derive(Clone)]
struct SeedB(u64);
struct SeedH(u64);
impl std::hash::Hasher for SeedH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
        }
    }
}
impl std::hash::BuildHasher for SeedB {
    type Hasher = SeedH;
    fn build_hasher(&self) -> SeedH {
        SeedH(self.0.wrapping_mul(0x1234_5678_9abc_def1))
    }
}
/// id -> (key instance, value)
type Model = BTreeMap<u32, (u32, u32)>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
struct W {
    m: M,
    model: Model,
    hm: u32,
    ids: u32,
    inst: u32,
    e: E,
    g: G,
}
fn rows(m: &M) -> Vec<(u32, u32, u32)> {
    let mut v: Vec<_> = m.iter().map(|(k, v)| (k.s.id, k.inst, v.v)).collect();
    v.sort();
    v
}
fn flat(m: &Model) -> Vec<(u32, u32, u32)> {
    m.iter().map(|(k, v)| (*k, v.0, v.1)).collect()
}
/// every element once, with the right length before each step
fn exact<T, I: ExactSizeIterator<Item = T>, F: FnMut(T) -> X, X: Ord>(what: &str, mut it: I, n: usize, g: &mut Gen, mut f: F) -> Result<Vec<X>, String> {
    let mut out = vec![];
    let upto = if g.flag() { n + 1 } else { g.upto(n.min(10)) };
    while out.len() < upto {
        ensure!(it.len() == n - out.len() && it.size_hint() == (n - out.len(), Some(n - out.len())), "{what}: {} left of {n} after {}", it.len(), out.len());
        match it.next() {
            Some(x) => out.push(f(x)),
            None => break,
        }
    }
    it.fold((), |_, x| out.push(f(x)));
    ensure!(out.len() == n, "{what} yields {} of {n}", out.len());
    out.sort();
    Ok(out)
}
impl W {
    fn check(&mut self) -> Res {
        let want = flat(&self.model);
        let got = rows(&self.m);
        ensure!(got == want, "map holds {got:?}, expected {want:?}");
        ensure!(self.m.len() == want.len() && self.m.is_empty() == want.is_empty(), "len");
        ensure!(self.m.capacity() >= self.m.len(), "capacity below len");
        for id in 0..self.ids.min(25) {
            let q = Probe { id, h: hash_of(self.hm, id) };
            let w = self.model.get(&id);
            let got = self.m.get_key_value(&q, &mut self.e, &mut self.g).unwrap().map(|(k, v)| (k.inst, v.v));
            ensure!(got.as_ref() == w, "get({id}) = {got:?}, expected {w:?}");
        }
        if let Some(e) = reg_err() {
            return Err(e);
        }
        Ok(())
    }
    fn k(&mut self, id: u32) -> K {
        self.inst += 1;
        K::new(id, hash_of(self.hm, id), self.inst)
    }
    fn q(&self, id: u32) -> Probe {
        Probe { id, h: hash_of(self.hm, id) }
    }
    fn op_insert(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let how = g.choose(3);
        g.log(|| format!("insert({id}) how {how}"));
        let k = self.k(id);
        let (inst, v) = (k.inst, self.inst + 1000);
        let old = self.model.get(&id).copied();
        match how {
            0 | 1 => {
                let r = self.m.insert(k, V::new(v), &mut self.e, &mut self.g).unwrap().map(|v| v.v);
                ensure!(r == old.map(|o| o.1), "insert returns {r:?}");
                self.model.entry(id).and_modify(|x| x.1 = v).or_insert((inst, v));
            }
            _ => {
                match self.m.try_insert(k, V::new(v), &mut self.e, &mut self.g).unwrap() {
                    Ok(x) => ensure!(x.v == v && old.is_none(), "try_insert succeeds over {old:?}"),
                    Err(o) => {
                        ensure!(o.value.v == v && Some((o.entry.key().inst, o.entry.get().v)) == old, "try_insert refuses with another entry")
                    }
                }
                self.model.entry(id).or_insert((inst, v));
            }
        }
        Ok(())
    }
    fn op_fill(&mut self, g: &mut Gen) -> Res {
        let n = 1 + g.choose(30);
        g.log(|| format!("extend({n})"));
        let before = self.inst;
        let ids = self.ids;
        let hm = self.hm;
        let items: Vec<(u32, u32)> = (1..=n).map(|i| ((before + i) % ids, before + i)).collect();
        for (id, i) in &items {
            self.model.entry(*id).and_modify(|x| x.1 = i + 1000).or_insert((*i, i + 1000));
        }
        self.inst += n;
        self.m.extend(items.into_iter().map(|(id, i)| (K::new(id, hash_of(hm, id), i), V::new(i + 1000))), &mut self.e, &mut self.g).unwrap();
        Ok(())
    }
    fn op_get(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let how = g.choose(4);
        g.log(|| format!("get({id}) how {how}"));
        let q = self.q(id);
        let want = self.model.get(&id).copied();
        let nv = self.inst + 5000;
        match how {
            0 => {
                let r = self.m.get(&q, &mut self.e, &mut self.g).unwrap().map(|v| v.v);
                ensure!(r == want.map(|w| w.1), "get {r:?}");
            }
            1 => {
                let r = self.m.contains_key(&q, &mut self.e, &mut self.g).unwrap();
                ensure!(r == want.is_some(), "contains_key {r}");
            }
            2 => {
                if let Some(v) = self.m.get_mut(&q, &mut self.e, &mut self.g).unwrap() {
                    ensure!(Some(v.v) == want.map(|w| w.1), "get_mut {}", v.v);
                    v.v = nv;
                    self.model.get_mut(&id).unwrap().1 = nv;
                } else {
                    ensure!(want.is_none(), "get_mut misses");
                }
            }
            _ => {
                let k = self.k(id);
                if let Some((kk, v)) = self.m.get_key_value_mut(&k, &mut self.e, &mut self.g).unwrap() {
                    ensure!(Some((kk.inst, v.v)) == want, "get_key_value_mut");
                    v.v = nv;
                    self.model.get_mut(&id).unwrap().1 = nv;
                } else {
                    ensure!(want.is_none(), "get_key_value_mut misses");
                }
            }
        }
        Ok(())
    }
    fn op_remove(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let ent = g.flag();
        g.log(|| format!("remove({id}) entry {ent}"));
        let q = self.q(id);
        let want = self.model.remove(&id);
        if ent {
            let r = self.m.remove_entry(&q, &mut self.e, &mut self.g).unwrap().map(|(k, v)| (k.inst, v.v));
            ensure!(r == want, "remove_entry {r:?}");
        } else {
            let r = self.m.remove(&q, &mut self.e, &mut self.g).unwrap().map(|v| v.v);
            ensure!(r == want.map(|w| w.1), "remove {r:?}");
        }
        Ok(())
    }
    fn op_entry(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let how = g.choose(16);
        g.log(|| format!("entry({id}) how {how}"));
        let k = self.k(id);
        let inst = k.inst;
        let nv = inst + 1000;
        let old = self.model.get(&id).copied();
        let en = self.m.entry(k, &mut self.e, &mut self.g).unwrap();
        ensure!(matches!(en, Entry::Occupied(_)) == old.is_some(), "entry kind");
        ensure!(en.key().s.id == id, "entry key");
        let model = &mut self.model;
        match how {
            0 => {
                let o = en.insert(V::new(nv));
                ensure!(o.get().v == nv && o.key().s.id == id, "entry insert");
                model.insert(id, (old.map_or(inst, |o| o.0), nv));
            }
            1 => {
                let v = en.or_insert(V::new(nv));
                ensure!(v.v == old.map_or(nv, |o| o.1), "or_insert");
                model.entry(id).or_insert((inst, nv));
            }
            2 => {
                let v = en.or_insert_with(|| V::new(nv));
                ensure!(v.v == old.map_or(nv, |o| o.1), "or_insert_with");
                v.v += 7;
                let w = v.v;
                model.entry(id).or_insert((inst, nv)).1 = w;
            }
            3 => {
                let v = en.or_insert_with_key(|k| V::new(k.inst + 1000));
                ensure!(v.v == old.map_or(nv, |o| o.1), "or_insert_with_key");
                model.entry(id).or_insert((inst, nv));
            }
            4 => {
                let en = en.and_modify(|v| v.v = nv);
                ensure!(matches!(en, Entry::Occupied(_)) == old.is_some(), "and_modify kind");
                if let Some(o) = model.get_mut(&id) {
                    o.1 = nv
                }
            }
            5 => {
                let v = en.or_default();
                ensure!(v.v == old.map_or(424242, |o| o.1), "or_default");
                model.entry(id).or_insert((inst, 424242));
            }
            6 | 7 => {
                let keep = how == 6;
                let mut seen = None;
                let en = en.and_replace_entry_with(|k, v| {
                    seen = Some((k.inst, v.v));
                    if keep { Some(V::new(nv)) } else { None }
                });
                ensure!(seen == old, "and_replace_entry_with sees {seen:?}");
                ensure!(matches!(en, Entry::Occupied(_)) == (old.is_some() && keep), "and_replace_entry_with kind");
                match en {
                    Entry::Occupied(o) => {
                        ensure!(Some(o.key().inst) == old.map(|o| o.0) && o.get().v == nv, "replaced entry");
                        model.get_mut(&id).unwrap().1 = nv;
                    }
                    Entry::Vacant(v) => {
                        ensure!(v.key().inst == old.map_or(inst, |o| o.0), "key handed back");
                        model.remove(&id);
                        if g.flag() {
                            let ki = v.key().inst;
                            v.insert(V::new(nv + 1));
                            model.insert(id, (ki, nv + 1));
                        } else {
                            let k = v.into_key();
                            ensure!(k.s.id == id, "into_key");
                        }
                    }
                }
            }
            8 => match en {
                Entry::Occupied(o) => {
                    let (k, v) = o.remove_entry();
                    ensure!(Some((k.inst, v.v)) == old, "remove_entry");
                    model.remove(&id);
                }
                Entry::Vacant(v) => {
                    let o = v.insert_entry(V::new(nv));
                    ensure!(o.get().v == nv && o.key().inst == inst, "insert_entry");
                    model.insert(id, (inst, nv));
                }
            },
            9 => match en {
                Entry::Occupied(mut o) => {
                    let r = o.insert(V::new(nv)).v;
                    ensure!(Some(r) == old.map(|o| o.1) && o.get().v == nv, "occupied insert");
                    o.get_mut().v += 1;
                    o.into_mut().v += 1;
                    model.get_mut(&id).unwrap().1 = nv + 2;
                }
                Entry::Vacant(v) => {
                    v.insert(V::new(nv)).v += 1;
                    model.insert(id, (inst, nv + 1));
                }
            },
            10 => match en {
                Entry::Occupied(o) => {
                    ensure!(Some(o.remove().v) == old.map(|o| o.1), "occupied remove");
                    model.remove(&id);
                }
                Entry::Vacant(v) => drop(v),
            },
            _ => {
                drop(en);
                // the same through a borrowed key
                let q = Probe { id, h: hash_of(self.hm, id) };
                let en = self.m.entry_ref(&q, &mut self.e, &mut self.g).unwrap();
                ensure!(matches!(en, EntryRef::Occupied(_)) == old.is_some(), "entry_ref kind");
                match how {
                    11 => {
                        en.or_insert(V::new(nv));
                        model.entry(id).or_insert((777, nv));
                    }
                    12 => {
                        let o = en.insert(V::new(nv));
                        ensure!(o.get().v == nv, "entry_ref insert");
                        model.entry(id).and_modify(|x| x.1 = nv).or_insert((777, nv));
                    }
                    13 => {
                        let v = en.and_modify(|v| v.v = nv).or_default();
                        ensure!(v.v == old.map_or(424242, |_| nv), "entry_ref or_default");
                        model.entry(id).and_modify(|x| x.1 = nv).or_insert((777, 424242));
                    }
                    14 => {
                        en.or_insert_with(|| V::new(id + 3));
                        model.entry(id).or_insert((777, id + 3));
                    }
                    _ => match en {
                        EntryRef::Occupied(o) => {
                            o.remove();
                            model.remove(&id);
                        }
                        EntryRef::Vacant(v) => {
                            ensure!(v.key().id == id, "vacant key");
                            let o = v.insert_entry(V::new(nv));
                            ensure!(o.get().v == nv, "entry_ref insert_entry");
                            model.insert(id, (777, nv));
                        }
                    },
                }
            }
        }
        Ok(())
    }
    fn op_filter(&mut self, g: &mut Gen) -> Res {
        let m = 1 + g.choose(4);
        let c = g.choose(m);
        let keep = |id: u32| id % m == c;
        if g.flag() {
            g.log(|| format!("retain(id % {m} == {c})"));
            let mut seen = vec![];
            self.m.retain(|k, v| {
                seen.push((k.s.id, k.inst, v.v));
                v.v += 1;
                keep(k.s.id)
            });
            seen.sort();
            ensure!(seen == flat(&self.model), "retain sees {seen:?}");
            self.model.retain(|k, v| {
                v.1 += 1;
                keep(*k)
            });
        } else {
            let stop = if g.flag() { usize::MAX } else { g.choose(5) as usize };
            g.log(|| format!("extract_if(id % {m} == {c}) stop {stop}"));
            let mut out = vec![];
            let mut seen = 0;
            {
                let mut it = self.m.extract_if(|k, _| {
                    seen += 1;
                    keep(k.s.id)
                });
                let mut hints = vec![];
                while out.len() < stop {
                    hints.push((out.len(), it.size_hint()));
                    match it.next() {
                        Some((k, v)) => out.push((k.s.id, k.inst, v.v)),
                        None => {
                            ensure!(hints.iter().all(|(at, (lo, hi))| *lo <= out.len() - at && hi.unwrap_or(usize::MAX) >= out.len() - at), "extract_if hints {hints:?} before giving {}", out.len());
                            break;
                        }
                    }
                }
            }
            for (id, i, v) in &out {
                ensure!(keep(*id) && self.model.remove(id) == Some((*i, *v)), "extracted {id} wrongly");
            }
            if stop == usize::MAX {
                ensure!(self.model.keys().all(|k| !keep(*k)), "extract_if leaves matches");
                ensure!(seen == self.model.len() + out.len(), "extract_if asks {seen}");
            }
        }
        Ok(())
    }
    fn op_iter(&mut self, g: &mut Gen) -> Res {
        let how = g.choose(9);
        g.log(|| format!("iteration {how}"));
        let n = self.model.len();
        let want = flat(&self.model);
        let ids: Vec<u32> = want.iter().map(|x| x.0).collect();
        let mut vals: Vec<u32> = want.iter().map(|x| x.2).collect();
        vals.sort();
        match how {
            0 => {
                let out = exact("iter", self.m.iter(), n, g, |(k, v)| (k.s.id, k.inst, v.v))?;
                ensure!(out == want, "iter");
            }
            1 => {
                let out = exact("keys", self.m.keys(), n, g, |k| k.s.id)?;
                ensure!(out == ids, "keys");
            }
            2 => {
                let out = exact("values", self.m.values(), n, g, |v| v.v)?;
                ensure!(out == vals, "values");
            }
            3 => {
                let out = exact("values_mut", self.m.values_mut(), n, g, |v| {
                    v.v += 1;
                    v.v - 1
                })?;
                ensure!(out == vals, "values_mut");
                self.model.values_mut().for_each(|v| v.1 += 1);
            }
            4 => {
                let out = exact("iter_mut", self.m.iter_mut(), n, g, |(k, v)| {
                    v.v += 1;
                    (k.s.id, k.inst, v.v - 1)
                })?;
                ensure!(out == want, "iter_mut");
                self.model.values_mut().for_each(|v| v.1 += 1);
            }
            5 => {
                let c = self.m.clone();
                let out = exact("into_iter", c.into_iter(), n, g, |(k, v)| (k.s.id, k.inst, v.v))?;
                ensure!(out == want, "into_iter");
            }
            6 => {
                let out = exact("into_keys", self.m.clone().into_keys(), n, g, |k| k.s.id)?;
                ensure!(out == ids, "into_keys");
            }
            7 => {
                let out = exact("into_values", self.m.clone().into_values(), n, g, |v| v.v)?;
                ensure!(out == vals, "into_values");
            }
            _ => {
                if g.flag() {
                    let out = exact("drain", self.m.drain(), n, g, |(k, v)| (k.s.id, k.inst, v.v))?;
                    ensure!(out == want, "drain");
                } else {
                    let mut d = self.m.drain();
                    for _ in 0..g.choose(4) {
                        d.next();
                    }
                }
                self.model.clear();
            }
        }
        Ok(())
    }
    fn op_capacity(&mut self, g: &mut Gen) -> Res {
        let n = g.choose(60) as usize;
        match g.choose(4) {
            0 => {
                g.log(|| format!("reserve({n})"));
                self.m.reserve(n);
                ensure!(self.m.capacity() >= self.m.len() + n, "reserve({n})");
            }
            1 => {
                g.log(|| "shrink_to_fit".into());
                self.m.shrink_to_fit();
                let want = M::with_capacity_and_hasher(self.m.len(), IdB).capacity();
                ensure!(self.m.capacity() >= self.m.len() && self.m.capacity() <= want, "shrink_to_fit leaves {} for {}", self.m.capacity(), self.m.len());
            }
            2 => {
                g.log(|| format!("shrink_to({n})"));
                let c = self.m.capacity();
                self.m.shrink_to(n);
                let want = M::with_capacity_and_hasher(self.m.len().max(n), IdB).capacity();
                ensure!(self.m.capacity() >= n.min(c) && self.m.capacity() <= want, "shrink_to({n}) leaves {}", self.m.capacity());
            }
            _ => {
                g.log(|| "clear".into());
                self.m.clear();
                self.model.clear();
            }
        }
        Ok(())
    }
    fn op_copy(&mut self, g: &mut Gen) -> Res {
        let how = g.choose(4);
        g.log(|| format!("copy {how}"));
        match how {
            0 => {
                let c = self.m.clone();
                ensure!(rows(&c) == flat(&self.model), "clone");
                self.m = c;
            }
            1 => {
                // clone_from over another map
                let mut o = M::with_capacity_and_hasher(g.choose(70) as usize, IdB);
                for i in 0..g.choose(40) {
                    let k = self.k(i);
                    o.insert(k, V::new(i), &mut self.e, &mut self.g).unwrap();
                }
                o.clone_from(&self.m);
                ensure!(rows(&o) == flat(&self.model), "clone_from: {:?}", rows(&o));
                self.m = o;
                // between maps whose hash builders differ
                let mut a: HashMap<u64, u32, E, G, R, SeedB> = HashMap::with_hasher(SeedB(g.choose(4) as u64));
                let mut b: HashMap<u64, u32, E, G, R, SeedB> = HashMap::with_hasher(SeedB(4 + g.choose(4) as u64));
                let (e, gg) = (&mut self.e, &mut self.g);
                for i in 0..g.choose(12) {
                    a.insert(i as u64, i, e, gg).unwrap();
                }
                let n = g.choose(12);
                for i in 0..n {
                    b.insert(3 * i as u64, i, e, gg).unwrap();
                }
                a.clone_from(&b);
                let c = a.clone();
                for i in 0..n {
                    ensure!(a.get(&(3 * i as u64), e, gg).unwrap() == Some(&i) && c.get(&(3 * i as u64), e, gg).unwrap() == Some(&i), "a map cloned from one with another hash builder does not find {}", 3 * i);
                }
            }
            2 => {
                let items: Vec<(K, V)> = self.m.drain().collect();
                let m2 = M::from_iter(items, &mut self.e, &mut self.g).unwrap();
                ensure!(rows(&m2) == flat(&self.model), "from_iter");
                self.m = m2;
            }
            _ => {
                let mut c = self.m.clone();
                ensure!(self.m.eql(&c, &mut self.e, &mut self.g).unwrap(), "a map differs from its clone");
                let id = g.choose(self.ids);
                let k = self.k(id);
                let q = self.q(id);
                match g.choose(3) {
                    0 => {
                        let had = c.remove(&q, &mut self.e, &mut self.g).unwrap().is_some();
                        ensure!(self.m.eql(&c, &mut self.e, &mut self.g).unwrap() != had, "equality after removing {id}");
                    }
                    1 => {
                        let had = c.insert(k, V::new(999999), &mut self.e, &mut self.g).unwrap();
                        let _ = had;
                        ensure!(!self.m.eql(&c, &mut self.e, &mut self.g).unwrap() && !c.eql(&self.m, &mut self.e, &mut self.g).unwrap(), "equal with another value for {id}");
                    }
                    _ => {
                        // same size, another key
                        let had = c.remove(&q, &mut self.e, &mut self.g).unwrap().is_some();
                        if had {
                            let k = self.k(100000);
                            c.insert(k, V::new(0), &mut self.e, &mut self.g).unwrap();
                            ensure!(!self.m.eql(&c, &mut self.e, &mut self.g).unwrap(), "equal with another key");
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// an erring eql callback: the error surfaces and nothing changes
    fn op_fail(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let at = g.choose(3);
        let how = g.choose(12);
        g.log(|| format!("erring callback {at} in op {how} on {id}"));
        let k = self.k(id);
        let q = self.q(id);
        let before = rows(&self.m);
        let copy = if how == 11 { Some(self.m.clone()) } else { None };
        let live = live_count();
        let e = &mut self.e;
        let gg = &mut self.g;
        let from = e.calls;
        e.fail_at = Some(from + at);
        let m = &mut self.m;
        let out: Result<Result<(), R>, String> = silent(|| {
            match how {
                0 => m.insert(k, V::new(1), e, gg).map(|_| ()),
                1 => m.get(&q, e, gg).map(|_| ()),
                2 => m.get_mut(&q, e, gg).map(|_| ()),
                3 => m.contains_key(&q, e, gg).map(|_| ()),
                4 => m.remove(&q, e, gg).map(|_| ()),
                5 => m.remove_entry(&q, e, gg).map(|_| ()),
                6 => m.entry(k, e, gg).map(|_| ()),
                7 => m.entry_ref(&q, e, gg).map(|_| ()),
                8 => m.try_insert(k, V::new(1), e, gg).map(|_| ()),
                9 => m.get_key_value(&q, e, gg).map(|_| ()),
                10 => m.get_key_value_mut(&q, e, gg).map(|_| ()),
                _ => m.eql(copy.as_ref().unwrap(), e, gg).map(|_| ()),
            }
        });
        self.e.fail_at = None;
        let fired = self.e.calls > from + at;
        match out {
            Err(p) => return Err(format!("panic instead of the error: {p}")),
            Ok(Err(r)) => {
                ensure!(fired && r == R(1000 + from + at), "error {r:?} instead of {}", 1000 + from + at);
                ensure!(rows(&self.m) == before && self.m.len() == before.len(), "contents changed by a failing operation");
            }
            Ok(Ok(())) => {
                ensure!(!fired, "the callback's error is lost");
                // the operation succeeded: account for it
                let old = self.model.get(&id).copied();
                match how {
                    0 => {
                        self.model.insert(id, (old.map_or(self.inst, |o| o.0), 1));
                    }
                    8 => {
                        self.model.entry(id).or_insert((self.inst, 1));
                    }
                    4 | 5 => {
                        self.model.remove(&id);
                    }
                    _ => {}
                }
            }
        }
        let _ = live;
        Ok(())
    }
    /// panicking clone in clone_from: every object dropped once, the target stays usable
    fn op_clone_fault(&mut self, g: &mut Gen) -> Res {
        let at = if g.flag() { g.choose(6) } else { g.choose(2 * self.model.len() as u32 + 1) };
        let from = g.flag();
        let mut o = M::with_capacity_and_hasher(g.choose(60) as usize, IdB);
        for i in 0..g.choose(20) {
            let k = self.k(i);
            o.insert(k, V::new(i), &mut self.e, &mut self.g).unwrap();
        }
        g.log(|| format!("clone panics at {at}, clone_from {from}"));
        FAULT.with(|f| f.borrow_mut().clone_in = Some(at));
        let m = &self.m;
        let r = silent(|| {
            if from {
                o.clone_from(m);
            } else {
                o = m.clone();
            }
        });
        FAULT.with(|f| f.borrow_mut().clone_in = None);
        if r.is_ok() {
            ensure!(rows(&o) == flat(&self.model), "clone");
        } else if from {
            // a subset of either side is fine; nothing else
            ensure!(o.iter().count() == o.len(), "len of a half-cloned map");
        }
        // usable
        for i in 0..5 {
            let k = self.k(i);
            o.insert(k, V::new(i), &mut self.e, &mut self.g).unwrap();
            let q = self.q(i);
            ensure!(o.get(&q, &mut self.e, &mut self.g).unwrap().map(|v| v.v) == Some(i), "map unusable after a panicking clone");
        }
        let n = o.len();
        drop(o);
        let _ = n;
        ensure!(live_count() == 2 * self.model.len(), "{} objects alive for {} entries", live_count(), self.model.len());
        Ok(())
    }
}
type Op = fn(&mut W, &mut Gen) -> Res;
fn drive(g: &mut Gen, ops: &[Op]) -> Res {
    let (hm, ids) = if g.small { (g.pick(&[2, 0]), 3) } else { (g.choose(HMODES), g.pick(&[3, 8, 20, 100])) };
    let cap = if g.small { 0 } else { g.pick(&[0, 0, 3, 7, 14, 60]) };
    g.log(|| format!("hash distribution {hm}, {ids} ids, capacity {cap}"));
    let mut w = W { m: M::with_capacity_and_hasher(cap, IdB), model: Model::new(), hm, ids, inst: 0, e: E::default(), g: G::default() };
    let n = g.upto(g.max_ops);
    for _ in 0..n {
        let o = g.choose(ops.len() as u32) as usize;
        ops[o](&mut w, g)?;
        w.check()?;
    }
    Ok(())
}
fn c16(g: &mut Gen) -> Res {
    if g.small {
        return drive(g, &[W::op_insert, W::op_remove, W::op_entry, W::op_fail]);
    }
    drive(g, &[W::op_insert, W::op_insert, W::op_fill, W::op_get, W::op_remove, W::op_remove, W::op_entry, W::op_entry, W::op_filter, W::op_iter, W::op_capacity, W::op_copy, W::op_fail, W::op_fail])
}
fn c15_map(g: &mut Gen) -> Res {
    drive(g, &[W::op_insert, W::op_fill, W::op_remove, W::op_clone_fault, W::op_filter, W::op_capacity])
}

// ---------------------------------------------------------------- sets
struct X {
    s: S,
    model: BTreeMap<u32, u32>,
    hm: u32,
    ids: u32,
    inst: u32,
    e: E,
    g: G,
}
fn srows(s: &S) -> Vec<(u32, u32)> {
    let mut v: Vec<_> = s.iter().map(|k| (k.s.id, k.inst)).collect();
    v.sort();
    v
}
impl X {
    fn k(&mut self, id: u32) -> K {
        self.inst += 1;
        K::new(id, hash_of(self.hm, id), self.inst)
    }
    fn check(&mut self) -> Res {
        let want: Vec<(u32, u32)> = self.model.iter().map(|(a, b)| (*a, *b)).collect();
        ensure!(srows(&self.s) == want && self.s.len() == want.len(), "set holds {:?}, expected {want:?}", srows(&self.s));
        for id in 0..self.ids.min(25) {
            let q = Probe { id, h: hash_of(self.hm, id) };
            let c = self.s.contains(&q, &mut self.e, &mut self.g).unwrap();
            ensure!(c == self.model.contains_key(&id), "contains({id}) = {c}");
        }
        if let Some(e) = reg_err() {
            return Err(e);
        }
        Ok(())
    }
    fn step(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let how = g.choose(16);
        g.log(|| format!("set op {how} on {id}"));
        let k = self.k(id);
        let inst = k.inst;
        let q = Probe { id, h: hash_of(self.hm, id) };
        let old = self.model.get(&id).copied();
        let (e, gg) = (&mut self.e, &mut self.g);
        match how {
            0..=2 => {
                let r = self.s.insert(k, e, gg).unwrap();
                ensure!(r == old.is_none(), "insert returns {r}");
                self.model.entry(id).or_insert(inst);
            }
            3 => {
                let r = self.s.replace(k, e, gg).unwrap().map(|k| k.inst);
                ensure!(r == old, "replace returns {r:?}");
                self.model.insert(id, inst);
            }
            4 => {
                ensure!(self.s.remove(&q, e, gg).unwrap() == old.is_some(), "remove");
                self.model.remove(&id);
            }
            5 => {
                let r = self.s.take(&q, e, gg).unwrap().map(|k| k.inst);
                ensure!(r == old, "take returns {r:?}");
                self.model.remove(&id);
            }
            6 => {
                let r = self.s.get_or_insert(k, e, gg).unwrap().inst;
                ensure!(r == old.unwrap_or(inst), "get_or_insert");
                self.model.entry(id).or_insert(inst);
            }
            7 => {
                let r = self.s.get_or_insert_with(&q, |_| k, e, gg).unwrap().inst;
                ensure!(r == old.unwrap_or(inst), "get_or_insert_with");
                self.model.entry(id).or_insert(inst);
            }
            8 => {
                let r = self.s.get(&q, e, gg).unwrap().map(|k| k.inst);
                ensure!(r == old, "get {r:?}");
            }
            9 => match self.s.entry(k, e, gg).unwrap() {
                hash_set::Entry::Occupied(o) => {
                    ensure!(Some(o.get().inst) == old, "occupied entry");
                    if g.flag() {
                        ensure!(Some(o.remove().inst) == old, "occupied remove");
                        self.model.remove(&id);
                    }
                }
                hash_set::Entry::Vacant(v) => {
                    ensure!(old.is_none() && v.get().inst == inst, "vacant entry");
                    match g.choose(3) {
                        0 => {
                            let o = v.insert();
                            ensure!(o.get().inst == inst, "vacant insert");
                            self.model.insert(id, inst);
                        }
                        1 => ensure!(v.into_value().inst == inst, "into_value"),
                        _ => drop(v),
                    }
                }
            },
            10 => {
                let en = self.s.entry(k, e, gg).unwrap();
                ensure!(en.get().s.id == id, "entry get");
                if g.flag() {
                    en.or_insert();
                } else {
                    let o = en.insert();
                    ensure!(o.get().s.id == id, "entry insert");
                }
                self.model.entry(id).or_insert(inst);
            }
            11 => {
                let m = 1 + g.choose(4);
                let c = g.choose(m);
                if g.flag() {
                    self.s.retain(|k| k.s.id % m == c);
                    self.model.retain(|k, _| k % m == c);
                } else {
                    let mut it = self.s.extract_if(|k| k.s.id % m == c);
                    let hint = it.size_hint();
                    let mut out: Vec<u32> = vec![];
                    while let Some(k) = it.next() {
                        out.push(k.s.id);
                    }
                    drop(it);
                    ensure!(hint.0 <= out.len() && hint.1.unwrap_or(usize::MAX) >= out.len(), "extract_if hint {hint:?} before giving {}", out.len());
                    for x in &out {
                        ensure!(x % m == c && self.model.remove(x).is_some(), "extracted {x}");
                    }
                    ensure!(self.model.keys().all(|k| k % m != c), "extract_if leaves matches");
                }
            }
            12 => {
                let n = self.model.len();
                let want: Vec<(u32, u32)> = self.model.iter().map(|(a, b)| (*a, *b)).collect();
                match g.choose(3) {
                    0 => ensure!(exact("set iter", self.s.iter(), n, g, |k| (k.s.id, k.inst))? == want, "set iter"),
                    1 => ensure!(exact("set into_iter", self.s.clone().into_iter(), n, g, |k| (k.s.id, k.inst))? == want, "set into_iter"),
                    _ => {
                        ensure!(exact("set drain", self.s.drain(), n, g, |k| (k.s.id, k.inst))? == want, "set drain");
                        self.model.clear();
                    }
                }
            }
            13 => {
                let n = g.choose(40) as usize;
                match g.choose(5) {
                    0 => {
                        self.s.reserve(n);
                        ensure!(self.s.capacity() >= self.s.len() + n, "reserve({n})");
                    }
                    1 => {
                        self.s.shrink_to_fit();
                        let want = S::with_capacity_and_hasher(self.s.len(), IdB).capacity();
                        ensure!(self.s.capacity() >= self.s.len() && self.s.capacity() <= want, "shrink_to_fit leaves {}", self.s.capacity());
                    }
                    2 => {
                        let c = self.s.capacity();
                        self.s.shrink_to(n);
                        let want = S::with_capacity_and_hasher(self.s.len().max(n), IdB).capacity();
                        ensure!(self.s.capacity() >= n.min(c) && self.s.capacity() <= want, "shrink_to({n}) leaves {}", self.s.capacity());
                    }
                    3 => {
                        let c = self.s.clone();
                        let mut d: S = S::with_capacity_and_hasher(n, IdB);
                        d.clone_from(&c);
                        self.s = d;
                    }
                    _ => {
                        self.s.clear();
                        self.model.clear();
                    }
                }
            }
            14 => {
                let n = g.choose(20);
                let base = self.inst;
                let (ids, hm) = (self.ids, self.hm);
                self.inst += n;
                for i in 1..=n {
                    self.model.entry((base + i) % ids).or_insert(base + i);
                }
                let more = (1..=n).map(|i| K::new((base + i) % ids, hash_of(hm, (base + i) % ids), base + i));
                if g.flag() {
                    self.s.extend(more, &mut self.e, &mut self.g).unwrap();
                } else {
                    let held: Vec<K> = self.s.drain().collect();
                    self.s = S::from_iter(held.into_iter().chain(more), &mut self.e, &mut self.g).unwrap();
                }
            }
            _ => {
                // erring callback
                let at = g.choose(3);
                let op = g.choose(12);
                let before = srows(&self.s);
                let twice = if op > 8 { Some((self.s.clone(), self.s.iter().cloned().chain([k.clone(), k.clone()]).collect::<Vec<K>>())) } else { None };
                let from = e.calls;
                e.fail_at = Some(from + at);
                let s = &mut self.s;
                let out = silent(|| match op {
                    0 => s.insert(k, e, gg).map(|_| ()),
                    1 => s.replace(k, e, gg).map(|_| ()),
                    2 => s.remove(&q, e, gg).map(|_| ()),
                    3 => s.take(&q, e, gg).map(|_| ()),
                    4 => s.get_or_insert(k, e, gg).map(|_| ()),
                    5 => s.get_or_insert_with(&q, |_| k, e, gg).map(|_| ()),
                    6 => s.get(&q, e, gg).map(|_| ()),
                    7 => s.contains(&q, e, gg).map(|_| ()),
                    8 => s.entry(k, e, gg).map(|_| ()),
                    9 => S::from_iter(twice.unwrap().1, e, gg).map(|_| ()),
                    10 => s.is_superset(&twice.unwrap().0, e, gg).map(|_| ()),
                    _ => s.eql(&twice.unwrap().0, e, gg).map(|_| ()),
                });
                self.e.fail_at = None;
                let fired = self.e.calls > from + at;
                match out {
                    Err(p) => return Err(format!("set op {op}: panic instead of the error: {p}")),
                    Ok(Err(r)) => {
                        ensure!(fired && r == R(1000 + from + at), "error {r:?}");
                        ensure!(srows(&self.s) == before, "a failing set operation changed the set");
                    }
                    Ok(Ok(())) => {
                        ensure!(!fired, "set op {op}: the callback's error is lost");
                        match op {
                            0 | 4 | 5 => {
                                self.model.entry(id).or_insert(inst);
                            }
                            1 => {
                                self.model.insert(id, inst);
                            }
                            2 | 3 => {
                                self.model.remove(&id);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
fn c16_set(g: &mut Gen) -> Res {
    let (hm, ids) = if g.small { (g.pick(&[2, 0]), 3) } else { (g.choose(HMODES), g.pick(&[3, 8, 20, 100])) };
    let mut x = X { s: S::with_hasher(IdB), model: BTreeMap::new(), hm, ids, inst: 0, e: E::default(), g: G::default() };
    let n = g.upto(g.max_ops);
    for _ in 0..n {
        x.step(g)?;
        x.check()?;
    }
    Ok(())
}
/// subset, superset and equality for every pair of small sets
fn c16_algebra(g: &mut Gen) -> Res {
    let n = 3 + g.choose(4);
    let (a, b) = (g.choose(1 << n), g.choose(1 << n));
    let hm = g.choose(HMODES);
    g.log(|| format!("{a:b} and {b:b}, hash distribution {hm}"));
    let (mut e, mut gg) = (E::default(), G::default());
    let mut mk = |bits: u32, rev: bool| {
        let mut s = S::with_hasher(IdB);
        let ids: Vec<u32> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
        for i in ids {
            if bits >> i & 1 == 1 {
                s.insert(K::new(i, hash_of(hm, i), 0), &mut e, &mut gg).unwrap();
            }
        }
        s
    };
    let (sa, sb) = (mk(a, false), mk(b, true));
    let (mut e, mut gg) = (E::default(), G::default());
    ensure!(sa.is_subset(&sb, &mut e, &mut gg).unwrap() == (a & !b == 0), "is_subset");
    ensure!(sa.is_superset(&sb, &mut e, &mut gg).unwrap() == (b & !a == 0), "is_superset");
    ensure!(sa.eql(&sb, &mut e, &mut gg).unwrap() == (a == b), "eql");
    // an error in any of them surfaces
    let at = g.choose(3);
    let op = g.choose(3);
    let mut e = E { fail_at: Some(at), ..E::default() };
    let r = match op {
        0 => sa.is_subset(&sb, &mut e, &mut gg),
        1 => sa.is_superset(&sb, &mut e, &mut gg),
        _ => sa.eql(&sb, &mut e, &mut gg),
    };
    ensure!(r.is_err() == (e.calls > at), "error lost in set algebra {op}");
    Ok(())
}
/// == and indexing of maps and sets without callbacks
fn c16_plain(g: &mut Gen) -> Res {
    type PM = hashbrown::HashMap<u32, u32, (), (), ()>;
    type PS = hashbrown::HashSet<u32, (), (), ()>;
    let n = 1 + g.choose(if g.small { 2 } else { 40 });
    let mk = |g: &mut Gen| -> BTreeMap<u32, u32> { (0..n).filter_map(|k| { let v = g.choose(3); (v > 0).then_some((k, v)) }).collect() };
    let a = mk(g);
    let b = if g.flag() {
        let mut b = a.clone();
        if g.flag() {
            let k = g.choose(n);
            match g.choose(3) {
                0 => drop(b.remove(&k)),
                1 => drop(b.insert(k, 1)),
                _ => {
                    if b.remove(&k).is_some() {
                        b.insert(k + 1000, 1);
                    }
                }
            }
        }
        b
    } else {
        mk(g)
    };
    g.log(|| format!("{a:?} and {b:?}"));
    let map = |m: &BTreeMap<u32, u32>, rev: bool| {
        let mut r = PM::default();
        let mut v: Vec<_> = m.iter().collect();
        if rev {
            v.reverse();
        }
        for (k, v) in v {
            r.insert(*k, *v, &mut (), &mut ()).unwrap();
        }
        r
    };
    let (ma, mb) = (map(&a, false), map(&b, true));
    ensure!((ma == mb) == (a == b) && (mb == ma) == (a == b) && (ma != mb) == (a != b), "== of maps");
    for (k, v) in &a {
        ensure!(ma[k] == *v, "index by {k}");
    }
    let keys = |m: &BTreeMap<u32, u32>| m.keys().copied().collect::<Vec<_>>();
    let set = |m: &BTreeMap<u32, u32>| {
        let mut r = PS::default();
        for k in m.keys() {
            r.insert(*k, &mut (), &mut ()).unwrap();
        }
        r
    };
    let (sa, sb) = (set(&a), set(&b));
    ensure!((sa == sb) == (keys(&a) == keys(&b)) && (sb == sa) == (keys(&a) == keys(&b)), "== of sets");
    Ok(())
}
fn main() {
    main_with(&[
        Plan { name: "C16", f: c16, exhaustive: Some((3, 60000)), random: &[(40, 6000), (150, 800)] },
        Plan { name: "C16_set", f: c16_set, exhaustive: Some((2, 30000)), random: &[(40, 6000), (150, 800)] },
        Plan { name: "C16_algebra", f: c16_algebra, exhaustive: Some((1, 40000)), random: &[(1, 6000)] },
        Plan { name: "C16_plain", f: c16_plain, exhaustive: Some((1, 40000)), random: &[(1, 6000)] },
        Plan { name: "C15_map", f: c15_map, exhaustive: None, random: &[(20, 6000), (60, 800)] },
    ]);
}
