//! HashTable against a plain list of the elements put in and not taken out.
use hashbrown::hash_table::{Entry, HashTable};
use vharness::gen::*;
use vharness::keys::*;

type Res = Result<(), String>;
/// (id, hash, instance): what an element is, whatever its layout
type Row = (u32, u64, u32);

trait El: Clone + 'static {
    fn mk(id: u32, hm: u32, inst: u32) -> Self;
    fn row(&self, hm: u32) -> Row;
    fn set_inst(&mut self, inst: u32);
}
impl El for K {
    fn mk(id: u32, hm: u32, inst: u32) -> K {
        K::new(id, hash_of(hm, id), inst)
    }
    fn row(&self, _: u32) -> Row {
        (self.s.id, self.s.h, self.inst)
    }
    fn set_inst(&mut self, inst: u32) {
        self.inst = inst
    }
}
/// small plain element
#[derive(Clone, Copy)]
struct P(u32);
impl El for P {
    fn mk(id: u32, _: u32, inst: u32) -> P {
        P(id << 16 | (inst & 0xffff))
    }
    fn row(&self, hm: u32) -> Row {
        (self.0 >> 16, hash_of(hm, self.0 >> 16), self.0 & 0xffff)
    }
    fn set_inst(&mut self, inst: u32) {
        self.0 = self.0 & 0xffff0000 | inst & 0xffff
    }
}
/// element with a large alignment
#[repr(align(64))]
#[derive(Clone)]
struct Big(u32, u32, Tok, [u8; 70]);
impl El for Big {
    fn mk(id: u32, _: u32, inst: u32) -> Big {
        Big(id, inst, Tok::new(), [id as u8; 70])
    }
    fn row(&self, hm: u32) -> Row {
        assert!(self as *const _ as usize % 64 == 0, "element not aligned");
        assert!(self.3.iter().all(|b| *b == self.0 as u8), "element bytes damaged");
        (self.0, hash_of(hm, self.0), self.1)
    }
    fn set_inst(&mut self, inst: u32) {
        self.1 = inst
    }
}

type T<A> = HashTable<A, E, G, R>;

struct W<A: El> {
    t: T<A>,
    model: Vec<Row>,
    hm: u32,
    ids: u32,
    inst: u32,
    e: E,
    g: G,
}

fn sorted(mut v: Vec<Row>) -> Vec<Row> {
    v.sort();
    v
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// What a search predicate accepts, as a function of the row.
#[derive(Clone, Copy, Debug)]
enum Pred {
    Id(u32),
    Inst(u32),
    Class(u32),
    No,
    Any,
}
impl Pred {
    fn ok(self, r: Row) -> bool {
        match self {
            Pred::Id(i) => r.0 == i,
            Pred::Inst(i) => r.2 == i,
            Pred::Class(c) => r.0 % 2 == c,
            Pred::No => false,
            Pred::Any => true,
        }
    }
}

impl<A: El> W<A> {
    fn rows(&self) -> Vec<Row> {
        self.t.iter().map(|x| x.row(self.hm)).collect()
    }
    fn hasher(&self) -> impl Fn(&A) -> u64 {
        let hm = self.hm;
        move |x: &A| x.row(hm).1
    }
    /// contents, counts, iteration and findability
    fn check(&mut self) -> Res {
        let want = sorted(self.model.clone());
        let mut got = vec![];
        let mut it = self.t.iter();
        let mut left = want.len();
        loop {
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "iterator reports {} of {left} left", it.len());
            match it.next() {
                Some(x) => {
                    ensure!(left > 0, "iteration yields too many");
                    got.push(x.row(self.hm));
                    left -= 1;
                }
                None => break,
            }
        }
        ensure!(it.next().is_none(), "iterator not fused");
        let got = sorted(got);
        ensure!(got == want, "table holds {got:?}, expected {want:?}");
        ensure!(self.t.len() == want.len() && self.t.is_empty() == want.is_empty(), "len {} expected {}", self.t.len(), want.len());
        ensure!(self.t.capacity() >= self.t.len(), "capacity below len");
        let hm = self.hm;
        let folded = self.t.iter().fold(vec![], |mut a, x| { a.push(x.row(hm)); a });
        ensure!(folded.len() == want.len(), "fold visits {}", folded.len());
        ensure!(sorted(folded) == want, "fold visits other elements");
        for r in &want {
            let (hm, mut n) = (self.hm, 0);
            let f = self.t.find(r.1, |x, _, _| { n += 1; Ok(x.row(hm) == *r) }, &mut self.e, &mut self.g).unwrap();
            ensure!(f.map(|x| x.row(hm)) == Some(*r), "stored element {r:?} not found under its hash");
            ensure!(n <= want.len(), "predicate asked {n} times for {} elements", want.len());
            let ih: Vec<Row> = self.t.iter_hash(r.1).map(|x| x.row(hm)).collect();
            let n = ih.len();
            let mut d = ih.clone();
            d.sort();
            d.dedup();
            ensure!(d.len() == n, "iter_hash repeats elements: {ih:?}");
            for x in want.iter().filter(|x| x.1 == r.1) {
                ensure!(d.contains(x), "iter_hash({}) misses {x:?}", r.1);
            }
            ensure!(d.iter().all(|x| want.contains(x)), "iter_hash yields a stranger");
        }
        if let Some(e) = reg_err() {
            return Err(e);
        }
        Ok(())
    }
    fn id(&self, g: &mut Gen) -> u32 {
        g.choose(self.ids)
    }
    fn fresh(&mut self, id: u32) -> A {
        self.inst += 1;
        A::mk(id, self.hm, self.inst)
    }
    fn pred(&self, g: &mut Gen, id: u32) -> Pred {
        if g.small {
            return Pred::Id(id);
        }
        match g.choose(8) {
            0 => Pred::No,
            1 => Pred::Any,
            2 => Pred::Class(id % 2),
            3 => Pred::Inst(1 + g.choose(self.inst.max(1))),
            _ => Pred::Id(id),
        }
    }
    fn op_insert_unique(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        g.log(|| format!("insert_unique({id})"));
        let x = self.fresh(id);
        let r = x.row(self.hm);
        let (hm, hf) = (self.hm, self.hasher());
        let mut o = self.t.insert_unique(r.1, x, hf);
        ensure!(o.get().row(hm) == r && o.get_mut().row(hm) == r, "insert_unique returns another element");
        self.model.push(r);
        Ok(())
    }
    /// many at once, so that several groups and growth happen
    fn op_fill(&mut self, g: &mut Gen) -> Res {
        let n = 1 + g.choose(30);
        g.log(|| format!("fill({n})"));
        for _ in 0..n {
            let id = self.inst % self.ids.max(1);
            let x = self.fresh(id);
            let r = x.row(self.hm);
            let hf = self.hasher();
            self.t.insert_unique(r.1, x, hf);
            self.model.push(r);
        }
        Ok(())
    }
    fn op_find(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let p = self.pred(g, id);
        let h = hash_of(self.hm, id);
        g.log(|| format!("find({id}, {p:?})"));
        let hm = self.hm;
        let must = self.model.iter().any(|r| r.1 == h && p.ok(*r));
        let got = self.t.find(h, |x, _, _| Ok(p.ok(x.row(hm))), &mut self.e, &mut self.g).unwrap().map(|x| x.row(hm));
        ensure!(got.is_some() || !must, "an accepted element under this hash was not found");
        if let Some(r) = got {
            ensure!(p.ok(r) && self.model.contains(&r), "found {r:?} which the predicate rejects or which is not stored");
        }
        let bump = g.flag();
        let ni = self.inst + 1;
        match self.t.find_mut(h, |x, _, _| Ok(p.ok(x.row(hm))), &mut self.e, &mut self.g).unwrap() {
            Some(x) => {
                ensure!(Some(x.row(hm)) == got, "find_mut differs from find");
                if bump {
                    let i = self.model.iter().position(|r| *r == got.unwrap()).unwrap();
                    x.set_inst(ni);
                    self.inst = ni;
                    self.model[i].2 = ni;
                }
            }
            None => ensure!(got.is_none(), "find_mut differs from find"),
        }
        Ok(())
    }
    fn op_remove(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let p = self.pred(g, id);
        let h = hash_of(self.hm, id);
        let again = g.choose(3) == 0;
        g.log(|| format!("remove({id}, {p:?}, refill {again})"));
        let hm = self.hm;
        let must = self.model.iter().any(|r| r.1 == h && p.ok(*r));
        let x = if again { Some(self.fresh(id)) } else { None };
        match self.t.find_entry(h, |x, _, _| Ok(p.ok(x.row(hm))), &mut self.e, &mut self.g).unwrap() {
            Ok(o) => {
                let r = o.get().row(hm);
                ensure!(p.ok(r), "entry for an element the predicate rejects");
                let Some(i) = self.model.iter().position(|x| *x == r) else { return Err(format!("entry for {r:?}, not stored")) };
                let (v, vac) = o.remove();
                ensure!(v.row(hm) == r, "removed another element");
                self.model.remove(i);
                // the slot may be filled again at once with an element of the same hash
                match x {
                    Some(x) if r.1 == h => {
                        let nr = x.row(hm);
                        let o = vac.insert(x);
                        ensure!(o.get().row(hm) == nr, "refilled slot holds another element");
                        self.model.push(nr);
                    }
                    _ => {
                        let t = vac.into_table();
                        ensure!(t.len() == self.model.len(), "len after removal");
                    }
                }
            }
            Err(a) => {
                ensure!(!must, "find_entry misses an accepted element");
                ensure!(a.into_table().len() == self.model.len(), "len after a failed search");
            }
        }
        Ok(())
    }
    fn op_entry(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let h = hash_of(self.hm, id);
        let how = g.choose(7);
        let sym = g.flag();
        g.log(|| format!("entry({id}) how {how} sym {sym}"));
        let hm = self.hm;
        let x = self.fresh(id);
        let nr = x.row(hm);
        let old: Vec<Row> = self.model.iter().copied().filter(|r| r.0 == id).collect();
        let hf = self.hasher();
        let en = if sym { self.t.entry_sym(h, |x| x.row(hm).0 == id, hf) } else { self.t.entry(h, |x, _, _| Ok(x.row(hm).0 == id), hf, &mut self.e, &mut self.g).unwrap() };
        let cur = match &en {
            Entry::Occupied(o) => Some(o.get().row(hm)),
            Entry::Vacant(_) => None,
        };
        match cur {
            Some(c) => ensure!(old.contains(&c), "occupied entry for {c:?}"),
            None => ensure!(old.is_empty(), "vacant entry though {old:?} stored"),
        }
        let pos = cur.map(|c| self.model.iter().position(|r| *r == c).unwrap());
        match how {
            0 => {
                let o = en.insert(x);
                ensure!(o.get().row(hm) == nr, "insert");
                match pos {
                    Some(i) => self.model[i] = nr,
                    None => self.model.push(nr),
                }
            }
            1 => {
                let o = en.or_insert(x);
                ensure!(o.get().row(hm) == cur.unwrap_or(nr), "or_insert");
                if pos.is_none() {
                    self.model.push(nr)
                }
            }
            2 => {
                let o = en.or_insert_with(|| x);
                ensure!(o.into_mut().row(hm) == cur.unwrap_or(nr), "or_insert_with");
                if pos.is_none() {
                    self.model.push(nr)
                }
            }
            3 => {
                let en = en.and_modify(|y| *y = x.clone());
                ensure!(matches!(en, Entry::Occupied(_)) == pos.is_some(), "and_modify changes the entry kind");
                if let Some(i) = pos {
                    self.model[i] = nr
                }
            }
            4 => match en {
                Entry::Occupied(o) => {
                    let (v, vac) = o.remove();
                    ensure!(Some(v.row(hm)) == cur, "removed another element");
                    self.model.remove(pos.unwrap());
                    vac.insert(x);
                    self.model.push(nr);
                }
                Entry::Vacant(v) => {
                    ensure!(v.into_table().len() == self.model.len(), "vacant entry changes len");
                }
            },
            5 => drop(en),
            _ => match en {
                Entry::Occupied(o) => {
                    ensure!(o.into_table().len() == self.model.len(), "occupied entry changes len");
                }
                Entry::Vacant(v) => {
                    let (v2, vac) = v.insert(x).remove();
                    ensure!(v2.row(hm) == nr, "vacant insert then remove");
                    drop(vac);
                }
            },
        }
        Ok(())
    }
    fn op_clear(&mut self, g: &mut Gen) -> Res {
        g.log(|| "clear".into());
        self.t.clear();
        self.model.clear();
        Ok(())
    }
    fn op_capacity(&mut self, g: &mut Gen) -> Res {
        let n = g.choose(60) as usize;
        let hf = self.hasher();
        match g.choose(5) {
            0 => {
                g.log(|| format!("reserve({n})"));
                self.t.reserve(n, hf);
                ensure!(self.t.capacity() >= self.t.len() + n, "capacity {} after reserve({n}) with {} held", self.t.capacity(), self.t.len());
                if g.flag() {
                    // no reallocation until the reservation is used up
                    let before = self.t.allocation_size();
                    for _ in 0..n {
                        let id = self.inst % self.ids;
                        let x = self.fresh(id);
                        let r = x.row(self.hm);
                        let hf = self.hasher();
                        self.t.insert_unique(r.1, x, hf);
                        self.model.push(r);
                    }
                    ensure!(self.t.allocation_size() == before, "reallocated within the reserved room");
                }
            }
            1 => {
                g.log(|| "shrink_to_fit".into());
                let before = self.t.allocation_size();
                self.t.shrink_to_fit(hf);
                ensure!(self.t.allocation_size() <= before, "shrink_to_fit grew");
                if self.model.is_empty() {
                    ensure!(self.t.allocation_size() == 0, "empty table keeps memory after shrink_to_fit");
                }
            }
            2 => {
                g.log(|| format!("shrink_to({n})"));
                let (before, size) = (self.t.capacity(), self.t.allocation_size());
                self.t.shrink_to(n, hf);
                ensure!(self.t.allocation_size() <= size && self.t.capacity() >= n.min(before), "shrink_to({n}): {before} -> {}", self.t.capacity());
            }
            3 => {
                g.log(|| format!("with_capacity({n})"));
                let t: T<A> = HashTable::with_capacity(n);
                ensure!(t.capacity() >= n && t.is_empty() && t.iter().next().is_none(), "with_capacity({n})");
                if g.flag() {
                    self.t = t;
                    self.model.clear();
                }
            }
            _ => {
                // insert up to the reported capacity: no growth
                g.log(|| "fill to capacity".into());
                let room = self.t.capacity() - self.t.len();
                if room <= 120 {
                    let before = self.t.allocation_size();
                    for _ in 0..room {
                        let id = self.inst % self.ids;
                        let x = self.fresh(id);
                        let r = x.row(self.hm);
                        let hf = self.hasher();
                        self.t.insert_unique(r.1, x, hf);
                        self.model.push(r);
                    }
                    ensure!(self.t.allocation_size() == before, "reallocated below the reported capacity");
                }
            }
        }
        Ok(())
    }
    fn op_clone(&mut self, g: &mut Gen) -> Res {
        g.log(|| "clone".into());
        let c = self.t.clone();
        let got = sorted(c.iter().map(|x| x.row(self.hm)).collect());
        ensure!(got == sorted(self.model.clone()) && c.len() == self.model.len(), "clone holds {got:?}");
        let mut old = std::mem::replace(&mut self.t, c);
        if g.flag() {
            old.clear();
        }
        drop(old);
        if g.choose(4) == 0 {
            let d: T<A> = Default::default();
            let mut t = std::mem::replace(&mut self.t, d);
            std::mem::swap(&mut t, &mut self.t);
        }
        Ok(())
    }
    fn op_filter(&mut self, g: &mut Gen) -> Res {
        let k = 1 + g.choose(4);
        let c = g.choose(k);
        let hm = self.hm;
        let mutate = g.flag();
        let keep = |r: Row| r.0 % k == c;
        if g.flag() {
            g.log(|| format!("retain(id % {k} == {c})"));
            let mut seen = vec![];
            self.t.retain(|x| {
                let r = x.row(hm);
                seen.push(r);
                if mutate {
                    x.set_inst(r.2 ^ 0x8000);
                }
                keep(r)
            });
            ensure!(sorted(seen) == sorted(self.model.clone()), "retain does not ask every element once");
            self.model.retain(|r| keep(*r));
            if mutate {
                self.model.iter_mut().for_each(|r| r.2 ^= 0x8000);
            }
        } else {
            let stop = if g.flag() { usize::MAX } else { g.choose(6) as usize };
            g.log(|| format!("extract_if(id % {k} == {c}), stop after {stop}"));
            let mut out = vec![];
            let mut seen = vec![];
            {
                let mut it = self.t.extract_if(|x| {
                    let r = x.row(hm);
                    seen.push(r);
                    keep(r)
                });
                while out.len() < stop {
                    let hint = it.size_hint();
                    match it.next() {
                        Some(x) => {
                            ensure!(hint.1.map_or(true, |u| u >= 1), "size hint excludes an element that comes");
                            out.push(x.row(hm))
                        }
                        None => break,
                    }
                }
            }
            let want: Vec<Row> = seen.iter().copied().filter(|r| keep(*r)).collect();
            ensure!(out == want, "extract_if yields {out:?}, expected {want:?}");
            let mut d = sorted(seen.clone());
            d.dedup();
            ensure!(d.len() == seen.len() && seen.iter().all(|r| self.model.contains(r)), "extract_if asks for an element twice");
            if stop == usize::MAX {
                ensure!(seen.len() == self.model.len(), "extract_if does not visit all");
            }
            self.model.retain(|r| !out.contains(r));
        }
        Ok(())
    }
    fn op_drain(&mut self, g: &mut Gen) -> Res {
        let n = self.model.len();
        let stop = if g.flag() { n + 1 } else { g.upto(n.min(20)) };
        let hm = self.hm;
        let own = g.flag();
        let fold = g.flag();
        g.log(|| format!("drain own {own} stop {stop} fold {fold}"));
        let mut out: Vec<Row> = vec![];
        fn run<A: El, I: ExactSizeIterator<Item = A>>(mut it: I, n: usize, stop: usize, fold: bool, hm: u32, out: &mut Vec<Row>) -> Res {
            while out.len() < stop {
                ensure!(it.len() == n - out.len(), "draining iterator reports {} left of {n} after {}", it.len(), out.len());
                match it.next() {
                    Some(x) => out.push(x.row(hm)),
                    None => break,
                }
            }
            if fold {
                it.fold((), |_, x| out.push(x.row(hm)));
                ensure!(out.len() == n, "fold does not visit the rest");
            }
            Ok(())
        }
        if own {
            let t = std::mem::take(&mut self.t);
            run(t.into_iter(), n, stop, fold, hm, &mut out)?;
        } else {
            let cap = self.t.capacity();
            run(self.t.drain(), n, stop, fold, hm, &mut out)?;
            ensure!(self.t.capacity() >= cap, "drain loses capacity");
        }
        let mut m = self.model.clone();
        for r in &out {
            match m.iter().position(|x| x == r) {
                Some(i) => {
                    m.remove(i);
                }
                None => return Err(format!("drained {r:?} twice or not stored")),
            }
        }
        ensure!(stop <= n || m.is_empty(), "drain misses {m:?}");
        self.model.clear();
        Ok(())
    }
    fn op_mutate(&mut self, g: &mut Gen) -> Res {
        let hm = self.hm;
        if g.flag() {
            g.log(|| "iter_mut".into());
            let mut seen = vec![];
            let mut it = self.t.iter_mut();
            ensure!(it.len() == self.model.len(), "iter_mut len");
            while let Some(x) = it.next() {
                let r = x.row(hm);
                seen.push(r);
                x.set_inst(r.2 ^ 0x4000);
                ensure!(it.len() == self.model.len() - seen.len(), "iter_mut len");
            }
            ensure!(sorted(seen) == sorted(self.model.clone()), "iter_mut visits others");
            self.model.iter_mut().for_each(|r| r.2 ^= 0x4000);
        } else {
            let id = self.id(g);
            let h = hash_of(hm, id);
            g.log(|| format!("iter_hash_mut({id})"));
            let mut seen = vec![];
            for x in self.t.iter_hash_mut(h) {
                let r = x.row(hm);
                seen.push(r);
                x.set_inst(r.2 ^ 0x2000);
            }
            let n = seen.len();
            let mut d = seen.clone();
            d.sort();
            d.dedup();
            ensure!(d.len() == n, "iter_hash_mut repeats");
            for r in self.model.iter_mut() {
                if d.contains(r) {
                    r.2 ^= 0x2000;
                } else {
                    ensure!(r.1 != h, "iter_hash_mut misses {r:?}");
                }
            }
        }
        Ok(())
    }
    /// many removals followed by insertions: deleted markers pile up and the table rehashes in place
    fn op_churn(&mut self, g: &mut Gen) -> Res {
        let n = 1 + g.choose(40);
        g.log(|| format!("churn({n})"));
        let hm = self.hm;
        for _ in 0..n {
            if self.model.len() > 3 {
                let i = g.choose(self.model.len() as u32) as usize;
                let r = self.model.swap_remove(i);
                let Ok(o) = self.t.find_entry(r.1, |x, _, _| Ok(x.row(hm) == r), &mut self.e, &mut self.g).unwrap() else { return Err(format!("{r:?} not found")) };
                ensure!(o.remove().0.row(hm) == r, "removed another element");
            }
            let id = g.choose(self.ids);
            let x = self.fresh(id);
            let r = x.row(self.hm);
            let hf = self.hasher();
            self.t.insert_unique(r.1, x, hf);
            self.model.push(r);
        }
        Ok(())
    }
    /// a failing predicate: the error surfaces, nothing changes
    fn op_fail(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let h = hash_of(self.hm, id);
        let at = g.choose(4);
        let how = g.choose(4);
        let boom = g.flag();
        g.log(|| format!("failing predicate at {at}, op {how}, panic {boom}"));
        let hm = self.hm;
        let mut n = 0;
        let mut hit = false;
        let before = sorted(self.rows());
        let hf = self.hasher();
        let pred = |x: &A, _: &mut E, _: &mut G| {
            n += 1;
            let _ = x.row(hm);
            if n > at {
                hit = true;
                if boom {
                    panic!("predicate");
                }
                Err(R(77))
            } else {
                Ok(false)
            }
        };
        let (t, e, gg) = (&mut self.t, &mut self.e, &mut self.g);
        let out: Result<Result<bool, R>, String> = silent(|| match how {
            0 => t.find(h, pred, e, gg).map(|x| x.is_some()),
            1 => t.find_mut(h, pred, e, gg).map(|x| x.is_some()),
            2 => t.find_entry(h, pred, e, gg).map(|x| x.is_ok()),
            _ => t.entry(h, pred, hf, e, gg).map(|x| matches!(x, Entry::Occupied(_))),
        });
        match out {
            Err(_) => ensure!(hit && boom, "unexpected panic"),
            Ok(Err(r)) => ensure!(hit && r == R(77), "another error: {r:?}"),
            Ok(Ok(f)) => ensure!(!f && !hit, "a failing or rejecting predicate found something"),
        }
        ensure!(sorted(self.rows()) == before && self.t.len() == before.len(), "failing search changed the table");
        Ok(())
    }
    /// one operation with a panicking callback or an early drop; contents afterwards a subset
    fn op_fault(&mut self, g: &mut Gen) -> Res {
        let how = g.choose(11);
        let at = if g.flag() { g.choose(6) } else { g.choose(1 + self.model.len() as u32) };
        g.log(|| format!("fault {how} at {at}"));
        let hm = self.hm;
        let before = self.model.clone();
        let n = std::cell::Cell::new(0u32);
        let fired = std::cell::Cell::new(false);
        let tick = || {
            let k = n.get();
            n.set(k + 1);
            if k == at {
                fired.set(true);
                panic!("callback");
            }
        };
        let hash = |x: &A| {
            let r = x.row(hm);
            tick();
            r.1
        };
        // "all": everything must still be there; "leak": objects may be lost (a panicking drop)
        let (mut all, mut leak) = (false, false);
        let id = self.id(g);
        let mut fresh = Some(self.fresh(id));
        let fr = fresh.as_ref().unwrap().row(hm);
        if how != 1 {
            fresh = None;
        }
        let mut added = false;
        match how {
            0 => {
                let more = g.choose(40) as usize;
                let _ = silent(|| self.t.reserve(more, &hash));
                // growing reads the old table only; rehashing in place may drop
                all = !fired.get();
            }
            1 => {
                let r = silent(|| {
                    self.t.insert_unique(fr.1, fresh.take().unwrap(), &hash);
                });
                added = r.is_ok();
                all = !fired.get();
            }
            2 => {
                let _ = silent(|| self.t.shrink_to_fit(&hash));
                all = true;
            }
            3 => {
                FAULT.with(|f| f.borrow_mut().clone_in = Some(at));
                let live = live_count();
                let r = silent(|| self.t.clone());
                FAULT.with(|f| f.borrow_mut().clone_in = None);
                match r {
                    Ok(c) => {
                        let got = sorted(c.iter().map(|x| x.row(hm)).collect());
                        ensure!(got == sorted(before.clone()), "clone differs");
                    }
                    Err(_) => ensure!(live_count() == live, "a failed clone leaves {} objects behind", live_count() as i64 - live as i64),
                }
                all = true;
            }
            4 => {
                let keep = g.flag();
                let mut rejected = vec![];
                let _ = silent(|| {
                    self.t.retain(|x| {
                        let r = x.row(hm);
                        tick();
                        if !keep {
                            rejected.push(r);
                        }
                        keep
                    })
                });
                let mut want = before.clone();
                want.retain(|r| !rejected.contains(r));
                ensure!(sorted(self.rows()) == sorted(want), "retain with a panicking filter: {:?}", self.rows());
            }
            5 => {
                let take = g.flag();
                let mut out = vec![];
                let _ = silent(|| {
                    for x in self.t.extract_if(|_| {
                        tick();
                        take
                    }) {
                        out.push(x.row(hm));
                    }
                });
                let mut want = before.clone();
                want.retain(|r| !out.contains(r));
                ensure!(sorted(self.rows()) == sorted(want), "extract_if with a panicking filter: {:?}", self.rows());
            }
            6 => {
                let live = live_count();
                let gone = before.len();
                let objs = if std::mem::needs_drop::<A>() { gone } else { 0 };
                if g.flag() {
                    let mut d = self.t.drain();
                    for _ in 0..at {
                        d.next();
                    }
                } else {
                    let mut d = std::mem::take(&mut self.t).into_iter();
                    for _ in 0..at {
                        d.next();
                    }
                }
                ensure!(live_count() + objs == live, "an iterator dropped early leaves {} of {objs} objects", live_count() + objs - live);
                ensure!(self.t.is_empty(), "elements left after draining");
            }
            7 => {
                leak = true;
                FAULT.with(|f| f.borrow_mut().drop_in = Some(at));
                let _ = silent(|| self.t.clear());
            }
            8 => {
                leak = true;
                FAULT.with(|f| f.borrow_mut().drop_in = Some(at));
                let stop = g.choose(4);
                let _ = silent(|| {
                    let mut d = self.t.drain();
                    for _ in 0..stop {
                        d.next();
                    }
                });
            }
            9 => {
                leak = true;
                FAULT.with(|f| f.borrow_mut().drop_in = Some(at));
                let _ = silent(|| self.t.retain(|x| x.row(hm).0 % 2 == 0));
            }
            _ => {
                leak = true;
                FAULT.with(|f| f.borrow_mut().drop_in = Some(at));
                let t = std::mem::take(&mut self.t);
                let own = g.flag();
                let _ = silent(|| {
                    if own {
                        let mut it = t.into_iter();
                        it.next();
                    } else {
                        drop(t)
                    }
                });
            }
        }
        FAULT.with(|f| f.borrow_mut().drop_in = None);
        if let Some(e) = reg_err() {
            return Err(e);
        }
        // a subset of what was there
        let mut pool = before.clone();
        if added {
            pool.push(fr);
        }
        let full = pool.len();
        let now = self.rows();
        for r in &now {
            match pool.iter().position(|x| x == r) {
                Some(i) => {
                    pool.swap_remove(i);
                }
                None => return Err(format!("after the failure the table holds {r:?}, twice or never inserted")),
            }
        }
        ensure!(!all || now.len() == full, "elements lost: {pool:?}");
        self.model = now;
        if leak {
            // objects other than the ones still held may be gone for good, but never dropped twice
            let held = std::mem::take(&mut self.model);
            let t = std::mem::take(&mut self.t);
            drop(t);
            drop(held);
            if let Some(e) = reg_err() {
                return Err(e);
            }
            forget_live();
            return Ok(());
        }
        if std::mem::needs_drop::<A>() {
            ensure!(live_count() == self.model.len(), "{} objects alive for {} elements", live_count(), self.model.len());
        }
        Ok(())
    }
}

type Op<A> = fn(&mut W<A>, &mut Gen) -> Res;
fn drive<A: El>(g: &mut Gen, ops: &[Op<A>]) -> Res {
    let (hm, ids) = if g.small { (g.pick(&[2, 0, 4]), 3) } else { (g.choose(HMODES), g.pick(&[3, 8, 20, 100, 500])) };
    let cap = if g.small { 0 } else { g.pick(&[0, 0, 3, 7, 14, 28, 60]) };
    g.log(|| format!("hash distribution {hm}, {ids} ids, capacity {cap}"));
    let mut w: W<A> = W { t: HashTable::with_capacity(cap), model: vec![], hm, ids, inst: 0, e: E::default(), g: G::default() };
    w.check()?;
    let n = g.upto(g.max_ops);
    for _ in 0..n {
        let o = g.choose(ops.len() as u32) as usize;
        ops[o](&mut w, g)?;
        w.check()?;
        if w.model.len() > 700 {
            w.t.clear();
            w.model.clear();
        }
    }
    Ok(())
}
fn ops<A: El>() -> Vec<Op<A>> {
    vec![W::op_insert_unique, W::op_insert_unique, W::op_fill, W::op_find, W::op_remove, W::op_remove, W::op_entry, W::op_entry, W::op_clear, W::op_capacity, W::op_clone, W::op_filter, W::op_drain, W::op_mutate, W::op_churn, W::op_churn, W::op_fail]
}
fn c12(g: &mut Gen) -> Res {
    if g.small {
        return drive::<K>(g, &[W::op_insert_unique, W::op_find, W::op_remove, W::op_entry]);
    }
    drive::<K>(g, &ops())
}
fn c12_plain(g: &mut Gen) -> Res {
    drive::<P>(g, &ops())
}
fn c12_big(g: &mut Gen) -> Res {
    drive::<Big>(g, &ops())
}
/// insertion and removal only, long: deleted markers and in-place rehash at every size
fn c12_churn(g: &mut Gen) -> Res {
    drive::<P>(g, &[W::op_churn, W::op_churn, W::op_churn, W::op_remove, W::op_insert_unique, W::op_capacity])
}
fn c15(g: &mut Gen) -> Res {
    if g.small {
        return drive::<K>(g, &[W::op_insert_unique, W::op_remove, W::op_fault]);
    }
    drive::<K>(g, &[W::op_insert_unique, W::op_fill, W::op_churn, W::op_remove, W::op_capacity, W::op_fault, W::op_fault, W::op_fail, W::op_clone, W::op_filter])
}
/// rehash in place with a panicking hash callback at every step
fn c15_rehash(g: &mut Gen) -> Res {
    rehash::<K>(g, true)
}
fn c15_rehash_plain(g: &mut Gen) -> Res {
    rehash::<P>(g, false)
}
fn rehash<A: El>(g: &mut Gen, counted: bool) -> Res {
    let hm = g.choose(HMODES);
    let cap = g.pick(&[14, 28, 56]);
    let mut w: W<A> = W { t: HashTable::with_capacity(cap), model: vec![], hm, ids: 200, inst: 0, e: E::default(), g: G::default() };
    let cap = w.t.capacity();
    // fill, then remove so that deleted markers use up the room
    for i in 0..cap as u32 {
        let x = w.fresh(i);
        let r = x.row(hm);
        let hf = w.hasher();
        w.t.insert_unique(r.1, x, hf);
        w.model.push(r);
    }
    let keep = 1 + g.choose(cap as u32 / 2 - 1) as usize;
    while w.model.len() > keep {
        let i = g.choose(w.model.len() as u32) as usize;
        let r = w.model.swap_remove(i);
        let Ok(o) = w.t.find_entry(r.1, |x, _, _| Ok(x.row(hm) == r), &mut w.e, &mut w.g).unwrap() else { return Err("not found".into()) };
        drop(o.remove());
    }
    w.check()?;
    g.log(|| format!("capacity {cap}, {keep} kept"));
    let before = w.model.clone();
    let at = g.choose(keep as u32 + 1);
    let mut n = 0;
    // up to half the capacity is made room for in place, more by growing
    let left = w.t.capacity() - w.t.len();
    let room = if left < cap / 2 - keep { left + 1 + g.choose((cap / 2 - keep - left) as u32) as usize } else { cap - keep };
    let nc = std::cell::Cell::new(0);
    let r = silent(|| {
        w.t.reserve(room, |x| {
            let r = x.row(hm);
            nc.set(nc.get() + 1);
            if nc.get() > at {
                panic!("hasher");
            }
            r.1
        })
    });
    n += nc.get();
    g.log(|| format!("reserve {room} with {left} left: hash callback asked {n} times, panic at {at}, reserve ok {}", r.is_ok()));
    // what a search visits; the iterator trusts the count and must not be run before that is checked
    let mut found = 0;
    for r in &before {
        found += w.t.find(r.1, |x, _, _| Ok(x.row(hm) == *r), &mut w.e, &mut w.g).unwrap().is_some() as usize;
    }
    ensure!(w.t.len() == found, "len {} with {found} elements present", w.t.len());
    let now = w.rows();
    let mut pool = before.clone();
    for r in &now {
        match pool.iter().position(|x| x == r) {
            Some(i) => {
                pool.swap_remove(i);
            }
            None => return Err(format!("{r:?} held twice or never inserted")),
        }
    }
    ensure!(r.is_err() || now.len() == before.len(), "elements lost");
    ensure!(!counted || live_count() == now.len(), "{} objects alive for {} elements", live_count(), now.len());
    w.model = now;
    w.check()?;
    for _ in 0..5 {
        w.op_churn(g)?;
        w.check()?;
    }
    Ok(())
}
/// elements without size: only the number is kept
fn c12_zst(g: &mut Gen) -> Res {
    let mut t: HashTable<(), E, G, R> = HashTable::with_capacity(g.choose(9) as usize);
    let mut n = 0usize;
    let (mut e, mut gg) = (E::default(), G::default());
    let steps = g.upto(g.max_ops);
    for _ in 0..steps {
        match g.choose(6) {
            0 | 1 => {
                t.insert_unique(5, (), |_| 5);
                n += 1;
            }
            2 => match t.find_entry(5, |_, _, _| Ok(true), &mut e, &mut gg).unwrap() {
                Ok(o) => {
                    o.remove();
                    ensure!(n > 0, "removed from an empty table");
                    n -= 1;
                }
                Err(_) => ensure!(n == 0, "not found"),
            },
            3 => {
                t.shrink_to_fit(|_| 5);
            }
            4 => {
                let c = t.clone();
                ensure!(c.iter().count() == n, "clone");
            }
            _ => {
                let mut k = 0;
                t.retain(|_| {
                    k += 1;
                    k % 2 == 0
                });
                ensure!(k == n, "retain asks {k} of {n}");
                n /= 2;
            }
        }
        ensure!(t.len() == n && t.iter().count() == n && t.capacity() >= n, "len {} expected {n}", t.len());
    }
    ensure!(t.into_iter().count() == n, "into_iter");
    Ok(())
}

fn main() {
    main_with(&[
        Plan { name: "C12", f: c12, exhaustive: Some((4, 40000)), random: &[(30, 6000), (120, 1200)] },
        Plan { name: "C12_plain", f: c12_plain, exhaustive: None, random: &[(40, 4000), (150, 700)] },
        Plan { name: "C12_big", f: c12_big, exhaustive: None, random: &[(40, 300)] },
        Plan { name: "C12_churn", f: c12_churn, exhaustive: None, random: &[(30, 3000), (120, 500)] },
        Plan { name: "C12_zst", f: c12_zst, exhaustive: None, random: &[(40, 500)] },
        Plan { name: "C15", f: c15, exhaustive: Some((3, 40000)), random: &[(20, 20000), (80, 3000)] },
        Plan { name: "C15_rehash", f: c15_rehash, exhaustive: None, random: &[(10, 10000)] },
        Plan { name: "C15_rehash_plain", f: c15_rehash_plain, exhaustive: None, random: &[(10, 10000)] },
    ]);
}
