//! Ordered-map machine: the real RubyMap next to an association list.
use crate::gen::{silent, Gen};
use crate::keys::*;
use rubymap::map::{Entry, RubyMap};
use rubymap::RubyEql;

pub type M = RubyMap<K, V, E, G, R, IdB>;
/// (id, instance, value)
pub type Row = (u32, u32, u32);

pub struct W {
    pub m: M,
    pub model: Vec<Row>,
    pub hm: u32,
    pub ids: u32,
    pub inst: u32,
    pub val: u32,
    pub e: E,
    pub g: G,
}
pub type Res = Result<(), String>;

pub fn rows(m: &M) -> Vec<Row> {
    m.iter().map(|(k, v)| (k.s.id, k.inst, v.v)).collect()
}

macro_rules! ck {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
pub(crate) use ck;

impl W {
    pub fn new(g: &mut Gen) -> W {
        let hm = if g.small { g.pick(&[1, 2, 3]) } else { g.choose(HMODES) };
        let ids = if g.small { 3 } else { g.pick(&[3, 9, 12, 20, 40, 120]) };
        let cap = if g.small { g.pick(&[0, 9]) } else { g.pick(&[0, 0, 1, 8, 9, 16, 100]) };
        g.log(|| format!("new map capacity={cap} hashmode={hm} ids={ids}"));
        W { m: M::with_capacity_and_hasher(cap, IdB), model: vec![], hm, ids, inst: 0, val: 0, e: E::default(), g: G::default() }
    }
    pub fn h(&self, id: u32) -> u64 {
        hash_of(self.hm, id)
    }
    pub fn k(&mut self, id: u32) -> K {
        self.inst += 1;
        K::new(id, self.h(id), self.inst)
    }
    pub fn v(&mut self) -> V {
        self.val += 1;
        V::new(self.val)
    }
    pub fn probe(&self, id: u32) -> Probe {
        Probe { id, h: self.h(id) }
    }
    pub fn pos(&self, id: u32) -> Option<usize> {
        self.model.iter().position(|r| r.0 == id)
    }
    pub fn check_shape(&mut self) -> Res {
        ck!(self.m.len(), self.model.len(), "len");
        ck!(self.m.is_empty(), self.model.is_empty(), "is_empty");
        ck!(rows(&self.m), self.model, "entries in order");
        if self.m.capacity() < self.m.len() {
            return Err("capacity < len".into());
        }
        Ok(())
    }
    pub fn check(&mut self) -> Res {
        self.check_shape()?;
        for id in 0..self.ids {
            let p = self.probe(id);
            let want = self.pos(id);
            ck!(self.m.get_index_of(&p, &mut self.e, &mut self.g), Ok(want), "index of key {id}");
        }
        if let Some(e) = reg_err() {
            return Err(e);
        }
        Ok(())
    }
    pub fn id(&mut self, g: &mut Gen) -> u32 {
        let n = self.ids;
        g.choose(n)
    }
    /// a key that is (mostly) present
    pub fn present(&mut self, g: &mut Gen) -> u32 {
        if self.model.is_empty() || g.choose(4) == 0 {
            self.id(g)
        } else {
            let i = g.choose(self.model.len() as u32) as usize;
            self.model[i].0
        }
    }
    pub fn index(&mut self, g: &mut Gen) -> usize {
        let n = self.model.len();
        g.upto(n)
    }
    // ---- model operations
    fn m_insert(&mut self, id: u32, inst: u32, val: u32) -> (usize, Option<u32>) {
        match self.pos(id) {
            Some(i) => (i, Some(std::mem::replace(&mut self.model[i].2, val))),
            None => {
                self.model.push((id, inst, val));
                (self.model.len() - 1, None)
            }
        }
    }

    // ---- operations; each performs the step on both sides and compares the answers
    pub fn op_insert(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let (k, v) = (self.k(id), self.v());
        let (inst, val) = (k.inst, v.v);
        let full = !g.small && g.flag();
        g.log(|| format!("insert key={id} value={val}"));
        let want = self.m_insert(id, inst, val);
        if full {
            let r = self.m.insert_full(k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            ck!((r.0, r.1.map(|v| v.v)), want, "insert_full({id})");
        } else {
            let r = self.m.insert(k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            ck!(r.map(|v| v.v), want.1, "insert({id})");
        }
        Ok(())
    }
    pub fn op_fill(&mut self, g: &mut Gen) -> Res {
        let n = g.choose(30);
        let base = self.id(g);
        g.log(|| format!("insert keys {base}.. ({n} of them)"));
        for j in 0..n {
            let id = (base + j) % self.ids;
            let (k, v) = (self.k(id), self.v());
            let (inst, val) = (k.inst, v.v);
            let want = self.m_insert(id, inst, val);
            let r = self.m.insert_full(k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            ck!((r.0, r.1.map(|v| v.v)), want, "insert_full({id})");
        }
        Ok(())
    }
    pub fn op_get(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let kind = g.choose(8);
        let p = self.probe(id);
        let want = self.pos(id).map(|i| (i, self.model[i]));
        g.log(|| format!("lookup {kind} key={id}"));
        let (e, gg) = (&mut self.e, &mut self.g);
        let er = |e: R| format!("{e:?}");
        match kind {
            0 => ck!(self.m.get(&p, e, gg).map_err(er)?.map(|v| v.v), want.map(|w| w.1 .2), "get"),
            1 => ck!(self.m.contains_key(&p, e, gg).map_err(er)?, want.is_some(), "contains_key"),
            2 => ck!(self.m.get_key_value(&p, e, gg).map_err(er)?.map(|(k, v)| (k.s.id, k.inst, v.v)), want.map(|w| w.1), "get_key_value"),
            3 => ck!(self.m.get_full(&p, e, gg).map_err(er)?.map(|(i, k, v)| (i, (k.s.id, k.inst, v.v))), want, "get_full"),
            4 => {
                let nv = self.val + 100000;
                let r = self.m.get_mut(&p, e, gg).map_err(er)?;
                ck!(r.as_ref().map(|v| v.v), want.map(|w| w.1 .2), "get_mut");
                if let Some(r) = r {
                    r.v = nv;
                    self.model[want.unwrap().0].2 = nv;
                }
            }
            5 => {
                let nv = self.val + 200000;
                let r = self.m.get_full_mut(&p, e, gg).map_err(er)?;
                ck!(r.as_ref().map(|(i, k, v)| (*i, (k.s.id, k.inst, v.v))), want, "get_full_mut");
                if let Some(r) = r {
                    r.2.v = nv;
                    self.model[want.unwrap().0].2 = nv;
                }
            }
            6 => {
                // key type itself as the query
                let k = K::new(id, p.h, 0);
                ck!(self.m.get_index_of(&k, e, gg).map_err(er)?, want.map(|w| w.0), "get_index_of(K)");
            }
            _ => {
                let id2 = (id + 1) % self.ids;
                let p2 = Probe { id: id2, h: hash_of(self.hm, id2) };
                let w2 = self.pos(id2).map(|i| self.model[i].2);
                if id2 != id {
                    let r = self.m.get_disjoint_mut([&p, &p2], &mut self.e, &mut self.g).map_err(er)?;
                    ck!(r[0].as_ref().map(|v| v.v), want.map(|w| w.1 .2), "get_disjoint_mut 0");
                    ck!(r[1].as_ref().map(|v| v.v), w2, "get_disjoint_mut 1");
                }
            }
        }
        Ok(())
    }
    pub fn op_remove_key(&mut self, g: &mut Gen) -> Res {
        let id = self.present(g);
        let kind = if g.small { g.pick(&[0, 3]) } else { g.choose(7) };
        let p = self.probe(id);
        let at = self.pos(id);
        g.log(|| format!("remove {} key={id}", ["shift_remove", "shift_remove_entry", "shift_remove_full", "swap_remove", "swap_remove_entry", "swap_remove_full", "remove_entry"][kind as usize]));
        let want = at.map(|i| {
            let r = if kind < 3 { self.model.remove(i) } else { self.model.swap_remove(i) };
            (i, r)
        });
        let (e, gg) = (&mut self.e, &mut self.g);
        let er = |e: R| format!("{e:?}");
        match kind {
            0 => ck!(self.m.shift_remove(&p, e, gg).map_err(er)?.map(|v| v.v), want.map(|w| w.1 .2), "shift_remove"),
            1 => ck!(self.m.shift_remove_entry(&p, e, gg).map_err(er)?.map(|(k, v)| (k.s.id, k.inst, v.v)), want.map(|w| w.1), "shift_remove_entry"),
            2 => ck!(self.m.shift_remove_full(&p, e, gg).map_err(er)?.map(|(i, k, v)| (i, (k.s.id, k.inst, v.v))), want, "shift_remove_full"),
            3 => ck!(self.m.swap_remove(&p, e, gg).map_err(er)?.map(|v| v.v), want.map(|w| w.1 .2), "swap_remove"),
            4 => ck!(self.m.swap_remove_entry(&p, e, gg).map_err(er)?.map(|(k, v)| (k.s.id, k.inst, v.v)), want.map(|w| w.1), "swap_remove_entry"),
            5 => ck!(self.m.swap_remove_full(&p, e, gg).map_err(er)?.map(|(i, k, v)| (i, (k.s.id, k.inst, v.v))), want, "swap_remove_full"),
            #[allow(deprecated)]
            _ => ck!(self.m.remove_entry(&p, e, gg).map_err(er)?.map(|(k, v)| (k.s.id, k.inst, v.v)), want.map(|w| w.1), "remove_entry"),
        }
        Ok(())
    }
    pub fn op_remove_index(&mut self, g: &mut Gen) -> Res {
        let i = self.index(g);
        let shift = g.flag();
        g.log(|| format!("{}_remove_index {i}", if shift { "shift" } else { "swap" }));
        let want = if i < self.model.len() { Some(if shift { self.model.remove(i) } else { self.model.swap_remove(i) }) } else { None };
        let r = if shift { self.m.shift_remove_index(i, &mut self.e, &mut self.g) } else { self.m.swap_remove_index(i, &mut self.e, &mut self.g) };
        ck!(r.map_err(|e| format!("{e:?}"))?.map(|(k, v)| (k.s.id, k.inst, v.v)), want, "remove_index({i})");
        Ok(())
    }
    pub fn op_pop(&mut self, g: &mut Gen) -> Res {
        g.log(|| "pop".into());
        let want = self.model.pop();
        let r = self.m.pop(&mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
        ck!(r.map(|(k, v)| (k.s.id, k.inst, v.v)), want, "pop");
        Ok(())
    }
    pub fn op_truncate(&mut self, g: &mut Gen) -> Res {
        let n = if g.flag() { self.index(g) } else { self.model.len() + g.choose(3) as usize };
        g.log(|| format!("truncate {n}"));
        self.model.truncate(n);
        self.m.truncate(n, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))
    }
    pub fn op_clear(&mut self, g: &mut Gen) -> Res {
        g.log(|| "clear".into());
        self.model.clear();
        self.m.clear();
        Ok(())
    }
    pub fn op_drain(&mut self, g: &mut Gen) -> Res {
        let n = self.model.len();
        let a = g.upto(n);
        let b = a + g.upto(n - a);
        let form = g.choose(4);
        let mode = g.choose(3);
        g.log(|| format!("drain {a}..{b} form {form} consume-mode {mode}"));
        let (lo, hi) = match form { 0 => (a, b), 1 => (a, n), 2 => (0, b), _ => (0, n) };
        let want: Vec<Row> = self.model.drain(lo..hi).collect();
        let er = |e: R| format!("{e:?}");
        let mut d = match form {
            0 => self.m.drain(a..b, &mut self.e, &mut self.g),
            1 => self.m.drain(a.., &mut self.e, &mut self.g),
            2 => self.m.drain(..b, &mut self.e, &mut self.g),
            _ => self.m.drain(.., &mut self.e, &mut self.g),
        }
        .map_err(er)?;
        match mode {
            0 => {
                let got: Vec<Row> = d.map(|(k, v)| (k.s.id, k.inst, v.v)).collect();
                ck!(got, want, "drained");
            }
            1 => {
                let got: Vec<Row> = d.rev().map(|(k, v)| (k.s.id, k.inst, v.v)).collect();
                let mut w = want.clone();
                w.reverse();
                ck!(got, w, "drained backwards");
            }
            _ => {
                ck!(d.len(), want.len(), "drain len");
                ck!(d.next().map(|(k, v)| (k.s.id, k.inst, v.v)), want.first().copied(), "drain first");
                drop(d);
            }
        }
        Ok(())
    }
    pub fn op_split(&mut self, g: &mut Gen) -> Res {
        let at = self.index(g);
        let keep_tail = g.flag();
        g.log(|| format!("split_off {at}, continue with the {}", if keep_tail { "tail" } else { "head" }));
        let tail_m = self.model.split_off(at);
        let tail = self.m.split_off(at, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
        ck!(rows(&tail), tail_m, "split tail");
        if keep_tail {
            self.check()?;
            self.model = tail_m;
            self.m = tail;
        } else {
            let mut w = W { m: tail, model: tail_m, hm: self.hm, ids: self.ids, inst: 0, val: 0, e: E::default(), g: G::default() };
            w.check()?;
        }
        Ok(())
    }
    pub fn op_retain(&mut self, g: &mut Gen) -> Res {
        let m = 1 + g.choose(5);
        let r = g.choose(m);
        let add = g.flag();
        g.log(|| format!("retain keys with id % {m} != {r}, touching values: {add}"));
        for x in self.model.iter_mut() {
            if add {
                x.2 += 1;
            }
        }
        self.model.retain(|x| x.0 % m != r);
        let mut seen = vec![];
        self.m.retain(|k, v| {
            seen.push(k.inst);
            if add {
                v.v += 1;
            }
            k.s.id % m != r
        });
        Ok(())
    }
    pub fn op_move(&mut self, g: &mut Gen) -> Res {
        let n = self.model.len();
        if n == 0 {
            return Ok(());
        }
        if !g.small && g.choose(20) == 0 {
            // out of range: refused, nothing changed
            let (f, t) = if g.flag() { (n, g.upto(n - 1)) } else { (g.upto(n - 1), n) };
            g.log(|| format!("move_index {f}->{t} (out of range)"));
            let (m, e, gg) = (&mut self.m, &mut self.e, &mut self.g);
            if silent(|| m.move_index(f, t, e, gg)).is_ok() {
                return Err("out-of-range move_index accepted".into());
            }
            return Ok(());
        }
        let f = g.upto(n - 1);
        let t = g.upto(n - 1);
        g.log(|| format!("move_index {f}->{t}"));
        let x = self.model.remove(f);
        self.model.insert(t, x);
        self.m.move_index(f, t, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))
    }
    pub fn op_insert_at(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let i = self.index(g);
        let before = g.flag();
        let (k, v) = (self.k(id), self.v());
        let (inst, val) = (k.inst, v.v);
        let at = self.pos(id);
        g.log(|| format!("{} index={i} key={id}", if before { "insert_before" } else { "shift_insert" }));
        if before {
            let want = match at {
                Some(p) => {
                    let j = if i > p { i - 1 } else { i };
                    let mut x = self.model.remove(p);
                    let old = std::mem::replace(&mut x.2, val);
                    self.model.insert(j, x);
                    (j, Some(old))
                }
                None => {
                    self.model.insert(i, (id, inst, val));
                    (i, None)
                }
            };
            let r = self.m.insert_before(i, k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            ck!((r.0, r.1.map(|v| v.v)), want, "insert_before");
        } else {
            if at.is_some() && i == self.model.len() {
                let (m, e, gg) = (&mut self.m, &mut self.e, &mut self.g);
                if silent(|| m.shift_insert(i, k, v, e, gg)).is_ok() {
                    return Err("out-of-range shift_insert accepted".into());
                }
                return Ok(());
            }
            let want = match at {
                Some(p) => {
                    let mut x = self.model.remove(p);
                    let old = std::mem::replace(&mut x.2, val);
                    self.model.insert(i, x);
                    Some(old)
                }
                None => {
                    self.model.insert(i, (id, inst, val));
                    None
                }
            };
            let r = self.m.shift_insert(i, k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            ck!(r.map(|v| v.v), want, "shift_insert");
        }
        Ok(())
    }
    pub fn op_insert_sorted(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let (k, v) = (self.k(id), self.v());
        let (inst, val) = (k.inst, v.v);
        g.log(|| format!("sort_keys then insert_sorted key={id}"));
        self.model.sort_by_key(|r| r.0);
        self.m.sort_keys();
        self.check()?;
        let want = match self.model.binary_search_by_key(&id, |r| r.0) {
            Ok(i) => (i, Some(std::mem::replace(&mut self.model[i].2, val))),
            Err(i) => {
                self.model.insert(i, (id, inst, val));
                (i, None)
            }
        };
        let r = self.m.insert_sorted(k, v, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
        ck!((r.0, r.1.map(|v| v.v)), want, "insert_sorted");
        Ok(())
    }
    pub fn op_sort(&mut self, g: &mut Gen) -> Res {
        let kind = g.choose(8);
        let m = 1 + g.choose(7);
        g.log(|| format!("sort kind {kind} mod {m}"));
        let key = |r: &Row| (r.0.wrapping_mul(7) + r.2) % m;
        match kind {
            0 => {
                self.model.sort_by_key(|r| r.0);
                self.m.sort_keys();
            }
            1 => {
                self.model.sort_by_key(key);
                self.m.sort_by(|k1, v1, k2, v2| {
                    key(&(k1.s.id, 0, v1.v)).cmp(&key(&(k2.s.id, 0, v2.v)))
                });
            }
            2 => {
                self.model.sort_by_key(|r| std::cmp::Reverse(r.0));
                self.m.sort_unstable_by(|k1, _, k2, _| k2.s.id.cmp(&k1.s.id));
            }
            3 => {
                self.model.sort_by_key(|r| r.0);
                self.m.sort_unstable_keys();
            }
            4 => {
                self.model.sort_by_key(key);
                self.m.sort_by_cached_key(|k, v| key(&(k.s.id, 0, v.v)));
            }
            5 => {
                let mut w = self.model.clone();
                w.sort_by_key(key);
                let got: Vec<Row> = self.m.clone().sorted_by(|k1, v1, k2, v2| key(&(k1.s.id, 0, v1.v)).cmp(&key(&(k2.s.id, 0, v2.v)))).map(|(k, v)| (k.s.id, k.inst, v.v)).collect();
                ck!(got, w, "sorted_by");
            }
            6 => {
                let mut w = self.model.clone();
                w.sort_by_key(|r| r.0);
                let got: Vec<Row> = self.m.clone().sorted_unstable_by(|k1, _, k2, _| k1.cmp(k2)).map(|(k, v)| (k.s.id, k.inst, v.v)).collect();
                ck!(got, w, "sorted_unstable_by");
            }
            _ => {
                self.model.reverse();
                self.m.reverse();
            }
        }
        Ok(())
    }
    pub fn op_capacity(&mut self, g: &mut Gen) -> Res {
        let kind = g.choose(4);
        let n = g.pick(&[0usize, 1, 5, 8, 9, 17, 40]);
        g.log(|| format!("{} {n}", ["reserve", "reserve_exact", "shrink_to", "shrink_to_fit"][kind as usize]));
        match kind {
            0 => self.m.reserve(n),
            1 => self.m.reserve_exact(n),
            2 => self.m.shrink_to(n),
            _ => self.m.shrink_to_fit(),
        }
        if kind < 2 && self.m.capacity() < self.m.len() + n {
            return Err(format!("capacity {} after reserving {} for {}", self.m.capacity(), n, self.m.len()));
        }
        Ok(())
    }
    pub fn op_variant(&mut self, g: &mut Gen) -> Res {
        let id = self.id(g);
        let kind = g.choose(6);
        let h = self.h(id);
        g.log(|| format!("{} key={id}", ["insert_sym", "insert_sym_full", "insert_prehashed", "insert_prehashed_with", "get_prehashed", "get_prehashed_with"][kind as usize]));
        let calls = self.e.calls;
        match kind {
            0 | 1 => {
                let v = self.v();
                let val = v.v;
                let want = self.m_insert(id, 777, val);
                if kind == 0 {
                    ck!(self.m.insert_sym(Sym { id, h }, v).map(|v| v.v), want.1, "insert_sym");
                } else {
                    let r = self.m.insert_sym_full(Sym { id, h }, v);
                    ck!((r.0, r.1.map(|v| v.v)), want, "insert_sym_full");
                }
            }
            2 | 3 => {
                let (k, v) = (self.k(id), self.v());
                let (inst, val) = (k.inst, v.v);
                let want = self.m_insert(id, inst, val);
                let r = if kind == 2 { self.m.insert_prehashed(h as usize, k, v) } else { self.m.insert_prehashed_with(h as usize, k, v, |k: &K| k.s.id == id) };
                ck!(r.map(|v| v.v), want.1, "insert_prehashed");
            }
            _ => {
                let want = self.pos(id).map(|i| self.model[i].2);
                let k = K::new(id, h, 0);
                let r = if kind == 4 { self.m.get_prehashed(h as usize, &k, &mut self.e, &mut self.g) } else { self.m.get_prehashed_with(h as usize, |k: &K| k.s.id == id, &mut self.e, &mut self.g) };
                ck!(r.map_err(|e| format!("{e:?}"))?.map(|v| v.v), want, "get_prehashed");
            }
        }
        ck!(self.e.calls, calls, "callbacks made by a fast path");
        Ok(())
    }
    pub fn op_tombstones(&mut self, g: &mut Gen) -> Res {
        let mut live: Vec<bool> = vec![true; self.model.len()];
        let steps = g.choose(if g.small { 3 } else { 8 });
        for _ in 0..steps {
            let (dk, dv) = (K::new(DEAD, g.pick(&[0u64, 1, u64::MAX]), 0), V::new(0));
            if g.flag() || self.model.is_empty() {
                let id = self.id(g);
                g.log(|| format!("tombstone_remove key={id}"));
                let p = self.probe(id);
                let want = self.model.iter().enumerate().find(|(i, r)| live[*i] && r.0 == id).map(|(i, r)| (i, *r));
                let r = self.m.tombstone_remove(&p, dk, dv, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
                ck!(r.map(|(i, k, v)| (i, (k.s.id, k.inst, v.v))), want, "tombstone_remove");
                if let Some((i, _)) = want {
                    live[i] = false;
                }
            } else {
                // only live positions may be named, or one past the end
                let i = g.choose(self.model.len() as u32 + 1) as usize;
                if i < live.len() && !live[i] {
                    continue;
                }
                g.log(|| format!("tombstone_index {i}"));
                let want = self.model.get(i).copied();
                let r = self.m.tombstone_index(i, dk, dv, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
                ck!(r.map(|(k, v)| (k.s.id, k.inst, v.v)), want, "tombstone_index");
                if i < live.len() {
                    live[i] = false;
                }
            }
            ck!(self.m.len(), self.model.len(), "len inside the window");
            for (i, (k, v)) in self.m.iter().enumerate() {
                if live[i] {
                    ck!((k.s.id, k.inst, v.v), self.model[i], "entry {i} inside the window");
                } else {
                    ck!(k.s.id, DEAD, "dead entry {i}");
                }
            }
            for id in 0..self.ids {
                let p = self.probe(id);
                let want = self.model.iter().enumerate().find(|(i, r)| live[*i] && r.0 == id).map(|(i, _)| i);
                ck!(self.m.get_index_of(&p, &mut self.e, &mut self.g), Ok(want), "index of key {id} inside the window");
            }
            for i in 0..live.len() {
                if !live[i] {
                    let p = Probe { id: DEAD, h: self.h(self.model[i].0) };
                    ck!(self.m.get_index_of(&p, &mut self.e, &mut self.g), Ok(None), "dead entry {i} reachable by its marker");
                }
            }
            if g.choose(4) == 1 {
                if let Some(i) = (0..live.len()).find(|&i| live[i]) {
                    let (id, h) = (self.model[i].0, self.h(self.model[i].0));
                    self.val += 1;
                    g.log(|| format!("store to live key={id} inside the window"));
                    let r = self.m.insert_full(K::new(id, h, 7777), V::new(self.val), &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
                    ck!((r.0, r.1.map(|v| v.v)), (i, Some(self.model[i].2)), "store inside the window");
                    self.model[i].2 = self.val;
                }
            }
        }
        g.log(|| "compact_tombstones".into());
        let mut i = 0;
        self.model.retain(|_| {
            i += 1;
            live[i - 1]
        });
        self.m.compact_tombstones(|k| k.s.id == DEAD);
        Ok(())
    }
    /// some other map with its own history
    pub fn other(&mut self, g: &mut Gen) -> Result<W, String> {
        let cap = g.pick(&[0usize, 9, 30]);
        let mut w = W { m: M::with_capacity_and_hasher(cap, IdB), model: vec![], hm: self.hm, ids: self.ids, inst: 5000, val: 5000, e: E::default(), g: G::default() };
        let n = if g.small { g.choose(3) } else { g.choose(14) };
        for _ in 0..n {
            w.op_insert(g)?;
        }
        if g.flag() {
            w.op_pop(g)?;
        }
        Ok(w)
    }
    pub fn op_copy(&mut self, g: &mut Gen) -> Res {
        match g.choose(7) {
            0 => {
                g.log(|| "continue with a clone".into());
                let c = self.m.clone();
                let keep = std::mem::replace(&mut self.m, c);
                self.check()?;
                let model = self.model.clone();
                // mutate the original; the clone must not notice
                let mut w = W { m: keep, model, hm: self.hm, ids: self.ids, inst: 9000, val: 9000, e: E::default(), g: G::default() };
                w.op_insert(g)?;
                w.op_pop(g)?;
                w.check()?;
            }
            1 => {
                let mut o = self.other(g)?;
                g.log(|| "clone_from onto another map, continue with it".into());
                o.m.clone_from(&self.m);
                std::mem::swap(&mut o.m, &mut self.m);
            }
            2 => {
                let o = self.other(g)?;
                g.log(|| "extend with another map".into());
                for r in &o.model {
                    self.m_insert(r.0, r.1, r.2);
                }
                let W { m, .. } = o;
                self.m.extend(m, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            }
            3 => {
                let mut o = self.other(g)?;
                g.log(|| "append another map".into());
                for r in &o.model {
                    self.m_insert(r.0, r.1, r.2);
                }
                self.m.append(&mut o.m, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
                o.model.clear();
                o.check()?;
            }
            4 => {
                g.log(|| "rebuild with from_iter".into());
                let old = std::mem::replace(&mut self.m, M::with_capacity_and_hasher(0, IdB));
                self.m = M::from_iter(old, &mut self.e, &mut self.g).map_err(|e| format!("{e:?}"))?;
            }
            5 => {
                g.log(|| "map_keys (re-instance every key)".into());
                let old = std::mem::replace(&mut self.m, M::with_capacity_and_hasher(0, IdB));
                for r in self.model.iter_mut() {
                    r.1 += 100_000;
                }
                self.m = old.map_keys(|k| K::new(k.s.id, k.s.h, k.inst + 100_000));
            }
            _ => {
                let o = self.other(g)?;
                g.log(|| "compare with another map".into());
                self.check_eq_with(&o)?;
            }
        }
        Ok(())
    }
    fn check_eq_with(&mut self, o: &W) -> Res {
        // eql of ordered maps over the default hasher type
        type D = RubyMap<K, V, E, G, R>;
        let mk = |rows: &[Row], hm: u32, cap: usize| -> D {
            let mut d = D::with_capacity(cap);
            for r in rows {
                d.insert(K::new(r.0, hash_of(hm, r.0), r.1), V::new(r.2), &mut E::default(), &mut G::default()).unwrap();
            }
            d
        };
        let same = |a: &[Row], b: &[Row]| a.len() == b.len() && a.iter().all(|x| b.iter().any(|y| x.0 == y.0 && x.2 == y.2));
        let mut perm = self.model.clone();
        perm.reverse();
        let mut diff = perm.clone();
        if let Some(x) = diff.last_mut() {
            x.2 += 1;
        }
        let mut renamed = self.model.clone();
        if let Some(x) = renamed.first_mut() {
            x.0 = self.ids + 1;
        }
        let mut longer = self.model.clone();
        longer.push((self.ids + 2, 0, 0));
        for (x, y) in [(&self.model, &o.model), (&self.model, &perm), (&self.model, &diff), (&self.model, &renamed), (&renamed, &self.model), (&longer, &self.model), (&self.model, &longer)] {
            let (a, b) = (mk(x, self.hm, 0), mk(y, self.hm, 9));
            ck!(a.eql(&b, &mut E::default(), &mut G::default()), Ok(same(x, y)), "eql of {:?} and {:?}", x, y);
            ck!(b.eql(&a, &mut E::default(), &mut G::default()), Ok(same(x, y)), "eql of {:?} and {:?}", y, x);
            type P = RubyMap<u32, u32>;
            let pm = |r: &[Row]| -> P {
                let mut p = P::new();
                for x in r {
                    p.insert(x.0, x.2, &mut (), &mut ()).unwrap();
                }
                p
            };
            ck!(pm(x) == pm(y), same(x, y), "== of {:?} and {:?}", x, y);
        }
        Ok(())
    }
    pub fn op_entry(&mut self, g: &mut Gen) -> Res {
        let id = self.present(g);
        let (k, v) = (self.k(id), self.v());
        let (inst, val) = (k.inst, v.v);
        let at = self.pos(id);
        let n = self.model.len();
        let er = |e: R| format!("{e:?}");
        let act = g.choose(13);
        g.log(|| format!("entry key={id} action {act}"));
        let en = self.m.entry(k, &mut self.e, &mut self.g).map_err(er)?;
        ck!(matches!(en, Entry::Occupied(_)), at.is_some(), "entry occupied");
        ck!(en.index(), at.unwrap_or(n), "entry index");
        ck!(en.key().s.id, id, "entry key");
        let (e, gg) = (&mut self.e, &mut self.g);
        match act {
            0 => {
                let r = en.or_insert(v);
                let want = at.map(|i| self.model[i].2).unwrap_or(val);
                ck!(r.v, want, "or_insert");
                if at.is_none() {
                    self.model.push((id, inst, val));
                }
            }
            1 => {
                let mut called = false;
                let r = en.or_insert_with(|| {
                    called = true;
                    v
                });
                ck!(r.v, at.map(|i| self.model[i].2).unwrap_or(val), "or_insert_with");
                ck!(called, at.is_none(), "or_insert_with called");
                if at.is_none() {
                    self.model.push((id, inst, val));
                }
            }
            2 => {
                let r = en.and_modify(|x| x.v += 7).or_insert_with_key(|k| V::new(k.s.id + 50));
                let want = at.map(|i| self.model[i].2 + 7).unwrap_or(id + 50);
                ck!(r.v, want, "and_modify");
                match at {
                    Some(i) => self.model[i].2 += 7,
                    None => self.model.push((id, inst, id + 50)),
                }
            }
            3 => {
                let o = en.insert_entry(v);
                ck!(o.index(), at.unwrap_or(n), "insert_entry index");
                ck!(o.get().v, val, "insert_entry value");
                match at {
                    Some(i) => self.model[i].2 = val,
                    None => self.model.push((id, inst, val)),
                }
            }
            _ => match en {
                Entry::Vacant(ve) => match act {
                    4 | 5 => {
                        let r = ve.insert(v);
                        ck!(r.v, val, "vacant insert");
                        self.model.push((id, inst, val));
                    }
                    6 | 7 | 8 => {
                        let i = g.upto(n);
                        g.log(|| format!("  shift_insert at {i}"));
                        let r = ve.shift_insert(i, v, e, gg).map_err(er)?;
                        ck!(r.v, val, "vacant shift_insert");
                        self.model.insert(i, (id, inst, val));
                    }
                    9 => {
                        let o = ve.insert_entry(v);
                        ck!((o.index(), o.key().inst, o.get().v), (n, inst, val), "vacant insert_entry");
                        // act on the fresh occupied entry
                        let (k, vv) = o.swap_remove_entry(e, gg).map_err(er)?;
                        ck!((k.inst, vv.v), (inst, val), "fresh entry removal");
                    }
                    10 => {
                        // sorted insertion needs sorted keys
                        let sorted = self.model.windows(2).all(|w| w[0].0 < w[1].0);
                        if sorted {
                            let r = ve.insert_sorted(v, e, gg).map_err(er)?;
                            let i = self.model.partition_point(|r| r.0 < id);
                            ck!((r.0, r.1.v), (i, val), "vacant insert_sorted");
                            self.model.insert(i, (id, inst, val));
                        }
                    }
                    _ => {
                        ck!(ve.into_key().inst, inst, "vacant into_key");
                    }
                },
                Entry::Occupied(mut oe) => {
                    let i = at.unwrap();
                    ck!(oe.get().v, self.model[i].2, "occupied get");
                    ck!(oe.key().inst, self.model[i].1, "occupied key is the stored one");
                    match act {
                        4 => {
                            ck!(oe.insert(v).v, self.model[i].2, "occupied insert returns old");
                            self.model[i].2 = val;
                        }
                        5 => {
                            oe.get_mut().v = val;
                            oe.into_mut().v += 1;
                            self.model[i].2 = val + 1;
                        }
                        6 => {
                            let r = oe.swap_remove_entry(e, gg).map_err(er)?;
                            ck!((r.0.s.id, r.0.inst, r.1.v), self.model.swap_remove(i), "swap_remove_entry");
                        }
                        7 => {
                            let r = oe.shift_remove_entry(e, gg).map_err(er)?;
                            ck!((r.0.s.id, r.0.inst, r.1.v), self.model.remove(i), "shift_remove_entry");
                        }
                        8 => {
                            ck!(oe.swap_remove(e, gg).map_err(er)?.v, self.model.swap_remove(i).2, "swap_remove");
                        }
                        9 => {
                            ck!(oe.shift_remove(e, gg).map_err(er)?.v, self.model.remove(i).2, "shift_remove");
                        }
                        10 | 11 => {
                            let t = g.upto(n - 1);
                            g.log(|| format!("  move_index to {t}"));
                            oe.move_index(t, e, gg).map_err(er)?;
                            let x = self.model.remove(i);
                            self.model.insert(t, x);
                        }
                        _ => {
                            #[allow(deprecated)]
                            let r = oe.remove_entry(e, gg).map_err(er)?;
                            ck!((r.0.s.id, r.0.inst, r.1.v), self.model.swap_remove(i), "remove_entry");
                        }
                    }
                }
            },
        }
        Ok(())
    }
    pub fn op_indexed_entry(&mut self, g: &mut Gen) -> Res {
        let i = self.index(g);
        let n = self.model.len();
        let how = g.choose(3);
        let act = g.choose(7);
        let i = match how { 0 => i, 1 => 0, _ => n.saturating_sub(1) };
        g.log(|| format!("indexed entry {i} action {act}"));
        let v = self.v();
        let val = v.v;
        let er = |e: R| format!("{e:?}");
        let want = self.model.get(i).copied();
        let en = match how { 0 => self.m.get_index_entry(i), 1 => self.m.first_entry(), _ => self.m.last_entry() };
        ck!(en.as_ref().map(|x| (x.key().s.id, x.key().inst, x.get().v)), want, "indexed entry");
        let (e, gg) = (&mut self.e, &mut self.g);
        if let Some(mut en) = en {
            ck!(en.index(), i, "indexed entry index");
            match act {
                0 => {
                    ck!(en.insert(v).v, self.model[i].2, "insert");
                    self.model[i].2 = val;
                }
                1 => {
                    en.get_mut().v = val;
                    en.into_mut().v += 3;
                    self.model[i].2 = val + 3;
                }
                2 => {
                    let r = en.swap_remove_entry(e, gg).map_err(er)?;
                    ck!((r.0.s.id, r.0.inst, r.1.v), self.model.swap_remove(i), "swap_remove_entry");
                }
                3 => {
                    let r = en.shift_remove_entry(e, gg).map_err(er)?;
                    ck!((r.0.s.id, r.0.inst, r.1.v), self.model.remove(i), "shift_remove_entry");
                }
                4 => {
                    ck!(en.swap_remove(e, gg).map_err(er)?.v, self.model.swap_remove(i).2, "swap_remove");
                }
                5 => {
                    ck!(en.shift_remove(e, gg).map_err(er)?.v, self.model.remove(i).2, "shift_remove");
                }
                _ => {
                    let t = g.upto(n - 1);
                    g.log(|| format!("  move_index to {t}"));
                    en.move_index(t, e, gg).map_err(er)?;
                    let x = self.model.remove(i);
                    self.model.insert(t, x);
                }
            }
        }
        Ok(())
    }
}

pub type Op = fn(&mut W, &mut Gen) -> Res;
pub fn drive(g: &mut Gen, ops: &[Op]) -> Res {
    let mut w = W::new(g);
    let n = if g.small { g.max_ops } else { g.upto(g.max_ops) };
    for _ in 0..n {
        let o = g.choose(ops.len() as u32) as usize;
        ops[o](&mut w, g)?;
        w.check()?;
    }
    Ok(())
}
