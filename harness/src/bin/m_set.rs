//! Ordered sets against a plain list without duplicates.
use ruby_traits::RubyEql;
use rubymap::RubySet;
use vharness::gen::*;
use vharness::keys::*;

type Res = Result<(), String>;
type S = RubySet<K, E, G, R, IdB>;
/// (id, instance) in order
type Row = (u32, u32);
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
struct W {
    s: S,
    model: Vec<Row>,
    hm: u32,
    ids: u32,
    inst: u32,
    e: E,
    g: G,
}
fn rows(s: &S) -> Vec<Row> {
    s.iter().map(|k| (k.s.id, k.inst)).collect()
}
impl W {
    fn k(&mut self, id: u32) -> K {
        self.inst += 1;
        K::new(id, hash_of(self.hm, id), self.inst)
    }
    fn q(&self, id: u32) -> Probe {
        Probe { id, h: hash_of(self.hm, id) }
    }
    fn pos(&self, id: u32) -> Option<usize> {
        self.model.iter().position(|r| r.0 == id)
    }
    fn check(&mut self) -> Res {
        ensure!(rows(&self.s) == self.model, "set holds {:?}, expected {:?}", rows(&self.s), self.model);
        ensure!(self.s.len() == self.model.len() && self.s.is_empty() == self.model.is_empty(), "len");
        for id in 0..self.ids.min(30) {
            let q = self.q(id);
            let p = self.pos(id);
            let i = self.s.get_index_of(&q, &mut self.e, &mut self.g).unwrap();
            ensure!(i == p, "get_index_of({id}) = {i:?}, expected {p:?}");
        }
        if let Some(e) = reg_err() {
            return Err(e);
        }
        Ok(())
    }
    fn step(&mut self, g: &mut Gen) -> Res {
        let id = g.choose(self.ids);
        let how = g.choose(26);
        let q = self.q(id);
        let p = self.pos(id);
        let n = self.model.len();
        let (old, old_i) = (p.map(|p| self.model[p]), p);
        g.log(|| format!("op {how} on {id}"));
        match how {
            0..=2 => {
                let k = self.k(id);
                let inst = k.inst;
                if how == 0 {
                    let r = self.s.insert_full(k, &mut self.e, &mut self.g).unwrap();
                    ensure!(r == (p.unwrap_or(n), p.is_none()), "insert_full {r:?}");
                } else {
                    ensure!(self.s.insert(k, &mut self.e, &mut self.g).unwrap() == p.is_none(), "insert");
                }
                if p.is_none() {
                    self.model.push((id, inst));
                }
            }
            3 | 4 => {
                let k = self.k(id);
                let inst = k.inst;
                if how == 3 {
                    let r = self.s.replace_full(k, &mut self.e, &mut self.g).unwrap();
                    ensure!((r.0, r.1.map(|k| (k.s.id, k.inst))) == (p.unwrap_or(n), old), "replace_full");
                } else {
                    let r = self.s.replace(k, &mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst));
                    ensure!(r == old, "replace {r:?}");
                }
                match p {
                    Some(p) => self.model[p] = (id, inst),
                    None => self.model.push((id, inst)),
                }
            }
            5 => {
                let r = self.s.swap_remove(&q, &mut self.e, &mut self.g).unwrap();
                ensure!(r == p.is_some(), "swap_remove {r}");
                if let Some(p) = p {
                    self.model.swap_remove(p);
                }
            }
            6 => {
                let r = self.s.shift_remove(&q, &mut self.e, &mut self.g).unwrap();
                ensure!(r == p.is_some(), "shift_remove {r}");
                if let Some(p) = p {
                    self.model.remove(p);
                }
            }
            7 => {
                let r = self.s.swap_take(&q, &mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst));
                ensure!(r == old, "swap_take {r:?}");
                if let Some(p) = p {
                    self.model.swap_remove(p);
                }
            }
            8 => {
                let r = self.s.shift_take(&q, &mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst));
                ensure!(r == old, "shift_take {r:?}");
                if let Some(p) = p {
                    self.model.remove(p);
                }
            }
            9 => {
                let r = self.s.swap_remove_full(&q, &mut self.e, &mut self.g).unwrap().map(|(i, k)| (i, (k.s.id, k.inst)));
                ensure!(r == old.map(|o| (old_i.unwrap(), o)), "swap_remove_full {r:?}");
                if let Some(p) = p {
                    self.model.swap_remove(p);
                }
            }
            10 => {
                let r = self.s.shift_remove_full(&q, &mut self.e, &mut self.g).unwrap().map(|(i, k)| (i, (k.s.id, k.inst)));
                ensure!(r == old.map(|o| (old_i.unwrap(), o)), "shift_remove_full {r:?}");
                if let Some(p) = p {
                    self.model.remove(p);
                }
            }
            11 => {
                let r = self.s.pop(&mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst));
                ensure!(r == self.model.pop(), "pop {r:?}");
            }
            12 => {
                let r = self.s.get(&q, &mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst));
                ensure!(r == old, "get {r:?}");
                let r = self.s.get_full(&q, &mut self.e, &mut self.g).unwrap().map(|(i, k)| (i, (k.s.id, k.inst)));
                ensure!(r == old.map(|o| (old_i.unwrap(), o)), "get_full {r:?}");
                ensure!(self.s.contains(&q, &mut self.e, &mut self.g).unwrap() == p.is_some(), "contains");
            }
            13 => {
                let m = 1 + g.choose(4);
                let c = g.choose(m);
                let mut seen = vec![];
                self.s.retain(|k| {
                    seen.push((k.s.id, k.inst));
                    k.s.id % m == c
                });
                ensure!(seen == self.model, "retain asks in another order");
                self.model.retain(|r| r.0 % m == c);
            }
            14 => {
                let i = g.upto(n + 1);
                let how = g.flag();
                let r = if how { self.s.swap_remove_index(i, &mut self.e, &mut self.g).unwrap() } else { self.s.shift_remove_index(i, &mut self.e, &mut self.g).unwrap() };
                let r = r.map(|k| (k.s.id, k.inst));
                ensure!(r == self.model.get(i).copied(), "remove_index({i}) {r:?}");
                if i < n {
                    if how {
                        self.model.swap_remove(i);
                    } else {
                        self.model.remove(i);
                    }
                }
            }
            15 => {
                if n > 0 {
                    let (a, b) = (g.choose(n as u32) as usize, g.choose(n as u32) as usize);
                    self.s.move_index(a, b, &mut self.e, &mut self.g).unwrap();
                    let x = self.model.remove(a);
                    self.model.insert(b, x);
                }
            }
            16 => {
                // insertion at a position: an existing value is moved there
                let k = self.k(id);
                let inst = k.inst;
                let i = match p {
                    Some(_) => g.choose(n as u32) as usize,
                    None => g.upto(n),
                };
                let r = self.s.shift_insert(i, k, &mut self.e, &mut self.g).unwrap();
                ensure!(r == p.is_none(), "shift_insert {r}");
                match p {
                    Some(p) => {
                        let x = self.model.remove(p);
                        self.model.insert(i, x);
                    }
                    None => self.model.insert(i, (id, inst)),
                }
            }
            17 => {
                let k = self.k(id);
                let inst = k.inst;
                let i = g.upto(n);
                let r = self.s.insert_before(i, k, &mut self.e, &mut self.g).unwrap();
                let at = match p {
                    Some(p) => {
                        let x = self.model.remove(p);
                        let at = if p < i { i - 1 } else { i };
                        self.model.insert(at, x);
                        at
                    }
                    None => {
                        self.model.insert(i, (id, inst));
                        i
                    }
                };
                ensure!(r == (at, p.is_none()), "insert_before({i}) {r:?}, expected {at}");
            }
            18 => {
                match g.choose(6) {
                    0 => {
                        self.s.sort();
                        self.model.sort_by_key(|r| r.0);
                    }
                    1 => {
                        self.s.sort_by(|a, b| b.s.id.cmp(&a.s.id));
                        self.model.sort_by(|a, b| b.0.cmp(&a.0));
                    }
                    2 => {
                        self.s.sort_unstable();
                        self.model.sort_by_key(|r| r.0);
                    }
                    3 => {
                        self.s.sort_by_cached_key(|k| std::cmp::Reverse(k.s.id));
                        self.model.sort_by_key(|r| std::cmp::Reverse(r.0));
                    }
                    4 => {
                        self.s.reverse();
                        self.model.reverse();
                    }
                    _ => {
                        self.s.sort_by(|a, b| (a.s.id % 3).cmp(&(b.s.id % 3)));
                        self.model.sort_by_key(|r| r.0 % 3);
                    }
                }
            }
            19 => {
                // a sorted set: insertion keeps it sorted
                self.s.sort();
                self.model.sort_by_key(|r| r.0);
                let p = self.pos(id);
                let k = self.k(id);
                let inst = k.inst;
                let r = self.s.insert_sorted(k, &mut self.e, &mut self.g).unwrap();
                let at = match p {
                    Some(p) => p,
                    None => {
                        let at = self.model.partition_point(|r| r.0 < id);
                        self.model.insert(at, (id, inst));
                        at
                    }
                };
                ensure!(r == (at, p.is_none()), "insert_sorted {r:?}, expected {at}");
            }
            20 => {
                let at = g.upto(n);
                let t = self.s.split_off(at, &mut self.e, &mut self.g).unwrap();
                let tail = self.model.split_off(at);
                ensure!(rows(&t) == tail, "split_off tail");
                if g.flag() {
                    self.check()?;
                    let mut t = t;
                    self.s.append(&mut t, &mut self.e, &mut self.g).unwrap();
                    ensure!(t.is_empty(), "append leaves elements in the other set");
                    self.model.extend(tail);
                }
            }
            21 => {
                let m = g.upto(n + 1);
                self.s.truncate(m, &mut self.e, &mut self.g).unwrap();
                self.model.truncate(m);
            }
            22 => {
                let k = g.choose(12);
                let (base, ids, hm) = (self.inst, self.ids, self.hm);
                self.inst += k;
                let items: Vec<Row> = (1..=k).map(|i| ((base + i * 7) % ids, base + i)).collect();
                for x in &items {
                    if self.pos(x.0).is_none() {
                        self.model.push(*x);
                    }
                }
                self.s.extend(items.into_iter().map(|(id, i)| K::new(id, hash_of(hm, id), i)), &mut self.e, &mut self.g).unwrap();
            }
            23 => match g.choose(5) {
                0 => self.s.reserve(g.choose(30) as usize),
                1 => self.s.reserve_exact(g.choose(30) as usize),
                2 => self.s.shrink_to_fit(),
                3 => self.s.shrink_to(g.choose(20) as usize),
                _ => {
                    self.s.clear();
                    self.model.clear();
                }
            },
            24 => {
                let (a, b) = {
                    let a = g.upto(n);
                    (a, a + g.upto(n - a))
                };
                let out: Vec<Row> = self.s.drain(a..b, &mut self.e, &mut self.g).unwrap().map(|k| (k.s.id, k.inst)).collect();
                let want: Vec<Row> = self.model.drain(a..b).collect();
                ensure!(out == want, "drain {out:?}");
            }
            _ => {
                // erring callback
                let at = g.choose(3);
                let op = g.choose(8);
                let k = self.k(id);
                let inst = k.inst;
                let from = self.e.calls;
                self.e.fail_at = Some(from + at);
                let (s, e, gg) = (&mut self.s, &mut self.e, &mut self.g);
                let r = match op {
                    0 => s.insert(k, e, gg).map(|_| ()),
                    1 => s.replace(k, e, gg).map(|_| ()),
                    2 => s.swap_remove(&q, e, gg).map(|_| ()),
                    3 => s.shift_remove(&q, e, gg).map(|_| ()),
                    4 => s.contains(&q, e, gg).map(|_| ()),
                    5 => s.shift_take(&q, e, gg).map(|_| ()),
                    6 => s.swap_take(&q, e, gg).map(|_| ()),
                    _ => s.get_index_of(&q, e, gg).map(|_| ()),
                };
                self.e.fail_at = None;
                let fired = self.e.calls > from + at;
                match r {
                    Err(r) => ensure!(fired && r == R(1000 + from + at), "error {r:?}"),
                    Ok(()) => {
                        ensure!(!fired, "error lost in op {op}");
                        match (op, p) {
                            (0, None) | (1, None) => self.model.push((id, inst)),
                            (1, Some(p)) => self.model[p] = (id, inst),
                            (2 | 6, Some(p)) => {
                                self.model.swap_remove(p);
                            }
                            (3 | 5, Some(p)) => {
                                self.model.remove(p);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        Ok(())
    }
}
fn c10(g: &mut Gen) -> Res {
    let (hm, ids) = if g.small { (g.pick(&[2, 0]), 3) } else { (g.choose(HMODES), g.pick(&[3, 9, 14, 40])) };
    let cap = if g.small { 0 } else { g.pick(&[0, 0, 9]) };
    let mut w = W { s: S::with_capacity_and_hasher(cap, IdB), model: vec![], hm, ids, inst: 0, e: E::default(), g: G::default() };
    let n = g.upto(g.max_ops);
    for _ in 0..n {
        w.step(g)?;
        w.check()?;
    }
    Ok(())
}
/// subset, superset, disjoint, equality and merging for pairs of sets in every size relation
fn c10_algebra(g: &mut Gen) -> Res {
    let n = if g.small { 4 } else { g.pick(&[3, 9, 12]) };
    let (a, b) = (g.choose(1 << n), g.choose(1 << n));
    let hm = if g.small { 0 } else { g.choose(HMODES) };
    g.log(|| format!("{a:b} and {b:b}, hash distribution {hm}"));
    let rot = g.choose(n);
    let build = |bits: u32, rot: u32, cap: usize| {
        let (mut e, mut gg) = (E::default(), G::default());
        let mut s = S::with_capacity_and_hasher(cap, IdB);
        for i in 0..n {
            let i = (i + rot) % n;
            if bits >> i & 1 == 1 {
                s.insert(K::new(i, hash_of(hm, i), rot), &mut e, &mut gg).unwrap();
            }
        }
        s
    };
    let mut sa = build(a, 0, if g.small { 0 } else { g.pick(&[0, 9]) });
    let mut sb = build(b, rot, 0);
    let (mut e, mut gg) = (E::default(), G::default());
    ensure!(sa.is_subset(&sb, &mut e, &mut gg).unwrap() == (a & !b == 0), "is_subset");
    ensure!(sa.is_superset(&sb, &mut e, &mut gg).unwrap() == (b & !a == 0), "is_superset");
    ensure!(sa.is_disjoint(&sb, &mut e, &mut gg).unwrap() == (a & b == 0), "is_disjoint");
    ensure!(sa.eql(&sb, &mut e, &mut gg).unwrap() == (a == b), "eql");
    let x: RubySet<u32> = RubySet::from_iter(sa.iter().map(|k| k.s.id), &mut (), &mut ()).unwrap();
    let y: RubySet<u32> = RubySet::from_iter(sb.iter().map(|k| k.s.id), &mut (), &mut ()).unwrap();
    ensure!((x == y) == (a == b), "==");
    let at = g.choose(3);
    let op = g.choose(4);
    let mut e = E { fail_at: Some(at), ..E::default() };
    let r = match op {
        0 => sa.is_subset(&sb, &mut e, &mut gg),
        1 => sa.is_superset(&sb, &mut e, &mut gg),
        2 => sa.is_disjoint(&sb, &mut e, &mut gg),
        _ => sa.eql(&sb, &mut e, &mut gg),
    };
    ensure!(r.is_err() == (e.calls > at), "error lost in {op}");
    // merging: own elements first in their order, then the new ones in the other's order
    let mut want = rows(&sa);
    for r in rows(&sb) {
        if !want.iter().any(|w| w.0 == r.0) {
            want.push(r);
        }
    }
    let mut e = E::default();
    sa.append(&mut sb, &mut e, &mut gg).unwrap();
    ensure!(rows(&sa) == want && sb.is_empty(), "append: {:?}, expected {want:?}", rows(&sa));
    let c = RubySet::<u32>::clone(&x);
    ensure!(c == x && c.iter().eq(x.iter()), "clone");
    Ok(())
}
fn main() {
    main_with(&[
        Plan { name: "C10", f: c10, exhaustive: Some((3, 60000)), random: &[(40, 6000), (150, 800)] },
        Plan { name: "C10_algebra", f: c10_algebra, exhaustive: Some((1, 20000)), random: &[(1, 20000)] },
    ]);
}
