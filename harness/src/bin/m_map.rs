use vharness::gen::*;
use vharness::keys::*;
use vharness::mapm::*;

fn c01(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert])
    } else {
        drive(g, &[W::op_insert, W::op_insert, W::op_insert, W::op_get, W::op_fill])
    }
}
fn c02(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_remove_key, W::op_remove_index])
    } else {
        drive(g, &[W::op_insert, W::op_insert, W::op_fill, W::op_remove_key, W::op_remove_key, W::op_remove_index, W::op_pop, W::op_truncate, W::op_drain, W::op_split, W::op_retain, W::op_remove_key])
    }
}
fn c02_clear(g: &mut Gen) -> Res {
    drive(g, &[W::op_insert, W::op_insert, W::op_fill, W::op_remove_key, W::op_clear])
}
fn c03(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_move, W::op_insert_at])
    } else {
        drive(g, &[W::op_insert, W::op_fill, W::op_move, W::op_move, W::op_insert_at, W::op_insert_at, W::op_insert_sorted, W::op_sort])
    }
}
fn c04(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_variant])
    } else {
        drive(g, &[W::op_insert, W::op_variant, W::op_variant, W::op_fill, W::op_capacity, W::op_remove_key, W::op_pop, W::op_clear, W::op_get])
    }
}
/// the same history in a map that starts small and one that starts indexed
fn c04_twin(g: &mut Gen) -> Res {
    let ids = 3 + g.choose(14);
    let hm = g.choose(HMODES);
    let mk = |cap: usize| W { m: M::with_capacity_and_hasher(cap, IdB), model: vec![], hm, ids, inst: 0, val: 0, e: E::default(), g: G::default() };
    let mut a = mk(0);
    let mut b = mk(9);
    let ops: &[Op] = &[W::op_insert, W::op_insert, W::op_insert, W::op_get, W::op_remove_key, W::op_remove_index, W::op_move, W::op_insert_at, W::op_sort, W::op_pop, W::op_truncate, W::op_drain, W::op_retain, W::op_variant, W::op_entry, W::op_tombstones, W::op_indexed_entry];
    let n = g.upto(g.max_ops);
    for _ in 0..n {
        let o = g.choose(ops.len() as u32) as usize;
        let from = g.used.len();
        ops[o](&mut a, g)?;
        // replay the same choices on b
        let pre: Vec<u32> = g.used[from..].iter().map(|x| x.0).collect();
        let mut g2 = replay_gen(&pre, g.tracing);
        ops[o](&mut b, &mut g2)?;
        a.check()?;
        b.check()?;
        if rows(&a.m) != rows(&b.m) {
            return Err(format!("representations differ: {:?} vs {:?}", rows(&a.m), rows(&b.m)));
        }
        if a.e.hashes != b.e.hashes {
            return Err(format!("hash callbacks differ between representations: {} vs {}", a.e.hashes, b.e.hashes));
        }
    }
    Ok(())
}
fn c06(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_tombstones])
    } else {
        drive(g, &[W::op_insert, W::op_fill, W::op_tombstones, W::op_tombstones, W::op_remove_key])
    }
}
fn c07(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_copy])
    } else {
        drive(g, &[W::op_insert, W::op_fill, W::op_copy, W::op_copy, W::op_remove_key, W::op_clear])
    }
}
fn c08(g: &mut Gen) -> Res {
    if g.small {
        drive(g, &[W::op_insert, W::op_entry])
    } else {
        drive(g, &[W::op_insert, W::op_fill, W::op_entry, W::op_entry, W::op_entry, W::op_indexed_entry])
    }
}
/// every operation with a key, with every callback failing in turn
fn c05(g: &mut Gen) -> Res {
    let mut w = W::new(g);
    let n = if g.small { g.choose(4) } else { g.choose(30) };
    for _ in 0..n {
        w.op_insert(g)?;
    }
    for _ in 0..(if g.small { 0 } else { g.choose(4) }) {
        w.op_remove_key(g)?;
        w.check()?;
    }
    w.check()?;
    let id = w.present(g);
    let which = g.choose(FOPS.len() as u32) as usize;
    let idx = g.upto(w.model.len());
    let h = w.h(id);
    g.log(|| format!("failing callbacks in {} key={id} index={idx}", FOPS[which].0));
    let (wrong, expect_hash) = (FOPS[which].1, true);
    // how many callbacks does the undisturbed call make?
    let mut e = E::default();
    let mut gg = G::default();
    let mut c = w.m.clone();
    let r = wrong(&mut c, id, h, idx, &mut e, &mut gg);
    drop(c);
    if r.is_err() {
        return Err(format!("undisturbed call failed: {r:?}"));
    }
    let total = e.calls;
    if expect_hash && !w.model.is_empty() && e.hashes == 0 {
        return Err(format!("{} never consulted the key hash", FOPS[which].0));
    }
    if gg.calls != total {
        return Err("callbacks saw different contexts".into());
    }
    for f in 0..total {
        let mut e = E { fail_at: Some(f), ..E::default() };
        let mut gg = G::default();
        let mut c = w.m.clone();
        let r = wrong(&mut c, id, h, idx, &mut e, &mut gg);
        if r != Err(R(1000 + f)) {
            return Err(format!("failure of callback {f} in {} gave {r:?}", FOPS[which].0));
        }
        if e.calls != f + 1 {
            return Err(format!("{} went on calling back after the failure", FOPS[which].0));
        }
        let mut w2 = W { m: c, model: w.model.clone(), hm: w.hm, ids: w.ids, inst: 40000, val: 40000, e: E::default(), g: G::default() };
        w2.check().map_err(|m| format!("after failure of callback {f} in {}: {m}", FOPS[which].0))?;
        // still usable
        w2.op_insert(g)?;
        w2.check()?;
        w2.op_remove_key(g)?;
        w2.check()?;
    }
    Ok(())
}
type F = fn(&mut M, u32, u64, usize, &mut E, &mut G) -> Result<(), R>;
const FOPS: &[(&str, F)] = &[
    ("insert", |m, id, h, _, e, g| m.insert(K::new(id, h, 1), V::new(1), e, g).map(|_| ())),
    ("insert_full", |m, id, h, _, e, g| m.insert_full(K::new(id, h, 1), V::new(1), e, g).map(|_| ())),
    ("get", |m, id, h, _, e, g| m.get(&Probe { id, h }, e, g).map(|_| ())),
    ("contains_key", |m, id, h, _, e, g| m.contains_key(&Probe { id, h }, e, g).map(|_| ())),
    ("get_full", |m, id, h, _, e, g| m.get_full(&Probe { id, h }, e, g).map(|_| ())),
    ("get_key_value", |m, id, h, _, e, g| m.get_key_value(&Probe { id, h }, e, g).map(|_| ())),
    ("get_index_of", |m, id, h, _, e, g| m.get_index_of(&Probe { id, h }, e, g).map(|_| ())),
    ("get_mut", |m, id, h, _, e, g| m.get_mut(&Probe { id, h }, e, g).map(|_| ())),
    ("get_full_mut", |m, id, h, _, e, g| m.get_full_mut(&Probe { id, h }, e, g).map(|_| ())),
    ("shift_remove", |m, id, h, _, e, g| m.shift_remove(&Probe { id, h }, e, g).map(|_| ())),
    ("shift_remove_full", |m, id, h, _, e, g| m.shift_remove_full(&Probe { id, h }, e, g).map(|_| ())),
    ("shift_remove_entry", |m, id, h, _, e, g| m.shift_remove_entry(&Probe { id, h }, e, g).map(|_| ())),
    ("swap_remove", |m, id, h, _, e, g| m.swap_remove(&Probe { id, h }, e, g).map(|_| ())),
    ("swap_remove_full", |m, id, h, _, e, g| m.swap_remove_full(&Probe { id, h }, e, g).map(|_| ())),
    ("swap_remove_entry", |m, id, h, _, e, g| m.swap_remove_entry(&Probe { id, h }, e, g).map(|_| ())),
    ("entry", |m, id, h, _, e, g| m.entry(K::new(id, h, 1), e, g).map(|_| ())),
    ("tombstone_remove", |m, id, h, _, e, g| m.tombstone_remove(&Probe { id, h }, K::new(DEAD, 0, 0), V::new(0), e, g).map(|_| ())),
    ("insert_before", |m, id, h, i, e, g| m.insert_before(i, K::new(id, h, 1), V::new(1), e, g).map(|_| ())),
    ("shift_insert", |m, id, h, i, e, g| {
        let i = i.min(m.len().saturating_sub(1));
        m.shift_insert(i, K::new(id, h, 1), V::new(1), e, g).map(|_| ())
    }),
];

fn main() {
    main_with(&[
        Plan { name: "C01", f: c01, exhaustive: Some((7, 20000)), random: &[(60, 800), (250, 150)] },
        Plan { name: "C02", f: c02, exhaustive: Some((5, 60000)), random: &[(60, 1500), (250, 250)] },
        Plan { name: "C02_clear", f: c02_clear, exhaustive: None, random: &[(60, 300)] },
        Plan { name: "C03", f: c03, exhaustive: Some((5, 60000)), random: &[(60, 1200), (250, 200)] },
        Plan { name: "C04", f: c04, exhaustive: Some((5, 30000)), random: &[(60, 1200), (250, 200)] },
        Plan { name: "C04_twin", f: c04_twin, exhaustive: None, random: &[(40, 1500), (120, 200)] },
        Plan { name: "C05", f: c05, exhaustive: Some((4, 40000)), random: &[(1, 3000)] },
        Plan { name: "C06", f: c06, exhaustive: Some((4, 60000)), random: &[(40, 1200), (150, 200)] },
        Plan { name: "C07", f: c07, exhaustive: Some((3, 40000)), random: &[(40, 1200), (150, 150)] },
        Plan { name: "C08", f: c08, exhaustive: Some((4, 60000)), random: &[(60, 1500), (200, 200)] },
    ]);
}
