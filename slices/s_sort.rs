//! C24: the merge sort of monoruby/src/executor/op/sort.rs over tagged stand-in values.
#![allow(dead_code, unused_imports, unused_unsafe)]
use std::cell::RefCell;
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins ------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Value {
    key: u32,
    id: u32,
}
#[derive(Debug, PartialEq)]
pub struct MonorubyErr(u64);
pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub struct Globals;
/// asks the comparison under test
pub struct Executor<'a> {
    cmp: &'a mut dyn FnMut(Value, Value) -> Result<std::cmp::Ordering>,
}
impl Executor<'_> {
    fn compare_values(&mut self, _: &mut Globals, a: Value, b: Value) -> Result<std::cmp::Ordering> {
        (self.cmp)(a, b)
    }
}

// ---- sliced from the repository -------------------------------------------------------------------
//@item monoruby/src/executor/op/sort.rs const MAX_INSERTION
//@item monoruby/src/executor/op/sort.rs fn merge_scratch_len
//@item monoruby/src/executor/op/sort.rs fn sort_by
//@item monoruby/src/executor/op/sort.rs fn merge_sort
//@item monoruby/src/executor/op/sort.rs fn insert_head
//@item monoruby/src/executor/op/sort.rs fn merge
//@fns monoruby/src/executor/op/sort.rs impl Executor :: sort
//@sub impl Executor ==> impl Executor<'_>

// ---- contract -----------------------------------------------------------------------------------------------
const GUARD: Value = Value { key: 0xdead, id: u32::MAX };
/// runs one sort; `cmp` decides, `fail` raises at that comparison
fn run(g: &mut Gen, input: &[Value], consistent: bool, fail: Option<u64>, entry: bool, salt: u64) -> std::result::Result<(), String> {
    let mut v = vec![GUARD; 4];
    v.extend_from_slice(input);
    v.extend_from_slice(&[GUARD; 4]);
    let scratch = merge_scratch_len(input.len());
    let mut buf = vec![GUARD; scratch + 8];
    let mut count = 0u64;
    let mut bad = None;
    let mut cmp = |a: Value, b: Value| {
        if a == GUARD || b == GUARD {
            bad = Some("an element outside the array was compared");
        }
        let n = count;
        count += 1;
        if fail == Some(n) {
            return Err(MonorubyErr(n));
        }
        if consistent {
            return Ok(a.key.cmp(&b.key));
        }
        let mut h = (n + 1).wrapping_mul(0x9e3779b97f4a7c15) ^ salt.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 29;
        h = h.wrapping_mul(0x94d049bb133111eb);
        Ok(if (h >> 40) % 3 == 0 { std::cmp::Ordering::Less } else if (h >> 40) % 3 == 1 { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal })
    };
    let n = input.len();
    let ptr = if scratch == 0 { std::ptr::null_mut() } else { buf[4..].as_mut_ptr() };
    let res = if entry {
        let mut ex = Executor { cmp: &mut cmp };
        ex.sort(&mut Globals, &mut v[4..4 + n], ptr)
    } else {
        sort_by(&mut v[4..4 + n], ptr, &mut cmp)
    };
    if let Some(b) = bad {
        return Err(b.into());
    }
    if v[..4] != [GUARD; 4] || v[4 + n..] != [GUARD; 4] || buf[..4] != [GUARD; 4] || buf[4 + scratch..] != [GUARD; 4] {
        return Err("memory outside the array or its scratch space was written".into());
    }
    let out = &v[4..4 + n];
    let mut ids: Vec<u32> = out.iter().map(|x| x.id).collect();
    ids.sort();
    if ids != (0..n as u32).collect::<Vec<_>>() || out.iter().any(|x| *x != input[x.id as usize]) {
        return Err(format!("not a permutation of the input: {:?} from {:?}", out, input));
    }
    match (fail, res) {
        (Some(f), r) if f < count => {
            if r != Err(MonorubyErr(f)) {
                return Err(format!("the error raised by comparison {f} did not surface: {r:?}"));
            }
            if count != f + 1 {
                return Err("a comparison was made after one had raised".into());
            }
        }
        (_, Ok(())) => {}
        (_, r) => return Err(format!("{r:?} without a failing comparison")),
    }
    if consistent && (fail.is_none() || fail.unwrap() >= count) {
        for w in out.windows(2) {
            if (w[0].key, w[0].id) > (w[1].key, w[1].id) {
                return Err(format!("{} before {}: {:?} from {:?}", show(w[0]), show(w[1]), out, input));
            }
        }
    }
    g.log(|| format!("{count} comparisons"));
    Ok(())
}
fn show(v: Value) -> String {
    format!("{}#{}", v.key, v.id)
}
fn values(keys: impl Iterator<Item = u32>) -> Vec<Value> {
    keys.enumerate().map(|(i, key)| Value { key, id: i as u32 }).collect()
}
fn small(g: &mut Gen) -> std::result::Result<(), String> {
    let n = g.upto(g.max_ops);
    let v = values((0..n).map(|_| g.choose(3)));
    let fail = match g.choose(8) {
        0 => None,
        k => Some(k as u64 - 1),
    };
    g.log(|| format!("{v:?} fail {fail:?}"));
    run(g, &v, true, fail, false, 0)
}
fn shaped(g: &mut Gen) -> std::result::Result<(), String> {
    // runs of several shapes and lengths, around and above the insertion-sort limit
    let mut keys: Vec<u32> = vec![];
    let parts = 1 + g.upto(g.max_ops);
    for _ in 0..parts {
        let len = match g.choose(6) {
            0 => g.upto(3),
            1 => 8 + g.upto(4),
            2 => 18 + g.upto(5),
            3 => g.upto(20),
            4 => g.upto(60),
            _ => g.upto(12),
        };
        let base = g.choose(6);
        let step = g.choose(3);
        let kind = g.choose(5);
        for i in 0..len as u32 {
            keys.push(match kind {
                0 => base + i * step,
                1 => base + (len as u32 - i) * step,
                2 => base,
                3 => g.choose(8),
                _ => g.choose(1000),
            });
        }
    }
    let v = values(keys.into_iter());
    let consistent = g.choose(4) != 0;
    let fail = match g.choose(3) {
        0 => None,
        1 => Some(g.choose(40) as u64),
        _ => Some(g.choose(40 + 8 * v.len() as u32) as u64),
    };
    let (entry, salt) = (g.flag(), g.choose(1 << 20) as u64);
    g.log(|| format!("{:?} consistent {consistent} fail {fail:?} entry {entry} salt {salt}", v.iter().map(|x| x.key).collect::<Vec<_>>()));
    run(g, &v, consistent, fail, entry, salt)
}
/// every failure point of a few inputs
fn faults(g: &mut Gen) -> std::result::Result<(), String> {
    let shape = g.choose(8);
    let n = g.pick(&[5usize, 20, 21, 22, 33, 50]);
    let f = g.choose(260) as u64;
    let v = values((0..n as u32).map(|i| match shape {
        0 => i,
        1 => n as u32 - i,
        2 => i % 2,
        3 => (i * 7) % 11,
        4 => (i * 37) % 101,
        5 => if i < n as u32 / 2 { i + 30 } else { i },
        6 => if i % 12 < 6 { 100 - i } else { i },
        _ => 0,
    }));
    g.log(|| format!("shape {shape} length {n} failing at {f}"));
    run(g, &v, true, Some(f), false, 0)
}
fn main() {
    drv::main_with(&[
        Plan { name: "C24_small", f: small, exhaustive: Some((6, 60000)), random: &[(8, 20000)] },
        Plan { name: "C24_shaped", f: shaped, exhaustive: None, random: &[(2, 40000), (6, 30000), (14, 4000)] },
        Plan { name: "C24_faults", f: faults, exhaustive: Some((1, 13000)), random: &[] },
    ]);
}
