//! C28: the object-page allocator of monoruby/src/alloc.rs as a whole, over a stand-in object.
#![allow(dead_code, unused_imports, static_mut_refs)]
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins ------------------------------------------------------------------------------------
pub mod poll_flag {
    pub fn set_gc() {}
    pub fn clear_gc() {}
}
#[derive(Clone, Copy)]
pub struct Value(u64);
impl Value {
    pub fn is_packed_value(&self) -> bool {
        false
    }
    pub fn id(&self) -> u64 {
        self.0
    }
}
pub mod value {
    pub mod rvalue {
        pub use crate::RValue;
    }
}
pub const LIVE: u32 = 0x11fe;
pub const DEAD: u32 = 0xdead;
thread_local! { pub static FREED: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) }; }
#[repr(C)]
pub struct RValue {
    pub next: Option<std::ptr::NonNull<RValue>>,
    pub state: u32,
    pub age: u8,
    pub old: bool,
    pub armed: bool,
    pub plain: bool,
    pub id: u64,
    pub kids: [*mut RValue; 4],
    pub pad: u64,
}
impl PartialEq for RValue {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl RValue {
    pub fn ty(&self) -> u32 {
        self.state
    }
    pub fn fresh(id: u64, promotable: bool, kids: [*mut RValue; 4]) -> RValue {
        RValue { next: None, state: LIVE, age: 0, old: false, armed: false, plain: promotable, id, kids, pad: !id }
    }
    fn mark(&self, a: &mut alloc::Allocator<RValue>) {
        assert!(self.state == LIVE, "marking reached a dead cell");
        if a.gc_check_and_mark(self) {
            return;
        }
        a.scan_children(self);
    }
}
impl alloc::GCBox for RValue {
    fn free(&mut self) {
        if self.state == LIVE {
            FREED.with(|f| f.borrow_mut().push(self.id));
            self.state = DEAD;
        }
    }
    fn next(&self) -> Option<std::ptr::NonNull<Self>> {
        self.next
    }
    fn set_next_none(&mut self) {
        self.next = None;
    }
    fn set_next(&mut self, next: *mut Self) {
        self.next = Some(std::ptr::NonNull::new(next).unwrap());
    }
    fn new_invalid() -> Self {
        RValue { next: None, state: DEAD, age: 0, old: false, armed: false, plain: false, id: 0, kids: [std::ptr::null_mut(); 4], pad: 0 }
    }
    fn mark_children(&self, a: &mut alloc::Allocator<Self>) {
        for k in self.kids {
            if !k.is_null() {
                unsafe { (*k).mark(a) }
            }
        }
    }
    fn is_promotable(&self) -> bool {
        self.plain
    }
    fn promote_to_old(&mut self) {
        self.old = true;
    }
    fn age_and_check_promote(&mut self) -> bool {
        self.age += 1;
        self.age >= alloc::RGENGC_OLD_AGE
    }
    fn arm_barrier(&mut self) {
        self.armed = true;
    }
    fn enter_remembered(&mut self) {
        self.armed = false;
    }
    fn young_child_exists(&self, a: &alloc::Allocator<Self>) -> bool {
        self.kids.iter().any(|k| !k.is_null() && !a.is_old(unsafe { &**k }))
    }
}

// ---- the repository's file ------------------------------------------------------------------------
pub mod alloc {
//@file monoruby/src/alloc.rs
//@optsub # [ global_allocator ] ==> 
//@optsub # [ coverage ( off ) ] ==> 

pub mod vk {
    use super::*;
    use vharness::drv::Gen;
    use std::collections::{BTreeMap, BTreeSet};

    struct Roots {
        objs: Vec<*mut RValue>,
    }
    impl GC<RValue> for Roots {
        fn mark(&self, a: &mut Allocator<RValue>) {
            for &o in &self.objs {
                unsafe {
                    assert!((*o).state == crate::LIVE, "a root was reclaimed");
                    if !a.gc_check_and_mark(&*o) {
                        a.scan_children(&*o);
                    }
                }
            }
        }
    }
    impl GCRoot<RValue> for Roots {
        #[cfg(feature = "gc-debug")]
        fn startup_flag(&self) -> bool {
            false
        }
    }
    struct Arena {
        a: Allocator<RValue>,
        base: *mut u8,
    }
    impl Drop for Arena {
        fn drop(&mut self) {
            let layout = Layout::from_size_align(ALLOC_SIZE * MAX_PAGES, ALLOC_SIZE).unwrap();
            unsafe { System.dealloc(self.base, layout) };
        }
    }
    macro_rules! ensure {
        ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
    }
    fn all_pages(a: &Allocator<RValue>) -> Vec<PageRef<RValue>> {
        let mut v = a.pages.clone();
        v.push(a.current_page);
        v
    }
    /// (page, index) of a cell, from the address alone
    fn place(p: *const RValue) -> (usize, usize) {
        let a = p as usize;
        let page = a / 262144 * 262144;
        (page, (a - page) / 64)
    }
    fn snapshot(a: &Allocator<RValue>) -> BTreeMap<usize, ([u64; SIZE - 1], [u64; SIZE - 1])> {
        all_pages(a).iter().map(|p| unsafe { (p.as_ptr() as usize, (p.as_ref().mark_bits, p.as_ref().old_bits)) }).collect()
    }
    fn bit(w: &[u64; SIZE - 1], i: usize) -> bool {
        w[i / 64] >> (i % 64) & 1 == 1
    }
    fn free_list(a: &Allocator<RValue>) -> Vec<usize> {
        let mut v = vec![];
        let mut p = a.free;
        while let Some(q) = p {
            v.push(q.as_ptr() as usize);
            if v.len() > 200_000 {
                return v;
            }
            p = unsafe { q.as_ref().next() };
        }
        v
    }
    struct World {
        ar: Arena,
        live: BTreeMap<usize, u64>, // address -> id
        kids: BTreeMap<u64, [usize; 4]>,
        roots: Vec<usize>,
        next_id: u64,
    }
    impl World {
        fn new() -> World {
            let a = Allocator::new();
            let base = a.current_page.as_ptr() as *mut u8;
            crate::FREED.with(|f| f.borrow_mut().clear());
            World { ar: Arena { a, base }, live: BTreeMap::new(), kids: BTreeMap::new(), roots: vec![], next_id: 1 }
        }
        fn handed_out(&self) -> Vec<(usize, usize)> {
            let a = &self.ar.a;
            let mut v: Vec<(usize, usize)> = a.pages.iter().map(|p| (p.as_ptr() as usize, DATA_LEN)).collect();
            v.push((a.current_page.as_ptr() as usize, a.used_in_current));
            v
        }
        fn alloc(&mut self, promotable: bool, kids: [usize; 4]) -> Result<usize, String> {
            let id = self.next_id;
            self.next_id += 1;
            let before = self.ar.a.total_allocated_objects;
            let listed = self.ar.a.free.map(|p| p.as_ptr() as usize);
            let p = self.ar.a.alloc(RValue::fresh(id, promotable, kids.map(|k| k as *mut RValue)));
            let adr = p as usize;
            let (page, i) = place(p);
            ensure!(!self.live.contains_key(&adr), "the cell of a live object was handed out again");
            ensure!(adr % 64 == 0 && i < DATA_LEN, "handed out a cell that is not an object cell (index {i})");
            ensure!(self.handed_out().iter().any(|(b, n)| *b == page && i < *n), "handed out a cell of no page in service");
            ensure!(unsafe { (*p).id == id && (*p).pad == !id && (*p).state == crate::LIVE }, "the new object is not what was stored");
            ensure!(listed.is_none() || listed == Some(adr), "the free list was not used first");
            ensure!(self.ar.a.total_allocated_objects == before + 1, "the allocation count is wrong");
            ensure!(!self.ar.a.is_old(unsafe { &*p }), "a new object counts as old");
            self.live.insert(adr, id);
            self.kids.insert(id, kids);
            Ok(adr)
        }
        fn store(&mut self, o: usize, slot: usize, v: usize) {
            let a = &mut self.ar.a;
            unsafe {
                let r = &mut *(o as *mut RValue);
                r.kids[slot] = v as *mut RValue;
                // the write barrier: an armed old object that now refers to a young one is remembered
                if r.old && r.armed && v != 0 && !a.is_old(&*(v as *mut RValue)) {
                    r.armed = false;
                    a.remember(std::ptr::NonNull::new(o as *mut RValue).unwrap());
                }
            }
            self.kids.get_mut(&self.live[&o]).unwrap()[slot] = v;
        }
        fn reachable(&self) -> BTreeSet<usize> {
            let mut seen: BTreeSet<usize> = BTreeSet::new();
            let mut todo = self.roots.clone();
            while let Some(o) = todo.pop() {
                if seen.insert(o) {
                    for k in self.kids[&self.live[&o]] {
                        if k != 0 {
                            todo.push(k);
                        }
                    }
                }
            }
            seen
        }
        /// marking one cell touches its own bit only
        fn mark_one(&mut self, o: usize) -> Result<(), String> {
            let before = snapshot(&self.ar.a);
            let n = self.ar.a.mark_counter;
            let (page, i) = place(o as *const RValue);
            ensure!(self.ar.a.get_page(o as *const RValue) as usize == page, "a cell is looked up on another page");
            ensure!(unsafe { (*(page as *mut Page<RValue>)).get_index(o as *const RValue) } == i, "a cell is looked up at another index");
            ensure!(unsafe { (*(page as *mut Page<RValue>)).get_cell(i) } as usize == o, "the cell of an index is elsewhere");
            let was = self.ar.a.is_marked(unsafe { &*(o as *const RValue) });
            ensure!(was == bit(&before[&page].0, i), "is_marked does not read the cell's own bit");
            ensure!(self.ar.a.is_old(unsafe { &*(o as *const RValue) }) == bit(&before[&page].1, i), "is_old does not read the cell's own bit");
            let r = self.ar.a.gc_check_and_mark(unsafe { &*(o as *const RValue) });
            ensure!(r == was, "marking reported the wrong earlier state");
            ensure!(self.ar.a.mark_counter == n + !was as usize, "the mark count is wrong");
            for (p, (m, old)) in snapshot(&self.ar.a) {
                for w in 0..SIZE - 1 {
                    let want = if p == page && i / 64 == w { before[&p].0[w] | 1 << (i % 64) } else { before[&p].0[w] };
                    ensure!(m[w] == want, "marking one cell changed other mark bits");
                }
                ensure!(old == before[&p].1, "marking changed the old bits");
            }
            Ok(())
        }
        fn gc(&mut self, major: bool) -> Result<(), String> {
            crate::FREED.with(|f| f.borrow_mut().clear());
            if major {
                request_gc(true);
            } else {
                self.ar.a.minors_since_major = 0;
            }
            let reach = self.reachable();
            let roots = Roots { objs: self.roots.iter().map(|o| *o as *mut RValue).collect() };
            let out_before = self.handed_out();
            self.ar.a.gc(&roots);
            let freed = crate::FREED.with(|f| f.borrow().clone());
            let set: BTreeSet<u64> = freed.iter().copied().collect();
            ensure!(set.len() == freed.len(), "an object was freed twice");
            for (adr, id) in self.live.clone() {
                let gone = set.contains(&id);
                ensure!(!(gone && reach.contains(&adr)), "a reachable object was reclaimed");
                if major {
                    ensure!(gone || reach.contains(&adr), "a full collection kept an unreachable object");
                }
                let r = unsafe { &*(adr as *const RValue) };
                if gone {
                    self.live.remove(&adr);
                    self.kids.remove(&id);
                } else {
                    ensure!(r.state == crate::LIVE && r.id == id && r.pad == !id && r.kids.map(|k| k as usize) == self.kids[&id], "a surviving object was overwritten");
                    ensure!(self.ar.a.is_old(r) == r.old, "the old bit of a survivor disagrees with its header");
                }
            }
            // the free list: exactly the cells handed out and not in use, each once
            let fl = free_list(&self.ar.a);
            let fs: BTreeSet<usize> = fl.iter().copied().collect();
            ensure!(fs.len() == fl.len(), "a cell is on the free list twice");
            ensure!(self.ar.a.free_list_count == fl.len(), "the free count is wrong");
            let mut want: BTreeSet<usize> = BTreeSet::new();
            for (b, n) in self.handed_out() {
                for i in 0..n {
                    let adr = b + 64 * i;
                    if !self.live.contains_key(&adr) {
                        want.insert(adr);
                    }
                }
            }
            ensure!(fs == want, "the free list is not the set of unused cells: {} listed, {} unused", fs.len(), want.len());
            let _ = out_before;
            for (_, (_, old)) in snapshot(&self.ar.a).iter() {
                let _ = old;
            }
            let old: usize = snapshot(&self.ar.a).values().map(|(_, o)| o.iter().map(|w| w.count_ones() as usize).sum::<usize>()).sum();
            ensure!(old == self.ar.a.old_count, "the old count is wrong: {} bits, count {}", old, self.ar.a.old_count);
            for (p, (_, o)) in snapshot(&self.ar.a) {
                for i in 0..DATA_LEN {
                    if bit(&o, i) {
                        ensure!(self.live.contains_key(&(p + 64 * i)), "a dead cell keeps its old bit");
                    }
                }
            }
            Ok(())
        }
    }
    pub fn case(g: &mut Gen) -> Result<(), String> {
        let mut w = World::new();
        let n = if g.small { g.max_ops } else { 1 + g.upto(g.max_ops) };
        for _ in 0..n {
            let op = g.choose(8);
            match op {
                0 | 1 => {
                    let k = if g.small { g.pick(&[1, 65]) } else { g.pick(&[1usize, 2, 63, 64, 65, 200, 4031, 4032, 4100]) };
                    let keep = g.choose(4);
                    let prom = g.flag();
                    g.log(|| format!("allocate {k} (roots: {keep}, promotable: {prom})"));
                    for i in 0..k {
                        let kid = |w: &World, g: u64| if w.roots.is_empty() { 0 } else { w.roots[(g as usize).wrapping_mul(2654435761) % w.roots.len()] };
                        let ks = [if keep == 3 { kid(&w, i as u64) } else { 0 }, 0, 0, 0];
                        let o = w.alloc(prom, ks)?;
                        let root = match keep { 0 => false, 1 => true, 2 => i % 3 == 0, _ => i % 64 == 5 };
                        if root {
                            w.roots.push(o);
                        }
                    }
                }
                2 | 3 => {
                    let major = op == 3;
                    g.log(|| format!("collect, major: {major}"));
                    w.gc(major)?;
                }
                4 => {
                    let m = g.choose(4);
                    g.log(|| format!("drop roots, mode {m}"));
                    let mut i = 0;
                    w.roots.retain(|_| {
                        i += 1;
                        match m { 0 => false, 1 => i % 2 == 0, 2 => i % 64 != 0, _ => i > 40 }
                    });
                }
                5 => {
                    if !w.live.is_empty() {
                        let k = g.choose(1 << 16) as usize % w.live.len();
                        let o = *w.live.keys().nth(k).unwrap();
                        g.log(|| format!("mark object {k}"));
                        w.mark_one(o)?;
                    }
                }
                6 => {
                    let live: Vec<usize> = { let r = w.reachable(); r.into_iter().collect() };
                    if !live.is_empty() {
                        let a = live[g.choose(1 << 16) as usize % live.len()];
                        let b = live[g.choose(1 << 16) as usize % live.len()];
                        let s = g.choose(4) as usize;
                        g.log(|| format!("store a reference in slot {s}"));
                        w.store(a, s, b);
                    }
                }
                _ => {
                    // a young object kept by one (often old) object only
                    let live: Vec<usize> = { let r = w.reachable(); r.into_iter().collect() };
                    if !live.is_empty() {
                        let a = live[g.choose(1 << 16) as usize % live.len()];
                        g.log(|| "store a new object in an existing one".to_string());
                        let o = w.alloc(true, [0; 4])?;
                        w.store(a, 3, o);
                    }
                }
            }
        }
        w.gc(true)
    }
    /// page-local: every cell, every mark pattern class
    pub fn cells(g: &mut Gen) -> Result<(), String> {
        let mut w = World::new();
        let used = if g.small { g.pick(&[1usize, 63, 64, 65, 127, 128, 4031, 4032]) } else { 1 + g.choose(4032) as usize };
        let mode = g.choose(6);
        g.log(|| format!("{used} cells, marking mode {mode}"));
        let mut obj = vec![];
        for _ in 0..used {
            obj.push(w.alloc(false, [0; 4])?);
        }
        let mut s = 0x9E3779B97F4A7C15u64 ^ ((g.choose(1 << 16) as u64) << 20);
        for (i, &o) in obj.iter().enumerate() {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            let keep = match mode { 0 => false, 1 => true, 2 => i % 64 == 0, 3 => i % 64 == 63, 4 => s & 1 == 0, _ => i + 1 == used };
            if keep {
                w.roots.push(o);
            }
        }
        for k in [0, used / 2, used - 1] {
            w.mark_one(obj[k])?;
        }
        w.gc(true)?;
        // everything reclaimed is handed out again, nothing else
        let free = w.ar.a.free_list_count;
        for _ in 0..free {
            w.alloc(false, [0; 4])?;
        }
        if w.ar.a.free.is_some() || w.live.len() != used {
            return Err("reuse did not consume the free list exactly".to_string());
        }
        Ok(())
    }
}
}

fn main() {
    drv::main_with(&[
        Plan { name: "C28_cells", f: alloc::vk::cells, exhaustive: Some((1, 400)), random: &[(1, 300)] },
        Plan { name: "C28_history", f: alloc::vk::case, exhaustive: Some((2, 1500)), random: &[(10, 500), (30, 200)] },
    ]);
}
