//! Instrumented keys and values: chosen hashes, countable and failable callbacks, drop accounting.
use ruby_traits::*;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::hash::{BuildHasher, Hasher};

#[derive(Default)]
struct Reg {
    next: u32,
    live: std::collections::HashSet<u32>,
    err: Option<String>,
}
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default());
    FAULT.with(|r| *r.borrow_mut() = Fault::default());
}
pub fn leak_check() -> Result<(), String> {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(e) = r.err.take() {
            return Err(e);
        }
        if !r.live.is_empty() {
            return Err(format!("{} key/value objects never dropped", r.live.len()));
        }
        Ok(())
    })
}
pub fn reg_err() -> Option<String> {
    REG.with(|r| r.borrow().err.clone())
}
pub fn live_count() -> usize {
    REG.with(|r| r.borrow().live.len())
}
/// Forget everything alive (used after a deliberate leak).
pub fn forget_live() {
    REG.with(|r| r.borrow_mut().live.clear());
}
/// Panic/failure plan for clone/drop callbacks.
#[derive(Default)]
pub struct Fault {
    pub clone_in: Option<u32>,
    pub drop_in: Option<u32>,
}
thread_local! { pub static FAULT: RefCell<Fault> = RefCell::new(Fault::default()); }

#[derive(Debug)]
pub struct Tok(u32);
impl Tok {
    pub fn new() -> Self {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let n = r.next;
            r.live.insert(n);
            Tok(n)
        })
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        let boom = FAULT.with(|f| {
            let mut f = f.borrow_mut();
            match &mut f.clone_in {
                Some(0) => {
                    f.clone_in = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        });
        if boom {
            panic!("clone fault");
        }
        Tok::new()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let _ = REG.try_with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.remove(&self.0) {
                r.err = Some(format!("object {} dropped twice or never created", self.0));
            }
        });
        let boom = FAULT.try_with(|f| {
            let mut f = f.borrow_mut();
            match &mut f.drop_in {
                Some(0) => {
                    f.drop_in = None;
                    true
                }
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        }).unwrap_or(false);
        if boom && !std::thread::panicking() {
            panic!("drop fault");
        }
    }
}

#[derive(Default)]
pub struct E {
    pub calls: u32,
    pub hashes: u32,
    pub eqls: u32,
    pub fail_at: Option<u32>,
}
#[derive(Default)]
pub struct G {
    pub calls: u32,
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub struct R(pub u32);

impl E {
    fn tick(&mut self, g: &mut G) -> Result<(), R> {
        let n = self.calls;
        self.calls += 1;
        g.calls += 1;
        if self.fail_at == Some(n) {
            Err(R(1000 + n))
        } else {
            Ok(())
        }
    }
}

/// The symbol-like core of a key.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sym {
    pub id: u32,
    pub h: u64,
}
#[derive(Debug, Clone)]
pub struct K {
    pub s: Sym,
    pub inst: u32,
    pub tok: Tok,
}
pub const DEAD: u32 = u32::MAX;
impl K {
    pub fn new(id: u32, h: u64, inst: u32) -> K {
        K { s: Sym { id, h }, inst, tok: Tok::new() }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.s.id == o.s.id
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        self.s.id.cmp(&o.s.id)
    }
}
impl RubyEql<E, G, R> for K {
    fn eql(&self, o: &K, e: &mut E, g: &mut G) -> Result<bool, R> {
        e.eqls += 1;
        e.tick(g)?;
        Ok(self.s.id == o.s.id)
    }
}
impl RubyHash<E, G, R> for K {
    fn ruby_hash<H: Hasher>(&self, st: &mut H, e: &mut E, g: &mut G) -> Result<(), R> {
        e.hashes += 1;
        e.tick(g)?;
        st.write_u64(self.s.h);
        Ok(())
    }
}
impl Borrow<Sym> for K {
    fn borrow(&self) -> &Sym {
        &self.s
    }
}
impl From<Sym> for K {
    fn from(s: Sym) -> K {
        K { s, inst: 777, tok: Tok::new() }
    }
}
impl RubySymEql for Sym {
    fn eql(&self, o: &Sym) -> bool {
        self.id == o.id
    }
}
impl RubySymHash for Sym {
    fn ruby_hash<H: Hasher>(&self, st: &mut H) {
        st.write_u64(self.h);
    }
}
impl std::hash::Hash for K {
    fn hash<H: Hasher>(&self, st: &mut H) {
        st.write_u64(self.s.h);
    }
}
impl std::hash::Hash for Probe {
    fn hash<H: Hasher>(&self, st: &mut H) {
        st.write_u64(self.h);
    }
}
impl From<&Probe> for K {
    fn from(p: &Probe) -> K {
        K { s: Sym { id: p.id, h: p.h }, inst: 777, tok: Tok::new() }
    }
}
/// A query type different from the key type.
pub struct Probe {
    pub id: u32,
    pub h: u64,
}
impl Equivalent<K, E, G, R> for Probe {
    fn equivalent(&self, k: &K, e: &mut E, g: &mut G) -> Result<bool, R> {
        e.eqls += 1;
        e.tick(g)?;
        Ok(self.id == k.s.id)
    }
}
impl RubyHash<E, G, R> for Probe {
    fn ruby_hash<H: Hasher>(&self, st: &mut H, e: &mut E, g: &mut G) -> Result<(), R> {
        e.hashes += 1;
        e.tick(g)?;
        st.write_u64(self.h);
        Ok(())
    }
}
#[derive(Debug, Clone)]
pub struct V {
    pub v: u32,
    pub tok: Tok,
}
impl V {
    pub fn new(v: u32) -> V {
        V { v, tok: Tok::new() }
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.v == o.v
    }
}
impl RubyEql<E, G, R> for V {
    fn eql(&self, o: &V, e: &mut E, g: &mut G) -> Result<bool, R> {
        e.eqls += 1;
        e.tick(g)?;
        Ok(self.v == o.v)
    }
}
impl Default for V {
    fn default() -> V {
        V::new(424242)
    }
}
#[derive(Clone, Default, Debug)]
pub struct IdB;
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
impl BuildHasher for IdB {
    type Hasher = IdH;
    fn build_hasher(&self) -> IdH {
        IdH(0)
    }
}
/// Hash distributions: all equal; identity; spread; few classes; same low bits; same tag bits.
pub const HMODES: u32 = 7;
pub fn hash_of(mode: u32, id: u32) -> u64 {
    let id = id as u64;
    match mode {
        0 => id.wrapping_mul(0x9E3779B97F4A7C15),
        1 => id,
        2 => 0,
        3 => (id % 3) << 57 | (id % 3),
        4 => id << 57,                 // same position, different tags
        5 => (id & 0xff) | (5 << 57),  // different positions, one tag
        _ => !(id.wrapping_mul(0x1000_0000_01B3) >> 1), // high bits set, wrap-around positions
    }
}
