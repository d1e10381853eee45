//! Choice-sequence driver: the same case function is run over an exhaustive enumeration of short
//! choice sequences and over seeded long ones; a failing sequence is shrunk and printed.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Gen {
    pre: Vec<u32>,
    pos: usize,
    rng: Option<u64>,
    pub used: Vec<(u32, u32)>,
    pub trace: Vec<String>,
    pub tracing: bool,
    /// upper limit of operations in this case
    pub max_ops: usize,
    /// small-scope run (exhaustive enumeration)
    pub small: bool,
}

impl Gen {
    pub fn choose(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = if self.pos < self.pre.len() {
            self.pre[self.pos] % n
        } else if let Some(s) = self.rng.as_mut() {
            *s ^= *s << 13;
            *s ^= *s >> 7;
            *s ^= *s << 17;
            ((s.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as u32) % n
        } else {
            0
        };
        self.pos += 1;
        self.used.push((v, n));
        v
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.choose(n as u32 + 1) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len() as u32) as usize]
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
}

/// cases given up before anything was checked
pub static DISCARDED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
thread_local! { pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

static mut CUR: [u8; 1 << 16] = [0; 1 << 16];
static mut CUR_LEN: usize = 0;
static CUR_START: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn signal(sig: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
}
extern "C" fn on_sig(sig: i32) {
    unsafe {
        let m = b"\nCRASH signal ";
        write(1, m.as_ptr(), m.len());
        let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8, b'\n'];
        write(1, d.as_ptr(), 3);
        let m = b"CASE ";
        write(1, m.as_ptr(), m.len());
        write(1, std::ptr::addr_of!(CUR) as *const u8, CUR_LEN);
        write(1, b"\n".as_ptr(), 1);
        _exit(3)
    }
}
fn set_cur(tag: &str) {
    unsafe {
        let b = tag.as_bytes();
        let n = b.len().min(1 << 16);
        std::ptr::copy_nonoverlapping(b.as_ptr(), std::ptr::addr_of_mut!(CUR) as *mut u8, n);
        CUR_LEN = n;
    }
    CUR_START.store(now(), std::sync::atomic::Ordering::Relaxed);
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

pub fn silent<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// A generator that replays given choices (for driving a twin).
pub fn replay_gen(pre: &[u32], tracing: bool) -> Gen {
    let _ = tracing;
    Gen { pre: pre.to_vec(), pos: 0, rng: None, used: vec![], trace: vec![], tracing: false, max_ops: 0, small: false }
}

pub type CaseFn = fn(&mut Gen) -> Result<(), String>;

fn one(f: CaseFn, pre: &[u32], rng: Option<u64>, max_ops: usize, small: bool, tracing: bool) -> (Result<(), String>, Gen) {
    let mut g = Gen { pre: pre.to_vec(), pos: 0, rng, used: vec![], trace: vec![], tracing, max_ops, small };
    crate::keys::reset();
    let r = silent(|| f(&mut g));
    let r = match r {
        Ok(Ok(())) => crate::keys::leak_check(),
        Ok(Err(e)) => Err(e),
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    (r, g)
}

pub struct Plan {
    pub name: &'static str,
    pub f: CaseFn,
    /// (max_ops, number of enumerated cases)
    pub exhaustive: Option<(usize, u64)>,
    /// (max_ops, number of seeded cases)
    pub random: &'static [(usize, u64)],
}

fn fail(p: &Plan, used: Vec<u32>, max_ops: usize, small: bool, msg: String) -> ! {
    // shrink
    let mut best = used;
    let mut bmsg = msg;
    let t0 = std::time::Instant::now();
    let mut changed = true;
    while changed && t0.elapsed().as_secs() < 10 {
        changed = false;
        let mut chunk = best.len().max(1);
        while chunk >= 1 && t0.elapsed().as_secs() < 10 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.len());
                c.drain(i..e);
                set_cur(&cs(p, &c, max_ops, small));
                let (r, _) = one(p.f, &c, None, max_ops, small, false);
                if let Err(m) = r {
                    best = c;
                    bmsg = m;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
        for i in 0..best.len() {
            for nv in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if nv < best[i] {
                    let mut c = best.clone();
                    c[i] = nv;
                    set_cur(&cs(p, &c, max_ops, small));
                    let (r, _) = one(p.f, &c, None, max_ops, small, false);
                    if let Err(m) = r {
                        best = c;
                        bmsg = m;
                        changed = true;
                        break;
                    }
                }
            }
        }
    }
    let (r, g) = one(p.f, &best, None, max_ops, small, true);
    if let Err(m) = r {
        bmsg = m;
    }
    println!("FAIL {}", p.name);
    println!("CASE {}", cs(p, &best, max_ops, small));
    println!("MESSAGE {}", bmsg.replace('\n', " | "));
    for t in g.trace {
        println!("STEP {t}");
    }
    std::process::exit(1)
}

fn cs(p: &Plan, c: &[u32], max_ops: usize, small: bool) -> String {
    let v: Vec<String> = c.iter().map(|x| x.to_string()).collect();
    format!("{}:{}:{}:{}", p.name, max_ops, small as u8, v.join(","))
}

pub fn main_with(plans: &[Plan]) {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_sig as extern "C" fn(i32) as usize);
        }
    }
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "replay").unwrap_or(false) {
        let parts: Vec<&str> = a[2].split(':').collect();
        let p = plans.iter().find(|p| p.name == parts[0]).expect("plan");
        let rng: Option<u64> = parts[3].strip_prefix("rng").map(|s| s.parse().unwrap());
        let c: Vec<u32> = if rng.is_some() { vec![] } else { parts[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect() };
        let mo: usize = parts[1].parse().unwrap();
        let small = parts[2] == "1";
        set_cur(a[2].as_str());
        let (r, g) = one(p.f, &c, rng, mo, small, true);
        for t in g.trace {
            println!("STEP {t}");
        }
        match r {
            Ok(()) => println!("HELD"),
            Err(m) => {
                println!("MESSAGE {m}");
                std::process::exit(1)
            }
        }
        return;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: u64 = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { 20 } else { 1 };
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let s = CUR_START.load(std::sync::atomic::Ordering::Relaxed);
        if s != 0 && now() > s + 25 {
            unsafe {
                let m = b"\nHANG\nCASE ";
                write(1, m.as_ptr(), m.len());
                write(1, std::ptr::addr_of!(CUR) as *const u8, CUR_LEN);
                write(1, b"\n".as_ptr(), 1);
                _exit(4)
            }
        }
    });
    let want: Vec<&str> = a[1..].iter().map(|s| s.as_str()).collect();
    let (mut evals, mut exh, mut steps) = (0u64, 0u64, 0u64);
    let mut exhaustive_complete = true;
    let mut distinct = std::collections::HashSet::new();
    let mut sample = String::new();
    for p in plans.iter().filter(|p| want.iter().any(|w| p.name == *w || p.name.starts_with(&format!("{w}_")))) {
        if let Some((mo, cap)) = p.exhaustive {
            let mut pre: Vec<u32> = vec![];
            let mut n = 0;
            loop {
                if n & 63 == 0 { set_cur(&cs(p, &pre, mo, true)); }
                let (r, g) = one(p.f, &pre, None, mo, true, false);
                n += 1;
                steps += g.used.len() as u64;
                let mut used = g.used;
                if let Err(m) = r {
                    fail(p, used.iter().map(|x| x.0).collect(), mo, true, m);
                }
                while let Some(&(v, k)) = used.last() {
                    if v + 1 < k {
                        break;
                    }
                    used.pop();
                }
                if used.is_empty() {
                    break;
                }
                if n >= cap * scale {
                    exhaustive_complete = false;
                    break;
                }
                pre = used.iter().map(|x| x.0).collect();
                *pre.last_mut().unwrap() += 1;
            }
            exh += n;
            evals += n;
        }
        for (ri, &(mo, cnt)) in p.random.iter().enumerate() {
            for c in 0..cnt * scale {
                let s = (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ ((ri as u64 + 1) << 50) ^ (c + 1).wrapping_mul(0xD1342543DE82EF95)) | 1;
                set_cur(&format!("{}:{}:0:rng{}", p.name, mo, s));
                let (r, g) = one(p.f, &[], Some(s), mo, false, false);
                evals += 1;
                steps += g.used.len() as u64;
                let used: Vec<u32> = g.used.iter().map(|x| x.0).collect();
                if let Err(m) = r {
                    fail(p, used, mo, false, m);
                }
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                used.hash(&mut h);
                if used.len() > 12 {
                    distinct.insert((p.name, h.finish()));
                }
                if sample.is_empty() && used.len() > 12 && used.len() < 60 {
                    let (_, g) = one(p.f, &used, None, mo, false, true);
                    sample = g.trace.join("; ");
                }
            }
        }
    }
    evals -= DISCARDED.load(std::sync::atomic::Ordering::Relaxed).min(evals);
    println!(
        "OK {{\"evaluations\":{evals},\"enumerated\":{exh},\"choices\":{steps},\"distinct_random_long\":{},\"enumeration_complete\":{},\"sample\":{:?}}}",
        distinct.len(),
        exhaustive_complete,
        sample
    );
    if evals == 0 {
        println!("ERROR no cases");
        std::process::exit(2);
    }
}
