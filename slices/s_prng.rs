//! C23: the random number generator of monoruby/src/globals/prng.rs over stand-in values, against the
//! published recurrence written over the whole sequence.
#![allow(dead_code, unused_imports)]
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins ------------------------------------------------------------------------------------
pub mod num {
    pub mod bigint {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Sign {
            Minus,
            NoSign,
            Plus,
        }
    }
    pub trait Signed {
        fn abs(&self) -> Self;
    }
    /// sign and little-endian magnitude without leading zero bytes
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BigInt {
        pub neg: bool,
        pub mag: Vec<u8>,
    }
    impl BigInt {
        pub fn from_bytes_le(s: bigint::Sign, b: &[u8]) -> BigInt {
            let mut mag = b.to_vec();
            while mag.last() == Some(&0) {
                mag.pop();
            }
            BigInt { neg: s == bigint::Sign::Minus && !mag.is_empty(), mag }
        }
        pub fn to_bytes_le(&self) -> (bigint::Sign, Vec<u8>) {
            if self.mag.is_empty() {
                (bigint::Sign::NoSign, vec![0])
            } else {
                (if self.neg { bigint::Sign::Minus } else { bigint::Sign::Plus }, self.mag.clone())
            }
        }
        pub fn to_u32_digits(&self) -> (bigint::Sign, Vec<u32>) {
            let d = self.mag.chunks(4).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u32) << (8 * i)).sum()).collect();
            (self.to_bytes_le().0, d)
        }
    }
    impl From<i64> for BigInt {
        fn from(i: i64) -> BigInt {
            BigInt::from_bytes_le(if i < 0 { bigint::Sign::Minus } else { bigint::Sign::Plus }, &i.unsigned_abs().to_le_bytes())
        }
    }
    impl From<i32> for BigInt {
        fn from(i: i32) -> BigInt {
            BigInt::from(i as i64)
        }
    }
    impl Signed for BigInt {
        fn abs(&self) -> BigInt {
            BigInt { neg: false, mag: self.mag.clone() }
        }
    }
    impl std::ops::Sub<u32> for &BigInt {
        type Output = BigInt;
        fn sub(self, o: u32) -> BigInt {
            assert!(!self.neg && o == 1 && !self.mag.is_empty(), "only a positive number minus one is modelled");
            let mut m = self.mag.clone();
            for b in m.iter_mut() {
                *b = b.wrapping_sub(1);
                if *b != 0xff {
                    break;
                }
            }
            BigInt::from_bytes_le(bigint::Sign::Plus, &m)
        }
    }
}
pub mod getrandom {
    pub fn fill(b: &mut [u8]) -> Result<(), String> {
        b.fill(0x5a);
        Ok(())
    }
}
pub enum RV<'a> {
    Fixnum(i64),
    BigInt(&'a num::BigInt),
    Nil,
}
pub enum V {
    Fix(i64),
    Big(num::BigInt),
}
#[derive(Clone, Copy)]
pub struct Value(&'static V);
impl Value {
    pub fn unpack(&self) -> RV<'_> {
        match self.0 {
            V::Fix(i) => RV::Fixnum(*i),
            V::Big(b) => RV::BigInt(b),
        }
    }
    pub fn integer(i: i64) -> Value {
        Value(Box::leak(Box::new(V::Fix(i))))
    }
    pub fn bigint(b: num::BigInt) -> Value {
        Value(Box::leak(Box::new(V::Big(b))))
    }
    fn free(self) {
        unsafe { drop(Box::from_raw(self.0 as *const V as *mut V)) }
    }
    fn digits(&self) -> Vec<u32> {
        match self.0 {
            V::Fix(i) => num::BigInt::from(*i).to_u32_digits().1,
            V::Big(b) => b.to_u32_digits().1,
        }
    }
}
// ---- sliced from the repository -------------------------------------------------------------------
//@file monoruby/src/globals/prng.rs
//@optsub use crate :: * ; ==> 
//@item monoruby/src/builtins/random.rs fn mt_at

// ---- the published generator, on the whole sequence -------------------------------------------------
struct Ref {
    x: Vec<u32>,
    pos: usize,
}
impl Ref {
    fn one(seed: u32) -> Ref {
        let mut x = vec![seed];
        for i in 1..624u64 {
            let p = x[i as usize - 1] as u64;
            x.push(((1812433253u64 * ((p ^ (p >> 30)) & 0xffff_ffff) + i) & 0xffff_ffff) as u32);
        }
        Ref { x, pos: 624 }
    }
    fn key(key: &[u32]) -> Ref {
        let mut r = Ref::one(19650218);
        let n = 624;
        let m = 0xffff_ffffu64;
        let mut i = 1;
        let s = &mut r.x;
        for k in 0..n.max(key.len()) {
            let j = k % key.len();
            let p = s[i - 1] as u64;
            let t = ((p ^ (p >> 30)) * 1664525) & m;
            s[i] = (((s[i] as u64 ^ t) + key[j] as u64 + j as u64) & m) as u32;
            i += 1;
            if i == n {
                s[0] = s[n - 1];
                i = 1;
            }
        }
        for _ in 0..n - 1 {
            let p = s[i - 1] as u64;
            let t = ((p ^ (p >> 30)) * 1566083941) & m;
            s[i] = (((s[i] as u64 ^ t) + (1 << 32) - i as u64) & m) as u32;
            i += 1;
            if i == n {
                s[0] = s[n - 1];
                i = 1;
            }
        }
        s[0] = 0x8000_0000;
        r
    }
    fn seed(mag: &[u32]) -> Ref {
        match mag {
            [] => Ref::one(0),
            [a] => Ref::one(*a),
            k => Ref::key(k),
        }
    }
    fn draw(&mut self) -> u32 {
        while self.x.len() <= self.pos {
            let k = self.x.len() - 624;
            let y = (self.x[k] & 0x8000_0000) + (self.x[k + 1] & 0x7fff_ffff);
            let mut v = self.x[k + 397] ^ (y / 2);
            if y % 2 == 1 {
                v ^= 0x9908b0df;
            }
            self.x.push(v);
        }
        let mut y = self.x[self.pos];
        self.pos += 1;
        y ^= y >> 11;
        y ^= (y << 7) & 0x9d2c5680;
        y ^= (y << 15) & 0xefc60000;
        y ^ (y >> 18)
    }
    /// an integer in 0..=limit, digit by digit from the top, starting over when it would exceed the limit
    fn below(&mut self, limit: &[u32]) -> Vec<u32> {
        'again: loop {
            let mut out = vec![0; limit.len()];
            let mut started = false;
            let mut tight = true;
            for i in (0..limit.len()).rev() {
                let keep = if started { 32 } else { 32 - limit[i].leading_zeros() };
                if keep == 0 {
                    continue;
                }
                started = true;
                let r = self.draw() & (((1u64 << keep) - 1) as u32);
                if tight && r > limit[i] {
                    continue 'again;
                }
                tight = tight && r == limit[i];
                out[i] = r;
            }
            return out;
        }
    }
}
fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {exp:?}")) }
}
const EDGE: [u32; 10] = [0, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe, 5489];
fn word(g: &mut Gen) -> u32 {
    if g.flag() { g.pick(&EDGE) } else { ((g.choose(1 << 16)) << 16) | g.choose(1 << 16) }
}
fn trim(mut d: Vec<u32>) -> Vec<u32> {
    while d.last() == Some(&0) {
        d.pop();
    }
    d
}
fn bytes(d: &[u32]) -> Vec<u8> {
    d.iter().flat_map(|w| w.to_le_bytes()).collect()
}
fn known(_: &mut Gen) -> Result<(), String> {
    let mut m = Mt::new_with_key(&[0x123, 0x234, 0x345, 0x456]);
    for e in [1067595299u32, 955945823, 477289528, 4107218783, 4228976476] {
        want("key 0x123,0x234,0x345,0x456", m.next_u32(), e)?;
    }
    let mut m = Mt::init_genrand(5489);
    for (i, e) in [3499211612u32, 581869302, 3890346734, 3586334585, 545404204].into_iter().enumerate() {
        want(&format!("seed 5489, number {i}"), m.next_u32(), e)?;
    }
    for _ in 5..9999 {
        m.next_u32();
    }
    want("seed 5489, the 10000th number", m.next_u32(), 4123659995)
}
fn stream(g: &mut Gen) -> Result<(), String> {
    let neg = g.flag();
    let n = match g.choose(12) {
        0 => 0,
        1..=4 => 1,
        5..=7 => 2,
        8 | 9 => 3,
        10 => 4 + g.choose(8) as usize,
        _ => 620 + g.choose(90) as usize,
    };
    let mag = trim((0..n).map(|_| word(g)).collect());
    let small = mag.len() <= 2 && bytes(&mag).len() <= 8 && (mag.len() < 2 || mag[1] < 0x8000_0000) && g.flag();
    let seed = if small {
        let m = mag.iter().rev().fold(0i64, |a, w| (a << 32) | *w as i64);
        Value::integer(if neg { -m } else { m })
    } else {
        Value::bigint(num::BigInt::from_bytes_le(if neg { num::bigint::Sign::Minus } else { num::bigint::Sign::Plus }, &bytes(&mag)))
    };
    g.log(|| format!("seed words {mag:x?} negative {neg}"));
    let mut r = Ref::seed(&mag);
    let mut p = Prng::new();
    p.seed_value(seed);
    let mut m = build_mt(seed);
    let mut cnt = 0u64;
    let skip = g.pick(&[0usize, 1, 225, 226, 227, 228, 396, 397, 398, 620, 622, 623, 624, 625, 1247, 1248]);
    g.log(|| format!("{skip} numbers"));
    for i in 0..skip {
        let e = r.draw();
        want(&format!("number {i}"), m.next_u32(), e)?;
        let mut b = [0u8; 4];
        p.fill_bytes(&mut b);
        want(&format!("number {i} of the global generator"), u32::from_le_bytes(b), e)?;
    }
    cnt += skip as u64;
    let ops = 1 + g.upto(g.max_ops);
    for _ in 0..ops {
        let (mut cm, mut cc) = (m.clone(), cnt);
        let pos = r.pos;
        match g.choose(7) {
            0 => {
                g.log(|| "next_u32".into());
                let e = r.draw();
                want("next_u32", m.next_u32(), e)?;
                cnt += 1;
                let mut b = [0u8; 4];
                p.fill_bytes(&mut b);
                want("fill_bytes(4)", u32::from_le_bytes(b), e)?;
            }
            1 => {
                g.log(|| "next_real".into());
                let (a, b) = (r.draw() >> 5, r.draw() >> 6);
                let e = ((a as u64) * (1 << 26) + b as u64) as f64 / (1u64 << 53) as f64;
                want("next_real", next_real(&mut m, &mut cnt), e)?;
                want("Prng::next_real", p.next_real(), e)?;
            }
            2 => {
                let hi = if g.flag() { word(g) } else { 0 };
                let max = ((hi as u64) << 32) | word(g) as u64;
                g.log(|| format!("ulong_limited({max})"));
                let e = if max == 0 { 0 } else { r.below(&trim(vec![max as u32, hi])).iter().rev().fold(0u64, |a, w| (a << 32) | *w as u64) };
                let got = ulong_limited(&mut m, &mut cnt, max);
                if got > max {
                    return Err(format!("ulong_limited({max}) = {got}"));
                }
                want("ulong_limited", got, e)?;
                want("Prng::ulong_limited", p.ulong_limited(max), e)?;
            }
            3 => {
                let n = 1 + g.choose(5) as usize;
                let mut lim = trim((0..n).map(|_| word(g)).collect());
                if lim.is_empty() {
                    lim.push(1);
                }
                g.log(|| format!("rand_int, bound words {lim:x?}"));
                let max = num::BigInt::from_bytes_le(num::bigint::Sign::Plus, &bytes(&lim));
                let mut less = (&max - 1u32).to_u32_digits().1;
                if less.is_empty() {
                    less.push(0);
                }
                let e = trim(r.below(&less));
                let v = rand_int(&mut m, &mut cnt, &max);
                let v2 = p.rand_int(&max);
                let (a, b) = (v.digits(), v2.digits());
                v.free();
                v2.free();
                want("rand_int", a, e.clone())?;
                want("Prng::rand_int", b, e)?;
            }
            4 => {
                let n = g.choose(14) as usize;
                g.log(|| format!("fill_bytes({n})"));
                let mut e = vec![];
                while e.len() < n {
                    e.extend(r.draw().to_le_bytes());
                    cnt += 1;
                }
                e.truncate(n);
                let (mut a, mut b) = (vec![0xa5u8; n], vec![0x5au8; n]);
                m.fill_bytes(&mut a);
                p.fill_bytes(&mut b);
                want("fill_bytes", a, e.clone())?;
                want("Prng::fill_bytes", b, e)?;
            }
            5 => {
                let n = 1 + g.choose(4) as usize;
                let lim: Vec<u32> = (0..n).map(|_| word(g)).collect();
                g.log(|| format!("limited_rand({lim:x?})"));
                let e = r.below(&lim);
                want("limited_rand", limited_rand(&mut m, &mut cnt, &lim), e.clone())?;
                let mut d = vec![0xdeadu32; n];
                let mut c = 0;
                limited_rand_into(&mut p.mt, &mut c, &lim, &mut d);
                want("limited_rand_into", d, e)?;
            }
            _ => {
                g.log(|| "restore from seed and count".into());
                m = mt_at(seed, cnt);
                let e = r.draw();
                want("number after restoring", m.next_u32(), e)?;
                let mut b = [0u8; 4];
                p.fill_bytes(&mut b);
                cnt += 1;
            }
        }
        want("numbers drawn", cnt, (r.pos - 624) as u64)?;
        // a copy taken before the operation starts at the same number
        let e = {
            let keep = std::mem::replace(&mut r.pos, pos);
            let e = r.draw();
            r.pos = keep;
            e
        };
        want("number of a copy", cm.next_u32(), e)?;
        cc += 1;
        let _ = cc;
        if m != mt_at(seed, cnt) && g.flag() {
            return Err("state differs from the one restored from seed and count".into());
        }
    }
    seed.free();
    Ok(())
}
/// the inclusive float draw
fn inclusive(g: &mut Gen) -> Result<(), String> {
    let seed = word(g);
    let mut r = Ref::one(seed);
    let mut p = Prng { mt: Mt::init_genrand(seed) };
    for _ in 0..20 {
        let x = ((r.draw() as u128) << 32) | r.draw() as u128;
        let e = ((x * ((1u128 << 53) + 1)) / (1u128 << 64)) as f64 / (1u64 << 53) as f64;
        want("next_real_inclusive", p.next_real_inclusive(), e)?;
    }
    Ok(())
}
fn main() {
    drv::main_with(&[
        Plan { name: "C23_known", f: known, exhaustive: Some((1, 1)), random: &[] },
        Plan { name: "C23_stream", f: stream, exhaustive: None, random: &[(6, 12000), (30, 3000)] },
        Plan { name: "C23_inclusive", f: inclusive, exhaustive: None, random: &[(1, 2000)] },
    ]);
}
