//! Equality and hashing of the provided key types.
use ruby_traits::*;
use std::hash::Hasher;
use vharness::gen::*;

type Res = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// counts element callbacks; the one numbered `fail_at` errs
#[derive(Default)]
struct E {
    calls: u32,
    fail_at: Option<u32>,
}
struct G;
#[derive(Debug, PartialEq, Clone, Copy)]
struct R(u32);
impl E {
    fn tick(&mut self) -> Result<(), R> {
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) { Err(R(n)) } else { Ok(()) }
    }
}
/// every call made on the hasher, in order
#[derive(Default, Clone, PartialEq, Debug)]
struct Rec(Vec<(u8, Vec<u8>)>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push((0, b.to_vec()));
    }
    fn write_u8(&mut self, b: u8) {
        self.0.push((1, vec![b]));
    }
    fn write_usize(&mut self, b: usize) {
        self.0.push((2, b.to_ne_bytes().to_vec()));
    }
}
/// an element whose equality and hash may err
#[derive(Clone, Debug)]
struct El {
    id: u8,
    #[allow(dead_code)]
    inst: u32,
}
impl RubyEql<E, G, R> for El {
    fn eql(&self, o: &Self, e: &mut E, _: &mut G) -> Result<bool, R> {
        e.tick()?;
        Ok(self.id == o.id)
    }
}
impl RubyHash<E, G, R> for El {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, e: &mut E, _: &mut G) -> Result<(), R> {
        e.tick()?;
        s.write_u8(self.id);
        Ok(())
    }
}
fn eq<T: RubyEql<E, G, R> + ?Sized>(a: &T, b: &T) -> bool {
    RubyEql::<E, G, R>::eql(a, b, &mut E::default(), &mut G).unwrap()
}
fn hs<T: RubyHash<E, G, R> + ?Sized>(a: &T) -> Rec {
    let mut r = Rec::default();
    RubyHash::<E, G, R>::ruby_hash(a, &mut r, &mut E::default(), &mut G).unwrap();
    r
}
/// `same` is the intended equality
fn laws<T: RubyEql<E, G, R> + RubyHash<E, G, R> + ?Sized + std::fmt::Debug>(a: &T, b: &T, c: &T, same: impl Fn(&T, &T) -> bool) -> Res {
    let l = [a, b, c];
    for x in l {
        ensure!(eq(x, x), "{x:?} is not eql to itself");
        for y in l {
            ensure!(eq(x, y) == same(x, y), "eql({x:?}, {y:?}) = {}", eq(x, y));
            ensure!(!eq(x, y) || hs(x) == hs(y), "{x:?} and {y:?} are eql but hash {:?} and {:?}", hs(x), hs(y));
            // what tells the values apart reaches the hasher, unless the type says otherwise
            ensure!(Equivalent::<T, E, G, R>::equivalent(x, y, &mut E::default(), &mut G) == Ok(same(x, y)), "equivalent({x:?}, {y:?})");
        }
    }
    Ok(())
}
/// the std hash of the same value: the form ruby_hash has to agree with
fn std_rec<T: std::hash::Hash + ?Sized>(x: &T) -> Rec {
    let mut r = Rec::default();
    x.hash(&mut r);
    r
}
fn sized<T>(a: T, b: T, c: T) -> Res
where
    T: RubyEql<E, G, R> + RubyHash<E, G, R> + std::fmt::Debug + PartialEq + std::hash::Hash + Clone,
    for<'a> &'a T: RubyEql<E, G, R> + RubyHash<E, G, R>,
    for<'a> &'a mut T: RubyEql<E, G, R> + RubyHash<E, G, R>,
{
    laws(&a, &b, &c, |x, y| x == y)?;
    ensure!(hs(&a) == std_rec(&a), "{a:?} hashes {:?}, std form {:?}", hs(&a), std_rec(&a));
    laws(&&a, &&b, &&c, |x, y| x == y)?;
    ensure!(hs(&&a) == hs(&a), "reference to {a:?} hashes differently");
    let (mut a2, mut b2, mut c2) = (a.clone(), b.clone(), c.clone());
    ensure!(hs(&&mut a2) == hs(&a), "mutable reference to {a:?} hashes differently");
    laws(&&mut a2, &&mut b2, &&mut c2, |x, y| x == y)?;
    let o = [None, Some(a.clone()), Some(b.clone())];
    laws(&o[0], &o[1], &o[2], |x, y| x == y)?;
    let o = [vec![], vec![a.clone(), b.clone()], vec![a.clone(), c.clone()]];
    laws(&o[0], &o[1], &o[2], |x, y| x == y)?;
    laws(&vec![b.clone()], &vec![b.clone(), a.clone()], &vec![a.clone(), b.clone()], |x, y| x == y)?;
    for x in &o {
        for y in &o {
            ensure!(eq::<[T]>(x, y) == (x == y), "slices {x:?} {y:?}");
        }
    }
    Ok(())
}
fn word(g: &mut Gen) -> u64 {
    match g.choose(4) {
        0 => g.choose(3) as u64,
        1 => u64::MAX - g.choose(3) as u64,
        2 => 1u64 << g.choose(64),
        _ => (g.choose(1 << 16) as u64) << 48 | (g.choose(1 << 16) as u64) << 20 | g.choose(1 << 16) as u64,
    }
}
fn text(g: &mut Gen) -> String {
    let n = g.choose(4);
    (0..n).map(|_| g.pick(&['a', 'b', '\0', '\u{ff}', 'é', '\u{10ffff}'])).collect()
}
fn c17_plain(g: &mut Gen) -> Res {
    let (x, y) = (word(g), word(g));
    let z = if g.flag() { x } else { word(g) };
    g.log(|| format!("words {x} {y} {z}"));
    sized((), (), ())?;
    sized(x & 1 == 1, y & 1 == 1, z & 1 == 1)?;
    let ch = |w: u64| char::from_u32((w % 0x110000) as u32).unwrap_or('x');
    sized(ch(x), ch(y), ch(z))?;
    sized(x as i8, y as i8, z as i8)?;
    sized(x as u8, y as u8, z as u8)?;
    sized(x as i16, y as i16, z as i16)?;
    sized(x as u16, y as u16, z as u16)?;
    sized(x as i32, y as i32, z as i32)?;
    sized(x as u32, y as u32, z as u32)?;
    sized(x as i64, y as i64, z as i64)?;
    sized(x, y, z)?;
    sized(x as isize, y as isize, z as isize)?;
    sized(x as usize, y as usize, z as usize)?;
    let (s, t, u) = (text(g), text(g), text(g));
    sized(s.clone(), t.clone(), u.clone())?;
    laws::<str>(&s, &t, &u, |a, b| a == b)?;
    laws::<&str>(&&*s, &&*t, &&*u, |a, b| a == b)?;
    ensure!(hs::<str>(&s) == hs(&s) && hs::<&str>(&&*s) == hs(&s), "borrowed text hashes differently");
    ensure!(Equivalent::<String, E, G, R>::equivalent(&*s, &t, &mut E::default(), &mut G) == Ok(s == t), "text lookup");
    let v = vec![x, y];
    ensure!(Equivalent::<Vec<u64>, E, G, R>::equivalent(&v[..], &vec![x, z], &mut E::default(), &mut G) == Ok(y == z), "slice lookup");
    // the infallible forms
    let (a, b) = (Sy(x as u32 & 3), Sy(z as u32 & 3));
    ensure!(SymEquivalent::<Sy>::equivalent(&a, &b) == (a.0 == b.0), "symbol lookup");
    Ok(())
}
#[derive(Clone)]
struct Sy(u32);
impl RubySymEql for Sy {
    fn eql(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
fn els(g: &mut Gen, inst: u32) -> Vec<El> {
    let n = g.choose(4);
    (0..n).map(|_| El { id: g.choose(2) as u8, inst }).collect()
}
fn ids(v: &[El]) -> Vec<u8> {
    v.iter().map(|x| x.id).collect()
}
/// containers of fallible elements: results, and the error of any element at any position
fn c17_fail(g: &mut Gen) -> Res {
    let (a, b, c) = (els(g, 1), els(g, 2), els(g, 3));
    let same = |x: &Vec<El>, y: &Vec<El>| ids(x) == ids(y);
    laws(&a, &b, &c, same)?;
    let n = |v: &Vec<El>| v.first().cloned();
    laws(&n(&a), &n(&b), &n(&c), |x, y| x.as_ref().map(|k| k.id) == y.as_ref().map(|k| k.id))?;
    laws(&vec![a.clone()], &vec![b.clone()], &vec![c.clone(), a.clone()], |x, y| x.iter().map(|k| ids(k)).eq(y.iter().map(|k| ids(k))))?;
    laws(&Some(a.clone()), &Some(b.clone()), &None, |x, y| x.as_ref().map(|k| ids(k)) == y.as_ref().map(|k| ids(k)))?;
    let at = g.choose(5);
    let op = g.choose(7);
    g.log(|| format!("op {op} on {:?} {:?} {:?}, failing callback {at}", ids(&a), ids(&b), ids(&c)));
    let mut e = E { fail_at: Some(at), calls: 0 };
    let mut rec = Rec::default();
    let r: Result<Option<bool>, R> = match op {
        0 => RubyEql::eql(&a, &b, &mut e, &mut G).map(Some),
        1 => RubyEql::eql(&a[..], &b[..], &mut e, &mut G).map(Some),
        2 => Equivalent::<Vec<El>, E, G, R>::equivalent(&a[..], &b, &mut e, &mut G).map(Some),
        3 => RubyEql::eql(&n(&a), &n(&b), &mut e, &mut G).map(Some),
        4 => RubyHash::ruby_hash(&a, &mut rec, &mut e, &mut G).map(|_| None),
        5 => RubyHash::ruby_hash(&n(&a), &mut rec, &mut e, &mut G).map(|_| None),
        _ => RubyEql::eql(&Some(a.clone()), &Some(b.clone()), &mut e, &mut G).map(Some),
    };
    match r {
        Err(r) => ensure!(r == R(at) && e.calls == at + 1, "error {r:?} after {} callbacks, injected at {at}", e.calls),
        Ok(r) => {
            ensure!(e.calls <= at, "the error of callback {at} is lost");
            let want = match op {
                3 => Some(a.first().map(|k| k.id) == b.first().map(|k| k.id)),
                4 | 5 => None,
                _ => Some(same(&a, &b)),
            };
            ensure!(r == want, "{r:?}, expected {want:?}");
        }
    }
    Ok(())
}
fn main() {
    main_with(&[
        Plan { name: "C17_plain", f: c17_plain, exhaustive: None, random: &[(1, 20000)] },
        Plan { name: "C17_fail", f: c17_fail, exhaustive: Some((1, 60000)), random: &[(1, 20000)] },
    ]);
}
