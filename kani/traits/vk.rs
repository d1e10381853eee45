#[cfg(kani)]
mod vk {
    use super::*;
    /// records everything written, with the kind of write
    struct Rec {
        n: usize,
        kind: [u8; 4],
        data: [u64; 4],
    }
    impl PartialEq for Rec {
        fn eq(&self, o: &Rec) -> bool {
            let (k, l, d, e) = (&self.kind, &o.kind, &self.data, &o.data);
            self.n == o.n && k[0] == l[0] && k[1] == l[1] && k[2] == l[2] && k[3] == l[3] && d[0] == e[0] && d[1] == e[1] && d[2] == e[2] && d[3] == e[3]
        }
    }
    impl Rec {
        fn new() -> Self {
            Rec { n: 0, kind: [0; 4], data: [0; 4] }
        }
        fn put(&mut self, k: u8, d: u64) {
            self.kind[self.n] = k;
            self.data[self.n] = d;
            self.n += 1;
        }
    }
    impl std::hash::Hasher for Rec {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            let mut d = 0;
            let mut i = 0;
            while i < b.len() {
                d = d << 8 | b[i] as u64;
                i += 1;
            }
            self.put(0, d);
        }
        fn write_u8(&mut self, x: u8) { self.put(1, x as u64) }
        fn write_u16(&mut self, x: u16) { self.put(2, x as u64) }
        fn write_u32(&mut self, x: u32) { self.put(3, x as u64) }
        fn write_u64(&mut self, x: u64) { self.put(4, x) }
        fn write_usize(&mut self, x: usize) { self.put(5, x as u64) }
        fn write_i8(&mut self, x: i8) { self.put(6, x as u64) }
        fn write_i16(&mut self, x: i16) { self.put(7, x as u64) }
        fn write_i32(&mut self, x: i32) { self.put(8, x as u64) }
        fn write_i64(&mut self, x: i64) { self.put(9, x as u64) }
        fn write_isize(&mut self, x: isize) { self.put(10, x as u64) }
    }
    fn eq<T: ?Sized + RubyEql<(), (), u8>>(a: &T, b: &T) -> bool {
        RubyEql::<(), (), u8>::eql(a, b, &mut (), &mut ()) == Ok(true)
    }
    fn ok<T: ?Sized + RubyEql<(), (), u8>>(a: &T, b: &T) -> bool {
        RubyEql::<(), (), u8>::eql(a, b, &mut (), &mut ()).is_ok()
    }
    fn rec<T: ?Sized + RubyHash<(), (), u8>>(a: &T) -> Rec {
        let mut r = Rec::new();
        assert!(RubyHash::<(), (), u8>::ruby_hash(a, &mut r, &mut (), &mut ()) == Ok(()));
        r
    }
    fn std_rec<T: ?Sized + std::hash::Hash>(a: &T) -> Rec {
        let mut r = Rec::new();
        a.hash(&mut r);
        r
    }
    /// equality is the equality of the values, the hash input is the std one, in owned and borrowed form
    macro_rules! scalar {
        ($($n:ident $t:ty),*) => { $(
            #[kani::proof]
            #[kani::unwind(10)]
            fn $n() {
                let (mut a, mut b): ($t, $t) = (kani::any(), kani::any());
                kani::cover!(a == b);
                assert!(ok(&a, &b) && ok(&&a, &&b));
                assert!(eq(&a, &b) == (a == b));
                assert!(eq(&&a, &&b) == (a == b));
                assert!(Equivalent::<$t, (), (), u8>::equivalent(&a, &b, &mut (), &mut ()) == Ok(a == b));
                let r = std_rec(&a);
                assert!(rec(&a) == r);
                assert!(rec(&&a) == r);
                assert!(rec(&&mut a) == r);
                let same = a == b;
                assert!(eq(&&mut a, &&mut b) == same);
            }
        )* };
    }
    scalar!(unit (), boolean bool, character char, i_8 i8, u_8 u8, i_16 i16, u_16 u16, i_32 i32, u_32 u32, i_64 i64, u_64 u64, i_size isize, u_size usize);
    /// texts of up to 3 bytes
    fn text(buf: &[u8; 3], n: usize) -> &str {
        let mut i = 0;
        while i < 3 {
            kani::assume(buf[i] < 128);
            i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&buf[..n]) }
    }
    #[kani::proof]
    #[kani::unwind(10)]
    fn string() {
        let (x, y): ([u8; 3], [u8; 3]) = (kani::any(), kani::any());
        let (n, m): (usize, usize) = (kani::any(), kani::any());
        kani::assume(n <= 3 && m <= 3);
        let (a, b) = (text(&x, n), text(&y, m));
        kani::cover!(a == b && n == 2);
        assert!(eq::<str>(a, b) == (a == b));
        assert!(eq::<&str>(&a, &b) == (a == b));
        assert!(rec::<str>(a) == std_rec(a));
        assert!(rec::<&str>(&a) == std_rec(a));
        let (s, t) = (a.to_string(), b.to_string());
        assert!(eq::<String>(&s, &t) == (a == b));
        assert!(rec::<String>(&s) == rec::<str>(a));
        assert!(Equivalent::<String, (), (), u8>::equivalent(a, &t, &mut (), &mut ()) == Ok(a == b));
    }
}
