#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
mod macros;
mod control;
#[cfg(kani)]
mod vk {
    use crate::control::*;
    const W: usize = Group::WIDTH;
    fn any_tags() -> [Tag; W] {
        unsafe { core::mem::transmute(kani::any::<[u8; W]>()) }
    }
    fn byte(t: Tag) -> u8 {
        unsafe { core::mem::transmute(t) }
    }
    fn tag(b: u8) -> Tag {
        unsafe { core::mem::transmute(b) }
    }
    #[repr(align(16))]
    struct Aligned([Tag; W]);
    /// positions come out ascending, in range, each allowed; every required position comes out
    macro_rules! scan {
        ($tags:expr, $m:expr, $must:expr, $may:expr) => {{
            let (tags, m) = ($tags, $m);
            let must: fn(u8, u8) -> bool = $must.0;
            let may: fn(u8) -> bool = $may;
            let t: u8 = $must.1;
            let i: usize = kani::any();
            kani::assume(i < W);
            let any = m.any_bit_set();
            let low = m.lowest_set_bit();
            let mut it = m.into_iter();
            let (mut seen, mut prev, mut n) = (false, None, 0usize);
            let mut first = None;
            let mut k = 0;
            while k <= W {
                match it.next() {
                    Some(p) => {
                        assert!(p < W);
                        if let Some(q) = prev {
                            assert!(q < p);
                        } else {
                            first = Some(p);
                        }
                        assert!(may(byte(tags[p])));
                        seen |= p == i;
                        prev = Some(p);
                        n += 1;
                    }
                    None => break,
                }
                k += 1;
            }
            assert!(n <= W);
            if must(byte(tags[i]), t) {
                assert!(seen);
            }
            assert!(low == first);
            assert!(any == (n > 0));
            kani::cover!(n == W);
            kani::cover!(n == 0);
            kani::cover!(n == 2 && seen);
            (n, seen, i)
        }};
    }
    fn is_empty(b: u8) -> bool {
        b == 0xff
    }
    fn is_full(b: u8) -> bool {
        b < 0x80
    }
    fn is_special(b: u8) -> bool {
        b >= 0x80
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn match_tag() {
        let tags = any_tags();
        let t: u8 = kani::any();
        kani::assume(t < 0x80);
        let m = unsafe { Group::load(tags.as_ptr()) }.match_tag(tag(t));
        let (_, _seen, _i) = scan!(tags, m, ((|b: u8, t: u8| b == t), t), is_full);
        #[cfg(not(generic_scan))]
        assert!(_seen == (byte(tags[_i]) == t));
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn match_empty() {
        // the bytes a table ever holds: EMPTY, DELETED and full tags
        let tags = any_tags();
        let k: usize = kani::any();
        kani::assume(k < W);
        let mut i = 0;
        while i < W {
            let b = byte(tags[i]);
            kani::assume(b < 0x80 || b == 0x80 || b == 0xff);
            i += 1;
        }
        let m = unsafe { Group::load(tags.as_ptr()) }.match_empty();
        scan!(tags, m, ((|b: u8, _: u8| b == 0xff), 0), is_empty);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn match_empty_or_deleted() {
        let tags = any_tags();
        let m = unsafe { Group::load(tags.as_ptr()) }.match_empty_or_deleted();
        scan!(tags, m, ((|b: u8, _: u8| b >= 0x80), 0), is_special);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn match_full() {
        let tags = any_tags();
        let m = unsafe { Group::load(tags.as_ptr()) }.match_full();
        scan!(tags, m, ((|b: u8, _: u8| b < 0x80), 0), is_full);
    }
    /// number of non-matching positions at either end
    #[kani::proof]
    #[kani::unwind(18)]
    fn end_counts() {
        let tags = any_tags();
        let m = unsafe { Group::load(tags.as_ptr()) }.match_empty_or_deleted();
        let (tz, lz) = (m.trailing_zeros(), m.leading_zeros());
        let (mut a, mut b) = (0, 0);
        while a < W && is_full(byte(tags[a])) {
            a += 1;
        }
        while b < W && is_full(byte(tags[W - 1 - b])) {
            b += 1;
        }
        assert!(tz == a && lz == b);
        kani::cover!(a == W);
        kani::cover!(a == 3 && b == 2);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn convert() {
        let tags = any_tags();
        let mut out = Aligned(any_tags());
        let g = unsafe { Group::load(tags.as_ptr()) }.convert_special_to_empty_and_full_to_deleted();
        unsafe { g.store_aligned(out.0.as_mut_ptr()) };
        let i: usize = kani::any();
        kani::assume(i < W);
        assert!(byte(out.0[i]) == if is_full(byte(tags[i])) { 0x80 } else { 0xff });
        kani::cover!(is_full(byte(tags[i])));
        kani::cover!(byte(tags[i]) == 0x80);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn load_store() {
        let a = Aligned(any_tags());
        let mut b = Aligned(any_tags());
        let mut c = Aligned(any_tags());
        unsafe {
            Group::load_aligned(a.0.as_ptr()).store_aligned(b.0.as_mut_ptr());
            Group::load(a.0.as_ptr()).store_aligned(c.0.as_mut_ptr());
        }
        let i: usize = kani::any();
        kani::assume(i < W);
        assert!(byte(a.0[i]) == byte(b.0[i]) && byte(a.0[i]) == byte(c.0[i]));
        assert!(byte(Group::static_empty()[i]) == 0xff);
        kani::cover!(byte(a.0[i]) == 7);
    }
    #[kani::proof]
    #[kani::unwind(18)]
    fn tags() {
        let h: u64 = kani::any();
        let t = Tag::full(h);
        assert!(t.is_full() && !t.is_special());
        assert!(byte(t) as u64 == h >> 57);
        let b: u8 = kani::any();
        assert!(tag(b).is_full() == (b < 0x80) && tag(b).is_special() == (b >= 0x80));
        assert!((tag(b) == t) == (b == byte(t)));
        assert!(byte(Tag::EMPTY) == 0xff && byte(Tag::DELETED) == 0x80);
        assert!(Tag::EMPTY.special_is_empty() && !Tag::DELETED.special_is_empty());
        kani::cover!(byte(t) == 0x7f);
        kani::cover!(tag(b) == t);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn fill() {
        let mut a: [Tag; 20] = unsafe { core::mem::transmute(kani::any::<[u8; 20]>()) };
        let before = a;
        let (lo, hi): (usize, usize) = (kani::any(), kani::any());
        kani::assume(lo <= hi && hi <= 20);
        let b: u8 = kani::any();
        a[lo..hi].fill_tag(tag(b));
        let i: usize = kani::any();
        kani::assume(i < 20);
        assert!(a[i] == if lo <= i && i < hi { tag(b) } else { before[i] });
        kani::cover!(lo == 3 && hi == 19 && i == 3);
    }
}
