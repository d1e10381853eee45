#[cfg(kani)]
mod vk {
    use super::*;
    fn layout() -> TableLayout {
        let l = TableLayout { size: kani::any(), ctrl_align: kani::any() };
        kani::assume(l.ctrl_align.is_power_of_two() && l.ctrl_align >= Group::WIDTH && l.ctrl_align <= 1 << 29);
        l
    }
    /// every request is met by a power of two whose usable capacity reaches it and leaves a free bucket
    #[kani::proof]
    fn buckets_for_capacity() {
        let cap: usize = kani::any();
        kani::assume(cap != 0);
        let r = capacity_to_buckets(cap, layout());
        match r {
            Some(b) => {
                assert!(b.is_power_of_two() && b >= 4);
                let c = bucket_mask_to_capacity(b - 1);
                assert!(c >= cap);
                assert!(c < b);
                // not more than the next larger power of two than needed
                if cap >= 15 {
                    assert!(bucket_mask_to_capacity(b / 2 - 1) < cap);
                }
            }
            None => assert!(cap > usize::MAX / 8),
        }
        kani::cover!(r.is_none());
        kani::cover!(r == Some(1 << 60));
        kani::cover!(r == Some(8));
    }
    #[kani::proof]
    fn capacity_of_mask() {
        let k: u32 = kani::any();
        kani::assume(k < 64);
        let b = 1usize << k;
        let c = bucket_mask_to_capacity(b - 1);
        assert!(c < b);
        assert!(c == if b <= 8 { b - 1 } else { b - b / 8 });
        kani::cover!(k == 63);
    }
    /// byte sizes never wrap: whatever is returned is the exact size, below the addressable limit and aligned
    #[kani::proof]
    fn layout_for() {
        let k: u32 = kani::any();
        kani::assume(k < 64);
        let l = TableLayout { size: kani::any(), ctrl_align: kani::any() };
        let a: u32 = kani::any();
        kani::assume(a >= 4 && a <= 29);
        kani::assume(l.ctrl_align == 1 << a);
        kani::assume(l.size <= isize::MAX as usize);
        let b = 1usize << k;
        let data = (l.size as u128) << k;
        let off = ((data + (l.ctrl_align as u128 - 1)) >> a) << a;
        let len = off + b as u128 + Group::WIDTH as u128;
        let fits = len <= isize::MAX as u128 - (l.ctrl_align as u128 - 1);
        let r = l.calculate_layout_for(b);
        match &r {
            Some((lay, o)) => {
                assert!(fits);
                assert!(*o as u128 == off && lay.size() as u128 == len && lay.align() == l.ctrl_align);
            }
            None => assert!(!fits),
        }
        kani::cover!(r.is_none() && k == 3);
        kani::cover!(r.is_some() && k == 40);
        kani::cover!(r.is_some() && l.size == 24 && k == 3);
    }
    /// the element type decides the layout
    #[kani::proof]
    fn layout_of_types() {
        #[repr(align(64))]
        struct Big([u8; 64]);
        let a = TableLayout::new::<u8>();
        let b = TableLayout::new::<[u64; 3]>();
        let c = TableLayout::new::<Big>();
        let d = TableLayout::new::<()>();
        assert!(a.size == 1 && a.ctrl_align == Group::WIDTH);
        assert!(b.size == 24 && b.ctrl_align == Group::WIDTH);
        assert!(c.size == 64 && c.ctrl_align == 64);
        assert!(d.size == 0 && d.ctrl_align == Group::WIDTH);
        kani::cover!(true);
    }
    /// one step of the probe sequence
    #[kani::proof]
    fn probe_step() {
        let k: u32 = kani::any();
        kani::assume(k < 63);
        let mask = (1usize << k) - 1;
        let mut p = ProbeSeq { pos: kani::any(), stride: kani::any() };
        kani::assume(p.pos <= mask && p.stride <= mask && p.stride % Group::WIDTH == 0);
        let (p0, s0) = (p.pos, p.stride);
        p.move_next(mask);
        assert!(p.stride == s0 + Group::WIDTH);
        assert!(p.pos as u128 == (p0 as u128 + s0 as u128 + Group::WIDTH as u128) & mask as u128);
        assert!(p.pos <= mask);
        kani::cover!(k == 62 && p.pos < p0);
    }
}
