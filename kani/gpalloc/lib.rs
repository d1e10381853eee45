#![allow(dead_code, unused_imports)]
pub mod codegen {
    //@item monoruby/src/codegen.rs enum GP
    pub mod jitgen {
        use super::GP;
        //@item monoruby/src/executor.rs struct SlotId
        //@optsub repr ( transparent ) ==> derive(Debug)
        //@item monoruby/src/bytecodegen.rs enum BinOpK
        //@file monoruby/src/codegen/jitgen/gp_alloc.rs nouse

        #[cfg(kani)]
        mod vk {
            use super::*;
            const N: usize = GP_ALLOC_SET.len();
            const _: () = assert!(N <= 6);
            /// what each register caches: slot, newer than its home
            type View = [Option<(u16, bool)>; N];
            fn view(f: &GpRegFile) -> View {
                let mut v = [None; N];
                let mut i = 0;
                while i < N {
                    v[i] = f.holder[i].map(|h| (h.slot.0, h.dirty));
                    i += 1;
                }
                v
            }
            /// no slot twice, binding stamps distinct and not in the future
            fn valid(f: &GpRegFile) -> bool {
                let mut ok = f.holder.len() == N;
                let mut i = 0;
                while i < N {
                    if let Some(a) = f.holder[i] {
                        ok &= a.age <= f.clock;
                        let mut j = i + 1;
                        while j < N {
                            if let Some(b) = f.holder[j] {
                                ok &= a.slot != b.slot && a.age != b.age;
                            }
                            j += 1;
                        }
                    }
                    i += 1;
                }
                ok
            }
            fn any() -> GpRegFile {
                let mut f = GpRegFile { holder: vec![None; N], clock: kani::any() };
                let mut i = 0;
                while i < N {
                    if kani::any() {
                        f.holder[i] = Some(Holder { slot: SlotId(kani::any()), dirty: kani::any(), age: kani::any() });
                    }
                    i += 1;
                }
                kani::assume(f.clock < u64::MAX - 8);
                kani::assume(valid(&f));
                f
            }
            fn full(v: &View) -> bool {
                v.iter().all(|h| h.is_some())
            }
            fn index(r: GP) -> usize {
                let mut k = N;
                let mut i = 0;
                while i < N {
                    if GP_ALLOC_SET[i] == r {
                        assert!(k == N, "a register listed twice");
                        k = i;
                    }
                    i += 1;
                }
                assert!(k < N, "not an allocatable register");
                k
            }
            fn any_reg() -> GP {
                let i: usize = kani::any();
                kani::assume(i < N);
                GP_ALLOC_SET[i]
            }
            fn pins() -> ([GP; 3], usize) {
                let n: usize = kani::any();
                kani::assume(n <= 3 && n < N);
                ([any_reg(), any_reg(), any_reg()], n)
            }
            fn same_but(a: &View, b: &View, k: usize) {
                let mut i = 0;
                while i < N {
                    assert!(i == k || a[i] == b[i]);
                    i += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn new() {
                let f = GpRegFile::new();
                kani::cover!(f.is_empty());
                assert!(valid(&f) && view(&f) == [None; N] && f.is_empty());
                let mut i = 0;
                while i < N {
                    assert!(index(GP_ALLOC_SET[i]) == i);
                    i += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn lookups() {
                let f = any();
                let v = view(&f);
                kani::cover!(full(&v));
                let s: u16 = kani::any();
                let e = v.iter().position(|h| h.is_some_and(|h| h.0 == s)).map(|i| GP_ALLOC_SET[i]);
                let d = v.iter().position(|h| *h == Some((s, true))).map(|i| GP_ALLOC_SET[i]);
                kani::cover!(e.is_some() && d.is_none());
                assert!(f.reg_of(SlotId(s)) == e);
                assert!(f.dirty_reg_of(SlotId(s)) == d);
                assert!(f.is_empty() == (v == [None; N]));
                let r = any_reg();
                assert!(f.is_free(r) == v[index(r)].is_none());
            }
            fn check_spills(v: &View, out: &[(GP, SlotId)]) {
                let mut k = 0;
                let mut i = 0;
                while i < N {
                    if let Some((s, true)) = v[i] {
                        assert!(k < out.len() && out[k] == (GP_ALLOC_SET[i], SlotId(s)));
                        k += 1;
                    }
                    i += 1;
                }
                assert!(out.len() == k);
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn residents() {
                let f = any();
                let v = view(&f);
                kani::cover!(full(&v));
                check_spills(&v, &f.dirty_residents());
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn take() {
                let mut f = any();
                let v = view(&f);
                kani::cover!(full(&v));
                let out = f.take_dirty_spills();
                check_spills(&v, &out);
                assert!(valid(&f) && view(&f) == [None; N]);
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn alloc_reg() {
                let mut f = any();
                let v = view(&f);
                let (p, n) = pins();
                kani::cover!(full(&v) && n > 0);
                kani::cover!(!full(&v));
                let (r, spill) = f.alloc_reg(&p[..n]);
                let k = index(r);
                assert!(!p[..n].contains(&r));
                let w = view(&f);
                assert!(valid(&f) && w[k].is_none());
                same_but(&v, &w, k);
                match v[k] {
                    Some((s, true)) => assert!(spill == Some((r, SlotId(s)))),
                    _ => assert!(spill.is_none()),
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn alloc() {
                let mut f = any();
                let v = view(&f);
                let (p, n) = pins();
                kani::cover!(full(&v) && n > 0);
                let mut out = vec![];
                let r = f.alloc(&p[..n], &mut out);
                let k = index(r);
                assert!(!p[..n].contains(&r));
                let w = view(&f);
                assert!(valid(&f) && w[k].is_none());
                same_but(&v, &w, k);
                match v[k] {
                    Some((s, true)) => assert!(out.len() == 1 && out[0] == GpAction::Spill { reg: r, slot: SlotId(s) }),
                    _ => assert!(out.is_empty()),
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn bind() {
                let mut f = any();
                let v = view(&f);
                let (r, s, d): (GP, u16, bool) = (any_reg(), kani::any(), kani::any());
                kani::cover!(full(&v));
                let k = index(r);
                kani::cover!(v[(k + 1) % N] == Some((s, !d)));
                f.bind(r, SlotId(s), d);
                let w = view(&f);
                assert!(valid(&f));
                let mut i = 0;
                while i < N {
                    if i == k {
                        assert!(w[i] == Some((s, d)));
                    } else if v[i].is_some_and(|h| h.0 == s) {
                        assert!(w[i].is_none());
                    } else {
                        assert!(w[i] == v[i]);
                    }
                    i += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn sync() {
                let mut f = any();
                let v = view(&f);
                let s: u16 = kani::any();
                let e = v.iter().position(|h| h.is_some_and(|h| h.0 == s));
                kani::cover!(e == Some(N - 1) && full(&v));
                kani::cover!(e.is_none());
                let r = f.sync(SlotId(s));
                let w = view(&f);
                assert!(valid(&f));
                assert!(r == e.map(|i| GP_ALLOC_SET[i]));
                if let Some(k) = e {
                    assert!(w[k] == Some((s, false)));
                    same_but(&v, &w, k);
                } else {
                    assert!(v == w);
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn free_above_sp() {
                let mut f = any();
                let v = view(&f);
                let sp: u16 = kani::any();
                kani::cover!(full(&v));
                f.free_above_sp(SlotId(sp));
                let w = view(&f);
                assert!(valid(&f));
                let mut i = 0;
                while i < N {
                    assert!(w[i] == v[i].filter(|h| h.0 < sp));
                    i += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn invalidate() {
                let mut f = any();
                let v = view(&f);
                let s: u16 = kani::any();
                kani::cover!(full(&v) && v[N - 1] == Some((s, true)));
                f.invalidate(SlotId(s));
                let w = view(&f);
                assert!(valid(&f));
                let mut i = 0;
                while i < N {
                    assert!(w[i] == v[i].filter(|h| h.0 != s));
                    i += 1;
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn ensure_reg() {
                let mut f = any();
                let v = view(&f);
                let s: u16 = kani::any();
                let (p, n) = pins();
                let e = v.iter().position(|h| h.is_some_and(|h| h.0 == s));
                kani::cover!(e.is_none() && full(&v) && n == 1);
                kani::cover!(e == Some(N - 1));
                let mut out = vec![];
                let r = ensure(&mut f, SlotId(s), &p[..n], &mut out);
                let k = index(r);
                let w = view(&f);
                assert!(valid(&f));
                if let Some(i) = e {
                    assert!(k == i && out.is_empty() && v == w);
                    return;
                }
                assert!(!p[..n].contains(&r));
                assert!(w[k] == Some((s, false)));
                same_but(&v, &w, k);
                let l = GpAction::Load { slot: SlotId(s), reg: r, guard: true };
                match v[k] {
                    Some((t, true)) => assert!(out.len() == 2 && out[0] == GpAction::Spill { reg: r, slot: SlotId(t) } && out[1] == l),
                    _ => assert!(out.len() == 1 && out[0] == l),
                }
            }
            #[kani::proof]
            #[kani::unwind(8)]
            fn flush() {
                let mut f = any();
                let v = view(&f);
                kani::cover!(full(&v));
                let mut out = vec![];
                flush_dirty(&mut f, &mut out);
                assert!(valid(&f) && view(&f) == [None; N]);
                let mut k = 0;
                let mut i = 0;
                while i < N {
                    if let Some((s, true)) = v[i] {
                        assert!(k < out.len() && out[k] == GpAction::Spill { reg: GP_ALLOC_SET[i], slot: SlotId(s) });
                        k += 1;
                    }
                    i += 1;
                }
                assert!(out.len() == k);
            }
        }
    }
}
