#![allow(dead_code, unused_imports)]
/// the sequential proofs run on the real atomics
pub mod plain {
    //@file monoruby/src/poll_flag.rs
    #[cfg(kani)]
    mod vk {
        use super::*;
        const GC: u32 = 0xff;
        const PRE: u32 = 0xff00;
        const SIG: u32 = 0xff_0000;
        /// any word any history can have produced, registered as this thread's word
        fn word() -> (AtomicU32, u32) {
            let w: u32 = kani::any();
            kani::assume(w & 0xff00_0000 == 0);
            (AtomicU32::new(w), w)
        }
        fn now(a: &AtomicU32) -> u32 {
            a.load(Ordering::Relaxed)
        }
        #[kani::proof]
        fn gc_lane() {
            let (a, w) = word();
            register(a.as_ptr());
            assert!(gc_requested() == (w & GC != 0));
            set_gc();
            let s = now(&a);
            assert!(s & GC != 0 && s & !GC == w & !GC);
            assert!(gc_requested() && s != 0);
            clear_gc();
            let c = now(&a);
            assert!(c == w & !GC && !gc_requested());
            assert!((c != 0) == (w & (PRE | SIG) != 0));
            kani::cover!(w == 0);
            kani::cover!(w & PRE != 0 && w & SIG != 0);
        }
        #[kani::proof]
        fn preempt_lane() {
            let (a, w) = word();
            register(a.as_ptr());
            set_preempt();
            let s = now(&a);
            assert!(s & PRE != 0 && s & !PRE == w & !PRE);
            assert!(consume_preempt());
            assert!(now(&a) == w & !PRE);
            assert!(!consume_preempt());
            assert!(now(&a) == w & !PRE);
            kani::cover!(w & GC != 0 && w & SIG != 0);
        }
        #[kani::proof]
        fn preempt_pending() {
            let (a, w) = word();
            register(a.as_ptr());
            assert!(consume_preempt() == (w & PRE != 0));
            assert!(now(&a) == w & !PRE);
            kani::cover!(w & PRE == 0 && w != 0);
            kani::cover!(w & PRE != 0);
        }
        #[kani::proof]
        fn signal_lane() {
            let (a, w) = word();
            register(a.as_ptr());
            set_signal_from_handler();
            let s = now(&a);
            assert!(s & SIG != 0 && s & !SIG == w & !SIG);
            clear_signal();
            assert!(now(&a) == w & !SIG);
            kani::cover!(w & PRE != 0 && w & GC != 0);
        }
        //@if monoruby/src/poll_flag.rs const SIGNAL_LANE
        /// every request is visible in the zero test until its own kind is cleared
        #[kani::proof]
        fn lanes_disjoint() {
            assert!(GC_LANE & GC == GC_LANE && GC_LANE != 0);
            assert!(PREEMPT_LANE & PRE == PREEMPT_LANE && PREEMPT_LANE != 0);
            assert!(SIGNAL_LANE & SIG == SIGNAL_LANE && SIGNAL_LANE != 0);
            kani::cover!(true);
        }
        //@endif
        /// registration: the handler writes the word registered last; an unregistered word is never touched
        #[kani::proof]
        fn registration() {
            let (a, wa) = word();
            let (b, wb) = word();
            register(a.as_ptr());
            register(b.as_ptr());
            set_gc();
            set_signal_from_handler();
            let s = now(&b);
            assert!(now(&a) == wa && s & GC != 0 && s & SIG != 0 && s & PRE == wb & PRE);
            unregister(a.as_ptr());
            set_preempt();
            set_signal_from_handler();
            let s = now(&b);
            assert!(now(&a) == wa && s & GC != 0 && s & SIG != 0 && s & PRE != 0 && s >> 24 == 0);
            unregister(b.as_ptr());
            let e = now(&b);
            set_gc();
            clear_gc();
            set_preempt();
            clear_signal();
            set_signal_from_handler();
            assert!(!consume_preempt() && gc_requested());
            assert!(now(&a) == wa && now(&b) == e);
            kani::cover!(true);
        }
        //@if monoruby/src/poll_flag.rs static SIGNAL_FLAG_ADDR
        #[kani::proof]
        fn adoption() {
            let (a, wa) = word();
            let (b, wb) = word();
            register(a.as_ptr());
            // another interpreter took the handler slot
            SIGNAL_FLAG_ADDR.store(b.as_ptr() as usize, Ordering::Release);
            set_signal_from_handler();
            assert!(now(&a) == wa && now(&b) & SIG != 0 && now(&b) & !SIG == wb & !SIG);
            adopt_signal_registry();
            set_signal_from_handler();
            assert!(now(&a) & SIG != 0 && now(&a) & !SIG == wa & !SIG && now(&b) & !SIG == wb & !SIG);
            unregister(a.as_ptr());
            adopt_signal_registry();
            kani::cover!(true);
        }
        //@endif
    }
}
/// rely-guarantee: the same text over a word that other threads change between any two accesses.
/// Every write of an operation may differ from the value it replaces only in that operation's lane.
pub mod shared {
    pub mod model {
        pub use std::sync::atomic::{AtomicUsize, Ordering};
        pub static mut LANE: u32 = 0;
        pub static mut WRITES: u32 = 0;
        pub struct AtomicU32(std::cell::UnsafeCell<u32>);
        impl AtomicU32 {
            pub fn new(v: u32) -> Self {
                AtomicU32(std::cell::UnsafeCell::new(v))
            }
            pub fn as_ptr(&self) -> *mut u32 {
                self.0.get()
            }
            pub fn raw(&self) -> u32 {
                unsafe { *self.0.get() }
            }
            #[cfg(kani)]
            fn interfere(&self) {
                // other threads: any lane may have changed
                unsafe { *self.0.get() = kani::any() };
            }
            #[cfg(not(kani))]
            fn interfere(&self) {}
            fn write(&self, n: u32) {
                unsafe {
                    assert!((*self.0.get() ^ n) & !LANE == 0);
                    *self.0.get() = n;
                    WRITES += 1;
                }
            }
            pub fn load(&self, _: Ordering) -> u32 {
                self.interfere();
                self.raw()
            }
            pub fn store(&self, n: u32, _: Ordering) {
                self.interfere();
                self.write(n)
            }
            pub fn swap(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(n);
                o
            }
            pub fn fetch_or(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(o | n);
                o
            }
            pub fn fetch_and(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(o & n);
                o
            }
            pub fn fetch_xor(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(o ^ n);
                o
            }
            pub fn fetch_add(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(o.wrapping_add(n));
                o
            }
            pub fn fetch_sub(&self, n: u32, _: Ordering) -> u32 {
                self.interfere();
                let o = self.raw();
                self.write(o.wrapping_sub(n));
                o
            }
            pub fn compare_exchange_weak(&self, c: u32, n: u32, a: Ordering, b: Ordering) -> Result<u32, u32> {
                self.compare_exchange(c, n, a, b)
            }
            pub fn fetch_update(&self, a: Ordering, b: Ordering, mut f: impl FnMut(u32) -> Option<u32>) -> Result<u32, u32> {
                loop {
                    let o = self.load(a);
                    match f(o) {
                        Some(n) => {
                            if self.compare_exchange(o, n, a, b).is_ok() {
                                return Ok(o);
                            }
                        }
                        None => return Err(o),
                    }
                }
            }
            pub fn compare_exchange(&self, c: u32, n: u32, _: Ordering, _: Ordering) -> Result<u32, u32> {
                self.interfere();
                let o = self.raw();
                if o == c {
                    self.write(n);
                    Ok(o)
                } else {
                    Err(o)
                }
            }
        }
    }
    //@file monoruby/src/poll_flag.rs
    //@sub std::sync::atomic:: ==> self::model::
    #[cfg(kani)]
    mod vk {
        use super::*;
        fn run(lane: u32, f: impl FnOnce()) -> u32 {
            let a = AtomicU32::new(kani::any());
            register(a.as_ptr());
            unsafe { model::LANE = lane };
            f();
            unregister(a.as_ptr());
            a.raw()
        }
        #[kani::proof]
        fn interference() {
            let which: u8 = kani::any();
            kani::cover!(which == 0);
            kani::cover!(which == 6);
            match which {
                0 => assert!(run(0xff, || set_gc()) & 0xff != 0),
                1 => assert!(run(0xff, || clear_gc()) & 0xff == 0),
                2 => assert!(run(0xff00, || set_preempt()) & 0xff00 != 0),
                3 => assert!(run(0xff_0000, || set_signal_from_handler()) & 0xff_0000 != 0),
                4 => assert!(run(0xff_0000, || clear_signal()) & 0xff_0000 == 0),
                5 => {
                    run(0, || {
                        gc_requested();
                    });
                }
                _ => {
                    run(0xff00, || {
                        consume_preempt();
                    });
                }
            }
        }
    }
}
