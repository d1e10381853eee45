#![allow(dead_code)]
// ---- stand-ins ------------------------------------------------------------------------------------
/// a generator whose next two numbers are given (that the real one produces the reference numbers is proved in verus/prng.vspec)
pub struct Mt {
    pub a: [u32; 2],
    pub n: usize,
}
impl Mt {
    pub fn next_u32(&mut self) -> u32 {
        let r = self.a[self.n];
        self.n += 1;
        r
    }
}
pub struct Prng {
    pub mt: Mt,
}
// ---- sliced from the repository -------------------------------------------------------------------
//@item monoruby/src/globals/prng.rs fn next_real
//@fns monoruby/src/globals/prng.rs impl Prng :: next_real next_real_inclusive

#[cfg(kani)]
mod vk {
    use super::*;
    /// the double with exactly this value, for v < 2^53: v / 2^53, built from its bits
    fn exact(v: u64) -> u64 {
        if v == 0 {
            return 0;
        }
        let top = 63 - v.leading_zeros() as u64;
        let exp = 1023 + top - 53;
        (exp << 52) | ((v << (52 - top)) & ((1 << 52) - 1))
    }
    /// 53 bits of two numbers, the first one on top
    #[kani::proof]
    fn real() {
        let a: [u32; 2] = kani::any();
        let mut mt = Mt { a, n: 0 };
        let mut cnt: u64 = kani::any();
        kani::assume(cnt < u64::MAX - 8);
        let c0 = cnt;
        kani::cover!(a[0] > 0xffff_0000 && a[1] > 0xffff_0000);
        kani::cover!(a[0] == 0);
        let r = next_real(&mut mt, &mut cnt);
        assert!(cnt == c0 + 2);
        assert!(mt.n == 2);
        let v = ((a[0] as u64 >> 5) << 26) | (a[1] as u64 >> 6);
        assert!(r.to_bits() == exact(v));
        assert!(r >= 0.0 && r < 1.0);
    }
    #[kani::proof]
    fn global_real() {
        let a: [u32; 2] = kani::any();
        let mut p = Prng { mt: Mt { a, n: 0 } };
        kani::cover!(a[0] > 0xffff_0000 && a[1] > 0xffff_0000);
        let r = p.next_real();
        assert!(p.mt.n == 2);
        assert!(r.to_bits() == exact(((a[0] as u64 >> 5) << 26) | (a[1] as u64 >> 6)));
    }
    /// both ends included: floor of x * (2^53 + 1) / 2^64, over 2^53
    #[kani::proof]
    fn inclusive() {
        let a: [u32; 2] = kani::any();
        let mut p = Prng { mt: Mt { a, n: 0 } };
        kani::cover!(a[0] == u32::MAX && a[1] == u32::MAX);
        kani::cover!(a[0] == 0);
        let r = p.next_real_inclusive();
        assert!(p.mt.n == 2);
        let x = ((a[0] as u64) << 32) | a[1] as u64;
        // x * 2^53 / 2^64 is x >> 11; x itself adds one exactly when the lost 11 bits plus x carry over
        let lost = (x & 0x7ff) << 53;
        let carry = lost.checked_add(x).is_none();
        let v = (x >> 11) + carry as u64;
        let want = if v == 1 << 53 { 1.0f64.to_bits() } else { exact(v) };
        assert!(r.to_bits() == want);
        assert!(r >= 0.0 && r <= 1.0);
    }
}
