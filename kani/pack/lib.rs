#![allow(dead_code)]
// ---- stand-ins ------------------------------------------------------------------------------------
pub struct MonorubyErr;
impl MonorubyErr {
    pub fn argumenterr(_: &str) -> MonorubyErr {
        MonorubyErr
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
/// integers as the interpreter hands them out: small or big
#[derive(PartialEq, Eq)]
pub struct Value(pub i128);
impl Value {
    pub fn integer(i: i64) -> Value {
        Value(i as i128)
    }
    pub fn integer_from_u64(i: u64) -> Value {
        Value(i as i128)
    }
    pub fn bigint(b: num::BigInt) -> Value {
        Value(b.0 as i128)
    }
}
/// big integers of up to 127 bits
pub mod num {
    #[derive(Clone, PartialEq, Eq)]
    pub struct BigInt(pub u128);
    pub trait ToPrimitive {
        fn to_u8(&self) -> Option<u8>;
    }
    pub trait Zero {
        fn is_zero(&self) -> bool;
    }
    impl ToPrimitive for BigInt {
        fn to_u8(&self) -> Option<u8> {
            if self.0 < 256 { Some(self.0 as u8) } else { None }
        }
    }
    impl Zero for BigInt {
        fn is_zero(&self) -> bool {
            self.0 == 0
        }
    }
    impl From<u8> for BigInt {
        fn from(x: u8) -> BigInt {
            BigInt(x as u128)
        }
    }
    impl From<u64> for BigInt {
        fn from(x: u64) -> BigInt {
            BigInt(x as u128)
        }
    }
    impl std::ops::BitAnd<&BigInt> for &BigInt {
        type Output = BigInt;
        fn bitand(self, o: &BigInt) -> BigInt {
            BigInt(self.0 & o.0)
        }
    }
    impl std::ops::BitOr<BigInt> for BigInt {
        type Output = BigInt;
        fn bitor(self, o: BigInt) -> BigInt {
            BigInt(self.0 | o.0)
        }
    }
    impl std::ops::Shl<u32> for BigInt {
        type Output = BigInt;
        fn shl(self, n: u32) -> BigInt {
            assert!(self.0 >> (127 - n) == 0, "the stand-in integer is too narrow");
            BigInt(self.0 << n)
        }
    }
    impl std::ops::ShrAssign<u32> for BigInt {
        fn shr_assign(&mut self, n: u32) {
            self.0 >>= n;
        }
    }
}
// ---- sliced from the repository -------------------------------------------------------------------
//@item monoruby/src/value/rvalue/string/pack.rs struct ByteIter
//@fns monoruby/src/value/rvalue/string/pack.rs impl<'a> ByteIter<'a> :: new next is_empty remaining advance take back
//@item monoruby/src/value/rvalue/string/pack.rs const BASE64_CHARS
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_decode_char
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn hex_val
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_char
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_decode_char
//@item monoruby/src/value/rvalue/string/pack.rs fn encode_uleb128
//@item monoruby/src/value/rvalue/string/pack.rs fn encode_sleb128
//@item monoruby/src/value/rvalue/string/pack.rs enum UlebOutcome
//@item monoruby/src/value/rvalue/string/pack.rs fn unpack_uleb128
//@item monoruby/src/value/rvalue/string/pack.rs enum SlebOutcome
//@item monoruby/src/value/rvalue/string/pack.rs fn unpack_sleb128
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_encode_bigint
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn utf8_encode_one
//@item monoruby/src/value/rvalue/string/pack.rs fn utf8_decode_one

#[cfg(kani)]
mod vk {
    use super::*;
    /// seven bits per byte, low first, as few bytes as possible
    #[kani::proof]
    #[kani::unwind(12)]
    fn uleb_round_trip() {
        let v: u64 = kani::any();
        kani::cover!(v >> 63 == 1);
        kani::cover!(v == 127);
        let mut buf = vec![0xee];
        encode_uleb128(&mut buf, v);
        let n = buf.len() - 1;
        let bits = 64 - v.leading_zeros() as usize;
        assert!(n == if v == 0 { 1 } else { (bits + 6) / 7 });
        assert!(buf[0] == 0xee);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(buf[1 + i] & 0x7f == ((v >> (7 * i)) & 0x7f) as u8);
        assert!((buf[1 + i] & 0x80 != 0) == (i + 1 < n));
        let tail: u8 = kani::any();
        buf.push(tail);
        let mut it = ByteIter { slice: &buf, i: 1 };
        match unpack_uleb128(&mut it) {
            UlebOutcome::Value(w) => assert!(w == v),
            _ => panic!("not read back"),
        }
        assert!(it.i == 1 + n);
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn sleb_round_trip() {
        let v: i64 = kani::any();
        kani::cover!(v == i64::MIN);
        kani::cover!(v == -64);
        kani::cover!(v == 64);
        let mut buf = vec![0xee];
        encode_sleb128(&mut buf, v);
        let n = buf.len() - 1;
        // the shortest two's complement: sign bit included
        let bits = 65 - (if v < 0 { !v } else { v }).leading_zeros() as usize;
        assert!(n == (bits + 6) / 7);
        assert!(buf[0] == 0xee);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(buf[1 + i] & 0x7f == ((v >> (7 * i)) & 0x7f) as u8);
        assert!((buf[1 + i] & 0x80 != 0) == (i + 1 < n));
        let tail: u8 = kani::any();
        buf.push(tail);
        let mut it = ByteIter { slice: &buf, i: 1 };
        match unpack_sleb128(&mut it) {
            SlebOutcome::Value(w) => assert!(w == v),
            _ => panic!("not read back"),
        }
        assert!(it.i == 1 + n);
    }
    /// seven bits per byte, high first
    #[kani::proof]
    #[kani::unwind(12)]
    fn ber_round_trip() {
        let v: u64 = kani::any();
        kani::cover!(v >> 63 == 1);
        kani::cover!(v == 0);
        let mut buf = vec![0xee];
        ber_encode(&mut buf, v);
        let n = buf.len() - 1;
        let bits = 64 - v.leading_zeros() as usize;
        assert!(n == if v == 0 { 1 } else { (bits + 6) / 7 });
        assert!(buf[0] == 0xee);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(buf[n - i] & 0x7f == ((v >> (7 * i)) & 0x7f) as u8);
        assert!((buf[n - i] & 0x80 != 0) == (i > 0));
        let tail: u8 = kani::any();
        buf.push(tail);
        let mut it = ByteIter { slice: &buf, i: 1 };
        match ber_decode(&mut it) {
            Ok(w) => assert!(w.0 == v as i128),
            _ => panic!("not read back"),
        }
        assert!(it.i == 1 + n);
    }
    #[kani::proof]
    #[kani::unwind(14)]
    fn ber_big_round_trip() {
        let v: u128 = kani::any();
        kani::assume(v >> 84 == 0);
        kani::cover!(v >> 83 == 1);
        kani::cover!(v >> 63 == 1);
        let mut buf = vec![0xee];
        ber_encode_bigint(&mut buf, &num::BigInt(v));
        let n = buf.len() - 1;
        let bits = 128 - v.leading_zeros() as usize;
        assert!(n == if v == 0 { 1 } else { (bits + 6) / 7 });
        let mut it = ByteIter { slice: &buf, i: 1 };
        match ber_decode(&mut it) {
            Ok(w) => assert!(w.0 == v as i128),
            _ => panic!("not read back"),
        }
        assert!(it.i == 1 + n);
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn utf8_round_trip() {
        let cp: u32 = kani::any();
        kani::cover!(cp == 0x10ffff);
        kani::cover!(cp > 0x3ff_ffff);
        let mut buf = vec![0xee];
        utf8_encode_one(&mut buf, cp);
        let n = buf.len() - 1;
        assert!(n == if cp < 0x80 { 1 } else if cp < 0x800 { 2 } else if cp < 0x1_0000 { 3 } else if cp < 0x20_0000 { 4 } else if cp < 0x400_0000 { 5 } else { 6 });
        let i: usize = kani::any();
        kani::assume(i < n);
        if i > 0 {
            assert!(buf[1 + i] == 0x80 | ((cp >> (6 * (n - 1 - i))) & 0x3f) as u8);
        } else if n == 1 {
            assert!(buf[1] == cp as u8);
        } else {
            assert!(buf[1] == (0xffu8 << (8 - n)) | (cp >> (6 * (n - 1))) as u8);
        }
        let tail: u8 = kani::any();
        buf.push(tail);
        let mut it = ByteIter { slice: &buf, i: 1 };
        match utf8_decode_one(&mut it) {
            Ok(w) => assert!(w == cp),
            _ => panic!("not read back"),
        }
        assert!(it.i == 1 + n);
    }
    fn bytes<'a>(b: &'a [u8; 12]) -> (ByteIter<'a>, usize) {
        let n: usize = kani::any();
        kani::assume(n <= 12);
        let i: usize = kani::any();
        kani::assume(i <= n);
        (ByteIter { slice: &b[..n], i }, n)
    }
    /// arbitrary bytes: nothing outside the input is read, and the reader stops right after the terminating byte
    #[kani::proof]
    #[kani::unwind(14)]
    fn any_leb() {
        let b: [u8; 12] = kani::any();
        let (mut it, n) = bytes(&b);
        let s = it.i;
        kani::cover!(s == n);
        kani::cover!(n == 12 && s == 0);
        let signed: bool = kani::any();
        let (val, end) = if signed {
            match unpack_sleb128(&mut it) {
                SlebOutcome::Value(_) => (true, false),
                SlebOutcome::Incomplete => (false, false),
                SlebOutcome::End => (false, true),
            }
        } else {
            match unpack_uleb128(&mut it) {
                UlebOutcome::Value(_) => (true, false),
                UlebOutcome::Incomplete => (false, false),
                UlebOutcome::End => (false, true),
            }
        };
        assert!(end == (s == n));
        assert!(it.i <= n && it.i >= s);
        if val {
            assert!(it.i > s && b[it.i - 1] & 0x80 == 0);
        } else {
            assert!(it.i == n);
        }
        let j: usize = kani::any();
        kani::assume(j < 12 && j >= s && j + 1 < it.i);
        assert!(b[j] & 0x80 != 0);
    }
    #[kani::proof]
    #[kani::unwind(14)]
    fn any_ber() {
        let b: [u8; 12] = kani::any();
        let (mut it, n) = bytes(&b);
        let s = it.i;
        kani::cover!(s == n);
        kani::cover!(n == 12 && s == 0);
        let ok = ber_decode(&mut it).is_ok();
        assert!(it.i <= n && it.i >= s);
        if ok {
            assert!(it.i > s && b[it.i - 1] & 0x80 == 0);
        } else {
            assert!(it.i == n);
        }
        let j: usize = kani::any();
        kani::assume(j < 12 && j >= s && j + 1 < it.i);
        assert!(b[j] & 0x80 != 0);
    }
    #[kani::proof]
    #[kani::unwind(14)]
    fn any_utf8() {
        let b: [u8; 12] = kani::any();
        let (mut it, n) = bytes(&b);
        let s = it.i;
        kani::cover!(s == n);
        kani::cover!(n == 12 && s == 0);
        let r = utf8_decode_one(&mut it);
        assert!(it.i <= n && it.i >= s && it.i <= s + 6);
        if s < n && b[s] < 0x80 {
            assert!(it.i == s + 1);
            assert!(matches!(r, Ok(c) if c == b[s] as u32));
        }
    }
    /// the letters of the alphabets and their values
    #[kani::proof]
    fn alphabets() {
        let c: u8 = kani::any();
        kani::cover!(c == b'/');
        match base64_decode_char(c) {
            Some(v) => assert!(v < 64 && BASE64_CHARS[v as usize] == c),
            None => {}
        }
        let v: u8 = kani::any();
        kani::assume(v < 64);
        assert!(BASE64_CHARS.len() == 64);
        assert!(base64_decode_char(BASE64_CHARS[v as usize]) == Some(v));
        let l = BASE64_CHARS[v as usize];
        assert!(l == if v < 26 { b'A' + v } else if v < 52 { b'a' + v - 26 } else if v < 62 { b'0' + v - 52 } else if v == 62 { b'+' } else { b'/' });
        let u = uu_char(v as u32);
        assert!(u > ' ' && u <= '`');
        assert!(uu_decode_char(u as u8) == v as u32);
        assert!(uu_decode_char(c) < 64);
        let h = hex_val(c);
        assert!(h == (c as char).to_digit(16).map(|d| d as u8));
    }
}
