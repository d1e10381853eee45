#![allow(dead_code)]
// ---- stand-ins ------------------------------------------------------------------------------------
pub struct MonorubyErr;
impl MonorubyErr {
    pub fn argumenterr(_: &str) -> MonorubyErr {
        MonorubyErr
    }
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
/// the two fields the sliced functions use
pub struct MarshalReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
// ---- sliced from the repository -------------------------------------------------------------------
//@fns monoruby/src/builtins/marshal.rs impl<'a> MarshalReader<'a> :: read_byte read_bytes read_fixnum
//@item monoruby/src/builtins/marshal.rs fn marshal_write_fixnum

#[cfg(kani)]
mod vk {
    use super::*;
    /// what the bytes denote (any integer), or None when they are cut short
    fn denoted(d: &[u8]) -> Option<(i64, usize)> {
        if d.is_empty() {
            return None;
        }
        let b = d[0] as i8 as i64;
        if b == 0 {
            Some((0, 1))
        } else if b > 4 {
            Some((b - 5, 1))
        } else if b < -4 {
            Some((b + 5, 1))
        } else {
            let n = b.unsigned_abs() as usize;
            if d.len() < n + 1 {
                return None;
            }
            let mut x: i64 = if b > 0 { 0 } else { -1 << (8 * n) };
            let mut i = 0;
            while i < n {
                x |= (d[1 + i] as i64) << (8 * i);
                i += 1;
            }
            Some((x, n + 1))
        }
    }
    /// every integer is written in its shortest form and read back, consuming exactly its bytes
    #[kani::proof]
    #[kani::unwind(8)]
    fn round_trip() {
        let n: i32 = kani::any();
        let mut buf: Vec<u8> = Vec::new();
        let before: u8 = kani::any();
        buf.push(before);
        marshal_write_fixnum(&mut buf, n);
        let len = buf.len() - 1;
        assert!(buf[0] == before);
        let m = n as i64;
        let want = if m >= -123 && m <= 122 {
            1
        } else if m >= -0x100 && m <= 0xff {
            2
        } else if m >= -0x10000 && m <= 0xffff {
            3
        } else if m >= -0x1000000 && m <= 0xffffff {
            4
        } else {
            5
        };
        assert!(len == want);
        buf.push(kani::any());
        let mut r = MarshalReader { data: &buf, pos: 1 };
        match r.read_fixnum() {
            Ok(v) => assert!(v == n),
            Err(_) => assert!(false),
        }
        assert!(r.pos == 1 + len);
        kani::cover!(n == i32::MIN);
        kani::cover!(n == 70000);
    }
    /// every byte string: the integer it denotes or a refusal, never a read outside
    #[kani::proof]
    #[kani::unwind(8)]
    fn arbitrary_bytes() {
        let d: [u8; 7] = kani::any();
        let len: usize = kani::any();
        let pos: usize = kani::any();
        kani::assume(len <= 7 && pos <= len);
        let mut r = MarshalReader { data: &d[..len], pos };
        let got = r.read_fixnum();
        match denoted(&d[pos..len]) {
            Some((v, n)) => match got {
                Ok(x) => assert!(x as i64 == v && r.pos == pos + n),
                Err(_) => assert!(v < i32::MIN as i64 || v > i32::MAX as i64),
            },
            None => assert!(got.is_err()),
        }
        assert!(r.pos <= len);
        kani::cover!(pos == 2 && r.pos == 7);
        kani::cover!(pos == 4 && len == 6 && r.pos < 7);
    }
    /// every byte count, also negative counts converted from i32
    #[kani::proof]
    #[kani::unwind(8)]
    fn byte_counts() {
        let d: [u8; 6] = kani::any();
        let len: usize = kani::any();
        let pos: usize = kani::any();
        let n: usize = kani::any();
        kani::assume(len <= 6 && pos <= len);
        let mut r = MarshalReader { data: &d[..len], pos };
        let got = r.read_bytes(n);
        match got {
            Ok(s) => {
                assert!(n <= len - pos && s.len() == n);
                let i: usize = kani::any();
                if i < n {
                    assert!(s[i] == d[pos + i]);
                }
                assert!(r.pos == pos + n);
            }
            Err(_) => assert!(n > len - pos && r.pos == pos),
        }
        kani::cover!(n == usize::MAX);
        kani::cover!(n == 3 && pos == 1);
    }
}
