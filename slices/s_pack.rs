//! C21: the text and integer codecs of pack/unpack, over stand-in values.
#![allow(dead_code, unused_imports)]
use vharness::drv::{self, Gen, Plan};

// ---- stand-ins ------------------------------------------------------------------------------------
pub struct MonorubyErr;
impl MonorubyErr {
    pub fn argumenterr(_: &str) -> MonorubyErr {
        MonorubyErr
    }
}
pub type Result<T, E = MonorubyErr> = std::result::Result<T, E>;
/// integers as the interpreter hands them out: small or big
#[derive(PartialEq, Eq, Debug)]
pub struct Value(pub i128);
impl Value {
    pub fn integer(i: i64) -> Value {
        Value(i as i128)
    }
    pub fn integer_from_u64(i: u64) -> Value {
        Value(i as i128)
    }
    pub fn bigint(b: num::BigInt) -> Value {
        Value(b.0 as i128)
    }
}
/// big integers of up to 127 bits
pub mod num {
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct BigInt(pub u128);
    pub trait ToPrimitive {
        fn to_u8(&self) -> Option<u8>;
    }
    pub trait Zero {
        fn is_zero(&self) -> bool;
    }
    impl ToPrimitive for BigInt {
        fn to_u8(&self) -> Option<u8> {
            if self.0 < 256 { Some(self.0 as u8) } else { None }
        }
    }
    impl Zero for BigInt {
        fn is_zero(&self) -> bool {
            self.0 == 0
        }
    }
    impl From<u8> for BigInt {
        fn from(x: u8) -> BigInt {
            BigInt(x as u128)
        }
    }
    impl From<u64> for BigInt {
        fn from(x: u64) -> BigInt {
            BigInt(x as u128)
        }
    }
    impl std::ops::BitAnd<&BigInt> for &BigInt {
        type Output = BigInt;
        fn bitand(self, o: &BigInt) -> BigInt {
            BigInt(self.0 & o.0)
        }
    }
    impl std::ops::BitOr<BigInt> for BigInt {
        type Output = BigInt;
        fn bitor(self, o: BigInt) -> BigInt {
            BigInt(self.0 | o.0)
        }
    }
    impl std::ops::Shl<u32> for BigInt {
        type Output = BigInt;
        fn shl(self, n: u32) -> BigInt {
            assert!(self.0 >> (127 - n) == 0, "the stand-in integer is too narrow");
            BigInt(self.0 << n)
        }
    }
    impl std::ops::ShrAssign<u32> for BigInt {
        fn shr_assign(&mut self, n: u32) {
            self.0 >>= n;
        }
    }
}
// ---- sliced from the repository -------------------------------------------------------------------
//@item monoruby/src/value/rvalue/string/pack.rs struct ByteIter
//@fns monoruby/src/value/rvalue/string/pack.rs impl<'a> ByteIter<'a> :: new next is_empty remaining advance take back
//@item monoruby/src/value/rvalue/string/pack.rs const BASE64_CHARS
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_decode_char
//@item monoruby/src/value/rvalue/string/pack.rs fn base64_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn hex_val
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_char
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn qp_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn qp_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn uu_decode_char
//@item monoruby/src/value/rvalue/string/pack.rs fn encode_uleb128
//@item monoruby/src/value/rvalue/string/pack.rs fn encode_sleb128
//@item monoruby/src/value/rvalue/string/pack.rs enum UlebOutcome
//@item monoruby/src/value/rvalue/string/pack.rs fn unpack_uleb128
//@item monoruby/src/value/rvalue/string/pack.rs enum SlebOutcome
//@item monoruby/src/value/rvalue/string/pack.rs fn unpack_sleb128
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_encode_bigint
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_encode
//@item monoruby/src/value/rvalue/string/pack.rs fn ber_decode
//@item monoruby/src/value/rvalue/string/pack.rs fn utf8_encode_one
//@item monoruby/src/value/rvalue/string/pack.rs fn utf8_decode_one


// ---- the formats, written out ------------------------------------------------------------------------
fn six(data: &[u8], i: usize) -> u8 {
    // the i-th group of six bits, zero bits past the end
    let bit = |k: usize| if k / 8 < data.len() { (data[k / 8] >> (7 - k % 8)) & 1 } else { 0 };
    (0..6).fold(0, |a, j| (a << 1) | bit(6 * i + j))
}
fn b64(data: &[u8], line: usize) -> Vec<u8> {
    let abc: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain([b'+', b'/']).collect();
    let enc = |d: &[u8]| -> Vec<u8> {
        let n = d.len().div_ceil(3) * 4;
        let used = (d.len() * 8).div_ceil(6);
        (0..n).map(|i| if i < used { abc[six(d, i) as usize] } else { b'=' }).collect()
    };
    if line < 3 {
        return enc(data);
    }
    data.chunks(line / 3 * 3).flat_map(|l| [enc(l), vec![b'\n']].concat()).collect()
}
fn uu(data: &[u8], line: usize) -> Vec<u8> {
    let per = if line == 0 { 45 } else { line.min(63) / 3 * 3 };
    let mut out = vec![];
    for l in data.chunks(per) {
        out.push(b' ' + l.len() as u8);
        for i in 0..l.len().div_ceil(3) * 4 {
            let v = six(l, i);
            out.push(if v == 0 { b'`' } else { b' ' + v });
        }
        out.push(b'\n');
    }
    out
}
fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {exp:?}")) }
}
fn check_text(d: &[u8], line: usize) -> Result<(), String> {
    let e = base64_encode(d, if line == 1 || line == 2 { 45 } else { line });
    want("base64_encode", e.as_bytes(), &b64(d, if line == 1 || line == 2 { 45 } else { line })[..])?;
    want("base64_decode of the encoded form", base64_decode(e.as_bytes()), d.to_vec())?;
    let e = uu_encode(d, if line == 1 || line == 2 { 45 } else { line });
    want("uu_encode", e.as_bytes(), &uu(d, if line == 1 || line == 2 { 45 } else { line })[..])?;
    want("uu_decode of the encoded form", uu_decode(e.as_bytes()), d.to_vec())?;
    // quoted-printable
    let e = qp_encode(d, line);
    want("qp_decode of the encoded form", qp_decode(e.as_bytes()), d.to_vec())?;
    let limit = if line > 1 { line } else { 72 };
    if d.is_empty() {
        return want("qp_encode of nothing", e, String::new());
    }
    if !e.ends_with('\n') {
        return Err(format!("qp_encode({d:?}) does not end a line: {e:?}"));
    }
    for l in e.trim_end_matches('\n').split('\n') {
        let body = l.strip_suffix('=').unwrap_or(l);
        if body.len() > limit + 3 {
            return Err(format!("quoted-printable line of {} for limit {limit}: {l:?}", body.len()));
        }
        if l.ends_with(' ') || l.ends_with('\t') {
            return Err(format!("quoted-printable line ends in white space: {l:?}"));
        }
        let b = body.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'=' {
                let h = |c: u8| c.is_ascii_digit() || (b'A'..=b'F').contains(&c);
                if i + 2 >= b.len() || !h(b[i + 1]) || !h(b[i + 2]) {
                    return Err(format!("bad escape in quoted-printable line {l:?}"));
                }
                i += 3;
            } else if b[i] == b'\t' || (b' '..=b'~').contains(&b[i]) {
                i += 1;
            } else {
                return Err(format!("byte {} in quoted-printable line {l:?}", b[i]));
            }
        }
    }
    Ok(())
}
const LINES: [usize; 12] = [45, 0, 1, 2, 3, 4, 5, 6, 48, 63, 64, 72];
fn text_short(g: &mut Gen) -> Result<(), String> {
    let n = g.choose(3) as usize;
    let d: Vec<u8> = (0..n).map(|_| g.choose(256) as u8).collect();
    g.log(|| format!("{d:?}"));
    check_text(&d, 45)
}
fn any_bytes(g: &mut Gen, max: usize) -> Vec<u8> {
    let n = g.upto(max);
    let kind = g.choose(4);
    (0..n)
        .map(|_| match kind {
            0 => g.choose(256) as u8,
            1 => g.pick(&[b' ', b'\t', b'\n', b'\r', b'=', b'a', 0, 255]),
            2 => 32 + g.choose(95) as u8,
            _ => g.pick(&[0u8, 0xff, 0x80, 1]),
        })
        .collect()
}
fn text_long(g: &mut Gen) -> Result<(), String> {
    let line = if g.flag() { g.pick(&LINES) } else { g.choose(100) as usize };
    let d = any_bytes(g, g.max_ops);
    g.log(|| format!("line length {line}, {d:?}"));
    check_text(&d, line)
}
/// arbitrary input is decoded without going outside it
fn junk(g: &mut Gen) -> Result<(), String> {
    let n = g.upto(g.max_ops);
    let kind = g.choose(5);
    let d: Vec<u8> = (0..n)
        .map(|_| match kind {
            0 => g.choose(256) as u8,
            1 => g.pick(b"AZaz09+/==\n "),
            2 => g.pick(b"=\r\n0AFafg"),
            3 => g.pick(b" !#`_M\n\x7f\xff"),
            _ => g.pick(&[0x80u8, 0xff, 0x7f, 0, 0xc3, 0xe3, 0xf0, 0xf8, 0xfc, 0xfe]),
        })
        .collect();
    g.log(|| format!("{d:?}"));
    let letters = d.iter().filter(|c| c.is_ascii_alphanumeric() || b"+/=".contains(c)).count();
    let r = base64_decode(&d);
    if r.len() > letters / 4 * 3 {
        return Err(format!("base64_decode gave {} bytes from {letters} letters", r.len()));
    }
    if qp_decode(&d).len() > d.len() {
        return Err("qp_decode grew its input".into());
    }
    if uu_decode(&d).len() > d.len() {
        return Err("uu_decode grew its input".into());
    }
    for f in 0..4 {
        let mut it = ByteIter::new(&d);
        while !it.is_empty() {
            let i = it.i;
            match f {
                0 => drop(matches!(unpack_uleb128(&mut it), UlebOutcome::End)),
                1 => drop(matches!(unpack_sleb128(&mut it), SlebOutcome::End)),
                2 => drop(utf8_decode_one(&mut it).is_ok()),
                _ => {
                    if d[i..].iter().take_while(|b| **b & 0x80 != 0).count() > 15 {
                        break;
                    }
                    drop(ber_decode(&mut it).is_ok())
                }
            }
            if it.i <= i || it.i > d.len() {
                return Err(format!("reader {f} moved from {i} to {} of {}", it.i, d.len()));
            }
        }
    }
    Ok(())
}
fn numbers(g: &mut Gen) -> Result<(), String> {
    let sh = g.choose(64);
    let v = (((g.choose(1 << 16) as u64) << 48) | ((g.choose(1 << 16) as u64) << 32) | ((g.choose(1 << 16) as u64) << 16) | g.choose(1 << 16) as u64) >> sh;
    let v = if g.flag() { v } else { (1u64 << sh).wrapping_sub(g.choose(3) as u64).wrapping_add(1) };
    g.log(|| format!("{v}"));
    let mut buf = vec![];
    encode_uleb128(&mut buf, v);
    encode_sleb128(&mut buf, v as i64);
    ber_encode(&mut buf, v);
    utf8_encode_one(&mut buf, v as u32);
    let wide = ((v as u128) << 50) | 12345;
    ber_encode_bigint(&mut buf, &num::BigInt(wide));
    ber_encode_bigint(&mut buf, &num::BigInt(v as u128));
    let mut it = ByteIter::new(&buf);
    match unpack_uleb128(&mut it) {
        UlebOutcome::Value(w) => want("uleb128", w, v)?,
        _ => return Err(format!("uleb128 of {v} not read back")),
    }
    match unpack_sleb128(&mut it) {
        SlebOutcome::Value(w) => want("sleb128", w, v as i64)?,
        _ => return Err(format!("sleb128 of {} not read back", v as i64)),
    }
    want("ber", ber_decode(&mut it).ok(), Some(Value(v as i128)))?;
    want("utf8", utf8_decode_one(&mut it).ok(), Some(v as u32))?;
    want("ber of a big integer", ber_decode(&mut it).ok(), Some(Value(wide as i128)))?;
    want("ber of a big integer", ber_decode(&mut it).ok(), Some(Value(v as i128)))?;
    want("end", it.i, buf.len())
}
fn main() {
    drv::main_with(&[
        Plan { name: "C21_short", f: text_short, exhaustive: Some((1, 70000)), random: &[] },
        Plan { name: "C21_long", f: text_long, exhaustive: None, random: &[(12, 40000), (200, 10000)] },
        Plan { name: "C21_junk", f: junk, exhaustive: None, random: &[(12, 60000), (60, 5000)] },
        Plan { name: "C21_numbers", f: numbers, exhaustive: None, random: &[(1, 60000)] },
    ]);
}
