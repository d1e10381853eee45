#![allow(dead_code, unused_imports, non_snake_case, unused_mut)]
use std::ops::Deref;
// ---- stand-ins for what the sliced functions mention but the property does not concern -------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(pub u32);
pub const INTEGER_CLASS: ClassId = ClassId(1);
pub const FLOAT_CLASS: ClassId = ClassId(2);
pub const SYMBOL_CLASS: ClassId = ClassId(3);
pub const NIL_CLASS: ClassId = ClassId(4);
pub const TRUE_CLASS: ClassId = ClassId(5);
pub const FALSE_CLASS: ClassId = ClassId(6);
pub const BOOL_CLASS: ClassId = ClassId(7);
#[derive(Clone, Copy, PartialEq)]
pub struct BigInt(pub i128);
impl From<i64> for BigInt {
    fn from(i: i64) -> Self {
        BigInt(i as i128)
    }
}
impl From<u64> for BigInt {
    fn from(i: u64) -> Self {
        BigInt(i as i128)
    }
}
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq)]
pub struct RValue {
    pub big: i128,
    pub float: f64,
    pub kind: u8,
}
static mut HEAP: RValue = RValue { big: 0, float: 0.0, kind: 0 };
impl RValue {
    pub fn new_bigint(b: BigInt) -> RValue {
        RValue { big: b.0, float: 0.0, kind: 1 }
    }
    pub fn new_float(f: f64) -> RValue {
        RValue { big: 0, float: f, kind: 2 }
    }
    pub fn pack(self) -> Value {
        unsafe {
            HEAP = self;
            Value(std::num::NonZeroU64::new(std::ptr::addr_of!(HEAP) as u64).unwrap())
        }
    }
    pub fn class(&self) -> ClassId {
        ClassId(100)
    }
    pub fn unpack(&self) -> RV<'_> {
        RV::Object(self)
    }
}
pub struct Nothing;
// ---- sliced from the repository -------------------------------------------------------------------
pub use std::num::NonZeroU32;
//@item monoruby/src/id_table.rs struct IdentId
//@impl monoruby/src/id_table.rs impl From<u32> for IdentId
//@fns monoruby/src/id_table.rs impl IdentId :: get
//@item monoruby/src/value.rs const NIL_VALUE
//@item monoruby/src/value.rs const FALSE_VALUE
//@item monoruby/src/value.rs const TRUE_VALUE
//@item monoruby/src/value.rs const TAG_SYMBOL
//@item monoruby/src/value.rs const FLOAT_ZERO
//@item monoruby/src/value.rs struct Value
//@item monoruby/src/value.rs struct Immediate
//@item monoruby/src/value.rs struct Fixnum
//@item monoruby/src/value.rs struct Flonum
//@item monoruby/src/value.rs struct RubySymbol
//@impl monoruby/src/value.rs impl From<Immediate> for Value
//@impl monoruby/src/value.rs impl Deref for Immediate
//@impl monoruby/src/value.rs impl From<Fixnum> for Immediate
//@impl monoruby/src/value.rs impl From<Fixnum> for Value
//@impl monoruby/src/value.rs impl From<Flonum> for Immediate
//@impl monoruby/src/value.rs impl From<Flonum> for Value
//@impl monoruby/src/value.rs impl Fixnum
//@impl monoruby/src/value.rs impl Flonum
//@impl monoruby/src/value.rs impl RubySymbol
//@fns monoruby/src/value.rs impl Immediate :: from_u64 from_u64_unchecked nil bool fixnum symbol flonum check_fixnum try_fixnum
//@fns monoruby/src/value.rs impl Value :: from_u64 id as_bool nil bool symbol fixnum flonum is_i63 check_fixnum i32 integer integer_from_u64 float is_nil is_packed_value is_immediate try_rvalue is_fixnum try_fixnum is_flonum try_flonum is_symbol as_symbol try_symbol class class_for_ic unpack
//@optsub Value::bigint(BigInt::from(num)) ==> RValue::new_bigint(BigInt::from(num)).pack()
pub enum RV<'a> {
    Invalid,
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Symbol(IdentId),
    Object(&'a RValue),
}

#[cfg(kani)]
mod vk {
    use super::*;
    fn kind(v: Value) -> u8 {
        // classification through the predicates; exactly one must hold
        let f = v.is_fixnum();
        let d = v.is_flonum();
        let s = v.is_symbol() && !f && !d;
        let n = v.is_nil();
        let t = v.id() == TRUE_VALUE;
        let z = v.id() == FALSE_VALUE;
        let h = !v.is_packed_value();
        assert!(f as u8 + d as u8 + s as u8 + n as u8 + t as u8 + z as u8 + h as u8 <= 1);
        if f { 1 } else if d { 2 } else if s { 3 } else if n { 4 } else if t { 5 } else if z { 6 } else if h { 7 } else { 0 }
    }
    fn any_value() -> Value {
        let u: u64 = kani::any();
        kani::assume(u != 0);
        Value::from_u64(u)
    }
    fn ident() -> IdentId {
        let u: u32 = kani::any();
        kani::assume(u != 0);
        IdentId::from(u)
    }
    /// every integer: packed exactly when it fits 63 bits, unpacks to itself, heap otherwise
    #[kani::proof]
    fn integers() {
        let i: i64 = kani::any();
        let fits = i >= -(1 << 62) && i < (1 << 62);
        assert!(Value::is_i63(i) == fits);
        let v = Value::integer(i);
        if fits {
            assert!(kind(v) == 1 && v.try_fixnum() == Some(i));
            assert!(v.class() == INTEGER_CLASS && v.class_for_ic() == INTEGER_CLASS);
            assert!(Value::check_fixnum(i) == Some(v));
            assert!(Immediate::check_fixnum(i).map(|x| x.into()) == Some(v));
            let f = Immediate::check_fixnum(i).unwrap().try_fixnum().unwrap();
            assert!(f.get() == i);
            assert!(Value::from(f) == v && Value::from(Immediate::from(f)) == v);
        } else {
            assert!(kind(v) == 7);
            assert!(Value::check_fixnum(i).is_none() && Immediate::check_fixnum(i).is_none());
            unsafe { assert!(HEAP.kind == 1 && HEAP.big == i as i128) };
        }
        let n: i32 = kani::any();
        assert!(Value::i32(n).try_fixnum() == Some(n as i64));
        kani::cover!(fits && i < 0);
        kani::cover!(!fits && i < 0);
    }
    #[kani::proof]
    fn unsigned_integers() {
        let i: u64 = kani::any();
        let v = Value::integer_from_u64(i);
        if i < 1 << 62 {
            assert!(v.try_fixnum() == Some(i as i64));
        } else {
            assert!(kind(v) == 7);
            unsafe { assert!(HEAP.kind == 1 && HEAP.big == i as i128) };
        }
        kani::cover!(i > 1 << 63);
        kani::cover!(i < 1 << 62);
    }
    /// every float bit pattern: packed or heap, and bit-for-bit what was put in
    #[kani::proof]
    fn floats() {
        let b: u64 = kani::any();
        let f = f64::from_bits(b);
        match Value::flonum(f) {
            Some(v) => {
                assert!(kind(v) == 2);
                assert!(v.try_flonum().unwrap().to_bits() == b);
                assert!(v.class() == FLOAT_CLASS);
                assert!(Value::float(f) == v);
                assert!(v.try_fixnum().is_none() && v.try_symbol().is_none());
            }
            None => {
                let v = Value::float(f);
                assert!(kind(v) == 7);
                unsafe { assert!(HEAP.kind == 2 && HEAP.float.to_bits() == b) };
            }
        }
        // what the interpreter relies on being immediate: ordinary magnitudes and positive zero
        let e = (b >> 52) & 0x7ff;
        if e > 0x301 && e < 0x4ff || b == 0 {
            assert!(Value::flonum(f).is_some());
        }
        kani::cover!(b == 0);
        kani::cover!(f.is_nan());
        kani::cover!(Value::flonum(f).is_some() && b >> 63 == 1);
    }
    /// different values give different words
    #[kani::proof]
    fn injective() {
        let (a, b): (u64, u64) = (kani::any(), kani::any());
        kani::assume(a != b);
        if let (Some(x), Some(y)) = (Value::flonum(f64::from_bits(a)), Value::flonum(f64::from_bits(b))) {
            assert!(x != y);
        }
        if let (Some(x), Some(y)) = (Value::check_fixnum(a as i64), Value::check_fixnum(b as i64)) {
            assert!(x != y);
        }
        let (s, t) = (ident(), ident());
        if s != t {
            assert!(Value::symbol(s) != Value::symbol(t));
        }
        kani::cover!(Value::flonum(f64::from_bits(a)).is_some() && Value::flonum(f64::from_bits(b)).is_some());
    }
    #[kani::proof]
    fn symbols() {
        let s = ident();
        let v = Value::symbol(s);
        assert!(kind(v) == 3);
        assert!(v.try_symbol() == Some(s) && v.as_symbol() == s);
        assert!(v.class() == SYMBOL_CLASS);
        assert!(Value::from(Immediate::symbol(s)) == v);
        assert!(RubySymbol::new(s).0 == v.0);
        assert!(v.as_bool());
        kani::cover!(s.get() == u32::MAX);
    }
    #[kani::proof]
    fn constants() {
        let (n, t, f) = (Value::nil(), Value::bool(true), Value::bool(false));
        assert!(kind(n) == 4 && kind(t) == 5 && kind(f) == 6);
        assert!(n.class() == NIL_CLASS && t.class() == TRUE_CLASS && f.class() == FALSE_CLASS);
        assert!(t.class_for_ic() == BOOL_CLASS && f.class_for_ic() == BOOL_CLASS && n.class_for_ic() == NIL_CLASS);
        assert!(!n.as_bool() && t.as_bool() && !f.as_bool());
        assert!(matches!(n.unpack(), RV::Nil) && matches!(t.unpack(), RV::Bool(true)) && matches!(f.unpack(), RV::Bool(false)));
        kani::cover!(true);
    }
    /// every word falls in at most one class, and truth is everything but nil and false
    #[kani::proof]
    fn words() {
        let v = any_value();
        let k = kind(v);
        kani::cover!(k == 1);
        kani::cover!(k == 2);
        kani::cover!(k == 3 && v.id() & 0xffff_ff00 == 0);
        kani::cover!(k == 7);
        assert!(v.as_bool() == !(k == 4 || k == 6));
        assert!(v.is_immediate().is_some() == v.is_packed_value());
        if let Some(i) = v.is_immediate() {
            assert!(Value::from(i) == v);
        }
        match k {
            1 => {
                assert!(Value::integer(v.try_fixnum().unwrap()) == v);
                assert!(matches!(v.unpack(), RV::Fixnum(i) if Some(i) == v.try_fixnum()));
            }
            2 => {
                assert!(Value::flonum(v.try_flonum().unwrap()) == Some(v));
                assert!(matches!(v.unpack(), RV::Float(f) if f.to_bits() == v.try_flonum().unwrap().to_bits()));
            }
            3 => {
                if v.id() & 0xffff_ff00 == 0 && v.id() >> 32 != 0 {
                    assert!(Value::symbol(v.try_symbol().unwrap()) == v);
                    assert!(matches!(v.unpack(), RV::Symbol(s) if Some(s) == v.try_symbol()));
                }
            }
            7 => assert!(v.id() & 7 == 0 && v.try_fixnum().is_none() && v.try_flonum().is_none()),
            _ => {}
        }
    }
}
