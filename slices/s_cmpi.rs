//! C24: what a comparison block's answer means, monoruby/src/executor/op/sort.rs.
#![allow(dead_code, unused_imports)]
use vharness::drv::{self, Gen, Plan};
// ---- stand-ins ------------------------------------------------------------------------------------------
mod num {
    pub mod bigint {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
        pub enum Sign {
            Minus,
            NoSign,
            Plus,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Value {
    Nil,
    Fix(i64),
    Big(num::bigint::Sign),
    /// an object, the answer of its <=>, and what the answer's to_int gives
    Obj(u8, u8, i64),
    /// the answer of a <=>
    Ans(u8, i64),
}
pub struct Big(num::bigint::Sign);
impl Big {
    pub fn sign(&self) -> num::bigint::Sign {
        self.0
    }
}
pub enum RV {
    BigInt(Big),
    Fixnum(i64),
    Nil,
    Object,
}
#[derive(Debug, PartialEq)]
pub enum MonorubyErr {
    Failed(Value, Value),
    Raised(u8),
}
pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub struct Store;
pub struct Globals {
    store: Store,
}
pub struct IdentId;
impl IdentId {
    pub const _CMP: u32 = 7;
}
pub struct Executor(u32);
fn cmperr(_: &Store, a: Value, b: Value) -> MonorubyErr {
    MonorubyErr::Failed(a, b)
}
impl Value {
    fn is_nil(&self) -> bool {
        matches!(self, Value::Nil)
    }
    fn try_fixnum(&self) -> Option<i64> {
        if let Value::Fix(i) = self { Some(*i) } else { None }
    }
    fn unpack(&self) -> RV {
        match self {
            Value::Big(s) => RV::BigInt(Big(*s)),
            Value::Fix(i) => RV::Fixnum(*i),
            Value::Nil => RV::Nil,
            _ => RV::Object,
        }
    }
    fn integer(n: i64) -> Value {
        Value::Fix(n)
    }
    fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
        match self {
            Value::Fix(i) => Ok(*i),
            Value::Ans(1, i) => Ok(*i),
            _ => Err(MonorubyErr::Raised(2)),
        }
    }
}
impl Executor {
    fn invoke_method_inner(&mut self, _: &mut Globals, m: u32, v: Value, args: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
        self.0 += 1;
        match v {
            Value::Obj(k, c, i) if m == IdentId::_CMP && args == [Value::Fix(0)] => match k {
                0 => Ok(Value::Fix(i)),
                1 => Ok(Value::Nil),
                2 => Err(MonorubyErr::Raised(1)),
                _ => Ok(Value::Ans(c, i)),
            },
            _ => Err(MonorubyErr::Raised(3)),
        }
    }
}
// ---- sliced from the repository -------------------------------------------------------------------
//@fns monoruby/src/executor/op/sort.rs impl Executor :: cmpint
// ---- contract -----------------------------------------------------------------------------------------------
fn meaning(g: &mut Gen) -> std::result::Result<(), String> {
    use num::bigint::Sign::*;
    let n = [i64::MIN, -7, -1, 0, 1, 2, i64::MAX][g.choose(7) as usize];
    let v = match g.choose(4) {
        0 => Value::Nil,
        1 => Value::Fix(n),
        2 => Value::Big([Minus, NoSign, Plus][g.choose(3) as usize]),
        _ => Value::Obj(g.choose(4) as u8, g.choose(2) as u8, n),
    };
    let (l, r) = (Value::Fix(101), Value::Fix(102));
    let (want, asked) = match v {
        Value::Nil => (Err(MonorubyErr::Failed(l, r)), 0),
        Value::Fix(i) => (Ok(i.cmp(&0)), 0),
        Value::Big(s) => (Ok(s.cmp(&NoSign)), 0),
        Value::Obj(1, ..) => (Err(MonorubyErr::Failed(v, Value::Fix(0))), 1),
        Value::Obj(2, ..) => (Err(MonorubyErr::Raised(1)), 1),
        Value::Obj(3, 0, _) => (Err(MonorubyErr::Raised(2)), 1),
        Value::Obj(_, _, i) => (Ok(i.cmp(&0)), 1),
        Value::Ans(..) => unreachable!(),
    };
    g.log(|| format!("the block answers {v:?}"));
    let mut e = Executor(0);
    let got = e.cmpint(&mut Globals { store: Store }, v, l, r);
    if got != want || e.0 != asked {
        return Err(format!("{got:?} after {} questions, expected {want:?} after {asked}", e.0));
    }
    Ok(())
}
fn main() {
    drv::main_with(&[Plan { name: "C24_meaning", f: meaning, exhaustive: Some((1, 10000)), random: &[] }]);
}
