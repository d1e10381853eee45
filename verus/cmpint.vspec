// What a comparison block's answer means: cmpint of monoruby/src/executor/op/sort.rs
@include base.inc
@file monoruby/src/executor/op/sort.rs
@verbatim
pub enum Sign { Minus, NoSign, Plus }
/// the kinds of value that are told apart
pub enum Sort { Nil, Fixnum(i64), Bignum(Sign), Other }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Value { v: u64 }
#[verifier::external_body]
pub struct MonorubyErr { e: u64 }
pub type Result<T> = core::result::Result<T, MonorubyErr>;
pub struct Store;
pub struct Globals { pub store: Store }
pub struct Executor;
pub struct Big { pub sign: Sign }
impl Big {
    pub fn sign(&self) -> (r: &Sign) ensures *r == self.sign { &self.sign }
}
pub enum RV { BigInt(Big), Other }
pub uninterp spec fn sort(v: Value) -> Sort;
pub uninterp spec fn number(n: i64) -> Value;
/// the error that names two operands
pub uninterp spec fn failed(a: Value, b: Value) -> MonorubyErr;
/// the answer of `v <=> 0`, and what that is as an integer
pub uninterp spec fn against_zero(v: Value) -> Result<Value>;
pub uninterp spec fn as_int(v: Value) -> Result<i64>;
impl Value {
    #[verifier::external_body]
    pub fn is_nil(self) -> (r: bool) ensures r == (sort(self) is Nil) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_fixnum(self) -> (r: Option<i64>) ensures r == match sort(self) { Sort::Fixnum(i) => Some(i), _ => None } { unimplemented!() }
    #[verifier::external_body]
    pub fn unpack(self) -> (r: RV) ensures match sort(self) { Sort::Bignum(s) => r is BigInt && r->BigInt_0.sign == s, _ => r is Other } { unimplemented!() }
    #[verifier::external_body]
    pub fn integer(n: i64) -> (r: Value) ensures r == number(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn coerce_to_int_i64(self, vm: &mut Executor, globals: &mut Globals) -> (r: Result<i64>) ensures r == as_int(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn cmperr(store: &Store, a: Value, b: Value) -> (r: MonorubyErr) ensures r == failed(a, b) { unimplemented!() }
pub open spec fn way(n: int) -> core::cmp::Ordering { if n < 0 { core::cmp::Ordering::Less } else if n == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub fn to_zero(n: i64) -> (r: core::cmp::Ordering) ensures r == way(n as int) { if n < 0 { core::cmp::Ordering::Less } else if n == 0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub open spec fn meant(res: Value, lhs: Value, rhs: Value) -> Result<core::cmp::Ordering> {
    match sort(res) {
        Sort::Nil => Err(failed(lhs, rhs)),
        Sort::Fixnum(i) => Ok(way(i as int)),
        Sort::Bignum(s) => Ok(match s { Sign::Minus => way(-1), Sign::NoSign => way(0), Sign::Plus => way(1) }),
        Sort::Other => match against_zero(res) {
            Err(e) => Err(e),
            Ok(c) => if sort(c) is Nil { Err(failed(res, number(0))) } else { match as_int(c) { Err(e) => Err(e), Ok(i) => Ok(way(i as int)) } },
        },
    }
}
@end
@impl impl Executor
@verbatim
    #[verifier::external_body]
    pub fn ask(&mut self, globals: &mut Globals, v: Value, zero: Value) -> (r: Result<Value>) requires zero == number(0) ensures r == against_zero(v) { unimplemented!() }
@end
@fn cmpint
    ensures r == meant(res, lhs, rhs)
@sub self . invoke_method_inner ( globals , IdentId :: _CMP , $v , & [ $z ] , None , None ) ==> self.ask(globals, $v, $z)
@sub i . cmp ( & 0 ) ==> to_zero(i)
@sub num :: bigint :: Sign ==> Sign
@sub std :: cmp :: Ordering ==> core::cmp::Ordering
@endimpl
