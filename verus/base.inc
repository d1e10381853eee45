@verbatim
/// exec assertions of the source: asserting is an obligation, panicking is unreachable
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// number of elements of the range a..b
pub fn vspan(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b - a } else { 0int } { if a <= b { b - a } else { 0 } }
@end
