// File-name matching: monoruby/src/builtins/fnmatch.rs
@include base.inc
@file monoruby/src/builtins/fnmatch.rs
@item const FNM_NOESCAPE
@item const FNM_PATHNAME
@item const FNM_DOTMATCH
@item const FNM_CASEFOLD
@item const FNM_EXTGLOB
@verbatim
// ---- std on text ----------------------------------------------------------------------------------
/// the first character of the lower-case form
pub uninterp spec fn low(c: char) -> char;
#[verifier::external_body]
pub fn lower(c: char) -> (r: char) ensures r == low(c) { c.to_lowercase().next().unwrap_or(c) }
#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn str_of(s: &[char]) -> (r: String) ensures r@ == s@ { s.iter().collect() }
/// str::split at every c
pub open spec fn cut(s: Seq<char>, c: char, i: int, cur: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { seq![cur] } else if s[i] == c { seq![cur] + cut(s, c, i + 1, seq![]) } else { cut(s, c, i + 1, cur.push(s[i])) }
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub fn split_at_char<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures texts(r@) == cut(s@, c, 0, seq![]) { s.split(c).collect() }
#[verifier::external_body]
pub fn starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn cat3(a: &String, b: &String, c: &String) -> (r: String) ensures r@ == a@ + b@ + c@ { format!("{}{}{}", a, b, c) }
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
pub fn take_str(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty() { std::mem::take(s) }
#[verifier::external_body]
pub fn empty_str() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn one_str(s: &str) -> (r: Vec<String>) ensures strs(r@) == seq![s@] { vec![s.to_string()] }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub fn add_strs(a: &mut Vec<String>, b: Vec<String>) ensures strs(final(a)@) == strs(old(a)@) + strs(b@) { a.extend(b) }
#[verifier::external_body]
pub fn split_first<'a, 'b>(s: &'a [&'b str]) -> (r: Option<(&'b str, &'a [&'b str])>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && (r->Some_0).0 == s@[0] && (r->Some_0).1@ == s@.skip(1)
{ s.split_first().map(|(a, b)| (*a, b)) }
#[verifier::external_body]
pub fn rest_from<'a, X>(s: &'a [X], i: usize) -> (r: &'a [X]) requires i <= s@.len() ensures r@ == s@.skip(i as int) { &s[i..] }
#[verifier::external_body]
pub fn part<'a, X>(s: &'a [X], i: usize, j: usize) -> (r: &'a [X]) requires i <= j <= s@.len() ensures r@ == s@.subrange(i as int, j as int) { &s[i..j] }
pub fn cget(p: &[char], i: usize) -> (r: Option<char>) ensures r == at(p@, i as int) { if i < p.len() { Some(p[i]) } else { None } }
pub open spec fn at(p: Seq<char>, i: int) -> Option<char> { if 0 <= i < p.len() { Some(p[i]) } else { None } }
pub fn is_at(p: &[char], i: usize, c: char) -> (r: bool) ensures r == (at(p@, i as int) == Some(c)) { i < p.len() && p[i] == c }
pub fn other_at(p: &[char], i: usize, c: char) -> (r: bool) ensures r == (i < p@.len() && p@[i as int] != c) { i < p.len() && p[i] != c }
pub fn opt_is(o: Option<char>, c: char) -> (r: bool) ensures r == (o == Some(c)) { match o { Some(x) => x == c, None => false } }

// ---- the rules -------------------------------------------------------------------------------------
pub open spec fn fo(c: char, cf: bool) -> char { if cf { low(c) } else { c } }
/// a member character of a bracket, with its escape taken off, and the position after it
pub open spec fn rd(p: Seq<char>, i: int, ne: bool) -> (char, int) {
    if p[i] == '\\' && !ne && i + 1 < p.len() { (p[i + 1], i + 2) } else { (p[i], i + 1) }
}
pub open spec fn is_range(p: Seq<char>, i: int, ne: bool) -> bool {
    let n = rd(p, i, ne).1;
    n + 1 < p.len() && p[n] == '-' && p[n + 1] != ']'
}
/// the position after the member (a character or a range) at i
pub open spec fn nx(p: Seq<char>, i: int, ne: bool) -> int {
    if is_range(p, i, ne) { rd(p, rd(p, i, ne).1 + 1, ne).1 } else { rd(p, i, ne).1 }
}
pub open spec fn hit(p: Seq<char>, i: int, ne: bool, cf: bool, c: char) -> bool {
    let lo = fo(rd(p, i, ne).0, cf);
    if is_range(p, i, ne) { lo as u32 <= c as u32 && c as u32 <= fo(rd(p, rd(p, i, ne).1 + 1, ne).0, cf) as u32 } else { lo == c }
}
/// the position after the closing bracket
pub open spec fn mend(p: Seq<char>, i: int, ne: bool) -> Option<int>
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { None } else if p[i] == ']' { Some(i + 1) } else { mend(p, nx(p, i, ne), ne) }
}
/// whether c is one of the members from i on
pub open spec fn mhit(p: Seq<char>, i: int, ne: bool, cf: bool, c: char) -> bool
    decreases p.len() - i
{
    if i < 0 || i >= p.len() || p[i] == ']' { false } else { hit(p, i, ne, cf, c) || mhit(p, nx(p, i, ne), ne, cf, c) }
}
pub open spec fn negated(p: Seq<char>) -> bool { p.len() > 1 && (p[1] == '!' || p[1] == '^') }
pub open spec fn first_member(p: Seq<char>) -> int { if negated(p) { 2 } else { 1 } }
/// length of the pattern element at the start of p: None if it can match nothing
pub open spec fn elen(p: Seq<char>, ne: bool) -> Option<int> {
    if p[0] == '[' { mend(p, first_member(p), ne) } else if p[0] == '\\' && !ne && p.len() > 1 { Some(2int) } else { Some(1int) }
}
/// whether that element matches the character c
pub open spec fn emat(p: Seq<char>, ne: bool, cf: bool, c: char) -> bool {
    if p[0] == '?' { true }
    else if p[0] == '[' { elen(p, ne) is Some && mhit(p, first_member(p), ne, cf, fo(c, cf)) != negated(p) }
    else if p[0] == '\\' && !ne && p.len() > 1 { fo(p[1], cf) == fo(c, cf) }
    else { fo(p[0], cf) == fo(c, cf) }
}
/// the pattern from i on matches the text from j on
pub open spec fn glob(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, i: int, j: int) -> bool
    decreases p.len() - i, s.len() + 1 - j
{
    if i < 0 || j < 0 || i > p.len() || j > s.len() { false }
    else if i == p.len() { j == s.len() }
    else if p[i] == '*' { glob(p, s, ne, cf, i + 1, j) || glob(p, s, ne, cf, i, j + 1) }
    else if j == s.len() { false }
    else { match elen(p.skip(i), ne) { None => false, Some(k) => k > 0 && i + k <= p.len() && emat(p.skip(i), ne, cf, s[j]) && glob(p, s, ne, cf, i + k, j + 1) } }
}
/// a leading period needs a period at the start of the pattern
pub open spec fn period_ok(p: Seq<char>, s: Seq<char>, ne: bool, dot: bool) -> bool {
    dot || s.len() == 0 || s[0] != '.' || (p.len() > 0 && p[0] == '.') || (!ne && p.len() > 1 && p[0] == '\\' && p[1] == '.')
}
pub open spec fn seg(p: Seq<char>, s: Seq<char>, f: u32) -> bool {
    period_ok(p, s, f & 1 != 0, f & 4 != 0) && glob(p, s, f & 1 != 0, f & 8 != 0, 0, 0)
}
pub open spec fn globstar(p: Seq<char>) -> bool { p == seq!['*', '*'] }
pub open spec fn segs(p: Seq<Seq<char>>, s: Seq<Seq<char>>, f: u32) -> bool
    decreases p.len(), s.len()
{
    if p.len() == 0 { s.len() == 0 }
    else if globstar(p[0]) && p.len() > 1 {
        segs(p.skip(1), s, f) || (s.len() > 0 && (f & 4 != 0 || !(s[0].len() > 0 && s[0][0] == '.')) && segs(p, s.skip(1), f))
    }
    else { s.len() > 0 && seg(p[0], s[0], f) && segs(p.skip(1), s.skip(1), f) }
}
pub open spec fn plain(p: Seq<char>, s: Seq<char>, f: u32) -> bool {
    if f & 2 != 0 { segs(cut(p, '/', 0, seq![]), cut(s, '/', 0, seq![]), f) } else { seg(p, s, f) }
}
pub open spec fn some(l: Seq<Seq<char>>, s: Seq<char>, f: u32) -> bool { exists|k: int| 0 <= k < l.len() && plain(#[trigger] l[k], s, f) }
pub open spec fn fnm(p: Seq<char>, s: Seq<char>, f: u32) -> bool {
    if f & 16 != 0 { some(braces(p, f & 1 != 0), s, f) } else { plain(p, s, f) }
}
// ---- alternatives ----------------------------------------------------------------------------------
pub open spec fn escaped(p: Seq<char>, i: int, ne: bool) -> bool { p[i] == '\\' && !ne && i + 1 < p.len() }
/// the first brace that opens a group
pub open spec fn opening(p: Seq<char>, i: int, ne: bool) -> int
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { p.len() as int } else if escaped(p, i, ne) { opening(p, i + 2, ne) } else if p[i] == '{' { i } else { opening(p, i + 1, ne) }
}
/// the brace that closes it, d groups being open
pub open spec fn closing(p: Seq<char>, i: int, d: int, ne: bool) -> Option<int>
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { None }
    else if escaped(p, i, ne) { closing(p, i + 2, d, ne) }
    else if p[i] == '{' { closing(p, i + 1, d + 1, ne) }
    else if p[i] == '}' { if d <= 1 { Some(i) } else { closing(p, i + 1, d - 1, ne) } }
    else { closing(p, i + 1, d, ne) }
}
pub open spec fn group(p: Seq<char>, ne: bool) -> Option<(int, int)> {
    let a = opening(p, 0, ne);
    match closing(p, a + 1, 1, ne) { None => None, Some(b) => Some((a, b)) }
}
/// the pieces between top-level commas from i on, cur being the piece so far
pub open spec fn pieces(q: Seq<char>, i: int, d: int, cur: Seq<char>, ne: bool) -> Seq<Seq<char>>
    decreases q.len() - i
{
    if i < 0 || i >= q.len() { seq![cur] }
    else if escaped(q, i, ne) { pieces(q, i + 2, d, cur.push(q[i]).push(q[i + 1]), ne) }
    else if q[i] == ',' && d == 0 { seq![cur] + pieces(q, i + 1, 0, seq![], ne) }
    else { pieces(q, i + 1, if q[i] == '{' { d + 1 } else if q[i] == '}' && d > 0 { d - 1 } else { d }, cur.push(q[i]), ne) }
}
pub open spec fn braces(p: Seq<char>, ne: bool) -> Seq<Seq<char>>
    decreases p.len(), 1nat, 0int
{
    match group(p, ne) {
        None => seq![p],
        Some((a, b)) => if 0 <= a < b < p.len() { each(p, a, b, pieces(p.subrange(a + 1, b), 0, 0, seq![], ne), 0, ne) } else { seq![] },
    }
}
pub open spec fn put(p: Seq<char>, a: int, b: int, x: Seq<char>) -> Seq<char> { p.subrange(0, a) + x + p.skip(b + 1) }
pub open spec fn each(p: Seq<char>, a: int, b: int, al: Seq<Seq<char>>, k: int, ne: bool) -> Seq<Seq<char>>
    decreases p.len(), 0nat, al.len() - k
{
    if k < 0 || k >= al.len() { seq![] }
    else { (if put(p, a, b, al[k]).len() < p.len() { braces(put(p, a, b, al[k]), ne) } else { seq![] }) + each(p, a, b, al, k + 1, ne) }
}
// ---- lemmas ----------------------------------------------------------------------------------------
pub proof fn mend_after(p: Seq<char>, i: int, ne: bool)
    ensures mend(p, i, ne) is Some ==> i < mend(p, i, ne)->0 <= p.len()
    decreases p.len() - i
{ if 0 <= i < p.len() && p[i] != ']' { mend_after(p, nx(p, i, ne), ne); } }
pub proof fn elen_ok(p: Seq<char>, ne: bool)
    requires p.len() > 0
    ensures elen(p, ne) is Some ==> 0 < elen(p, ne)->0 <= p.len()
{ mend_after(p, first_member(p), ne); }
/// m elements, none a star, lead from a to b
pub open spec fn chain(p: Seq<char>, ne: bool, a: int, b: int, m: int) -> bool
    decreases m
{
    if m <= 0 { m == 0 && a == b } else { 0 <= a < p.len() && p[a] != '*' && elen(p.skip(a), ne) is Some && chain(p, ne, a + elen(p.skip(a), ne)->0, b, m - 1) }
}
pub proof fn chain_more(p: Seq<char>, ne: bool, a: int, b: int, m: int)
    requires chain(p, ne, a, b, m), 0 <= b < p.len(), p[b] != '*', elen(p.skip(b), ne) is Some
    ensures chain(p, ne, a, b + elen(p.skip(b), ne)->0, m + 1)
    decreases m
{
    if m > 0 { chain_more(p, ne, a + elen(p.skip(a), ne)->0, b, m - 1); }
    else { assert(chain(p, ne, b + elen(p.skip(b), ne)->0, b + elen(p.skip(b), ne)->0, 0)); }
}
/// whatever the text, a match of the chain's start passes through its end
pub proof fn chain_glob(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, a: int, b: int, m: int, k: int)
    requires chain(p, ne, a, b, m), glob(p, s, ne, cf, a, k)
    ensures k + m <= s.len(), glob(p, s, ne, cf, b, k + m)
    decreases m
{ if m > 0 { chain_glob(p, s, ne, cf, a + elen(p.skip(a), ne)->0, b, m - 1, k + 1); } }
/// what follows a star matches from some position k or later
pub open spec fn later(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, i: int, k: int) -> bool { exists|j: int| k <= j <= s.len() && #[trigger] glob(p, s, ne, cf, i, j) }
pub proof fn star_later(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, i: int, j: int)
    requires 0 <= i < p.len(), p[i] == '*', 0 <= j <= s.len()
    ensures glob(p, s, ne, cf, i, j) == later(p, s, ne, cf, i + 1, j)
    decreases s.len() - j
{
    if j < s.len() {
        star_later(p, s, ne, cf, i, j + 1);
        if later(p, s, ne, cf, i + 1, j) {
            let k = choose|k: int| j <= k <= s.len() && #[trigger] glob(p, s, ne, cf, i + 1, k);
            if k > j { assert(later(p, s, ne, cf, i + 1, j + 1)); assert(glob(p, s, ne, cf, i, j + 1)); assert(glob(p, s, ne, cf, i, j)); } else { assert(glob(p, s, ne, cf, i + 1, j)); assert(glob(p, s, ne, cf, i, j)); }
        }
        if glob(p, s, ne, cf, i + 1, j) { assert(later(p, s, ne, cf, i + 1, j)); }
        if later(p, s, ne, cf, i + 1, j + 1) { let k = choose|k: int| j + 1 <= k <= s.len() && #[trigger] glob(p, s, ne, cf, i + 1, k); assert(later(p, s, ne, cf, i + 1, j)); }
    } else {
        assert(!glob(p, s, ne, cf, i, j + 1));
        assert(glob(p, s, ne, cf, i, j) == glob(p, s, ne, cf, i + 1, j));
        if glob(p, s, ne, cf, i + 1, j) { assert(later(p, s, ne, cf, i + 1, j)); }
    }
}
pub proof fn later_next(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, i: int, k: int)
    requires !glob(p, s, ne, cf, i, k)
    ensures later(p, s, ne, cf, i, k) == later(p, s, ne, cf, i, k + 1)
{
    if later(p, s, ne, cf, i, k) { let j = choose|j: int| k <= j <= s.len() && #[trigger] glob(p, s, ne, cf, i, j); assert(j > k); }
    if later(p, s, ne, cf, i, k + 1) { let j = choose|j: int| k + 1 <= j <= s.len() && #[trigger] glob(p, s, ne, cf, i, j); }
}
/// where the search stands: what is left to decide, given the last star
pub open spec fn search(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, pi: int, si: int, star: Option<(usize, usize)>) -> bool {
    &&& 0 <= pi <= p.len() && 0 <= si <= s.len()
    &&& match star {
        None => glob(p, s, ne, cf, 0, 0) == glob(p, s, ne, cf, pi, si),
        Some((sp, ss)) => sp <= pi && ss <= si && chain(p, ne, sp as int, pi, si - ss) && glob(p, s, ne, cf, 0, 0) == later(p, s, ne, cf, sp as int, ss as int)
            && glob(p, s, ne, cf, sp as int, ss as int) == glob(p, s, ne, cf, pi, si),
    }
}
/// a matching element
pub proof fn go_on(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, pi: int, si: int, star: Option<(usize, usize)>)
    requires search(p, s, ne, cf, pi, si, star), pi < p.len(), si < s.len(), p[pi] != '*', elen(p.skip(pi), ne) is Some, emat(p.skip(pi), ne, cf, s[si])
    ensures search(p, s, ne, cf, pi + elen(p.skip(pi), ne)->0, si + 1, star)
{
    elen_ok(p.skip(pi), ne);
    if star is Some { chain_more(p, ne, (star->Some_0).0 as int, pi, si - (star->Some_0).1); }
}
/// another star
pub proof fn new_star(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, pi: int, si: int, star: Option<(usize, usize)>)
    requires search(p, s, ne, cf, pi, si, star), pi < p.len(), p[pi] == '*', p.len() <= usize::MAX, s.len() <= usize::MAX
    ensures search(p, s, ne, cf, pi + 1, si, Some(((pi + 1) as usize, si as usize)))
{
    star_later(p, s, ne, cf, pi, si);
    assert(chain(p, ne, pi + 1, pi + 1, 0));
    if star is Some {
        let (sp, ss) = ((star->Some_0).0 as int, (star->Some_0).1 as int);
        if later(p, s, ne, cf, sp, ss) {
            let k = choose|k: int| ss <= k <= s.len() && #[trigger] glob(p, s, ne, cf, sp, k);
            chain_glob(p, s, ne, cf, sp, pi, si - ss, k);
            star_later(p, s, ne, cf, pi, k + (si - ss));
            let j = choose|j: int| k + (si - ss) <= j <= s.len() && #[trigger] glob(p, s, ne, cf, pi + 1, j);
            assert(later(p, s, ne, cf, pi + 1, si));
        }
        if glob(p, s, ne, cf, pi, si) { assert(later(p, s, ne, cf, sp, ss)); }
    }
}
/// the text is used up
pub proof fn at_end(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, pi: int, star: Option<(usize, usize)>)
    requires search(p, s, ne, cf, pi, s.len() as int, star)
    ensures glob(p, s, ne, cf, 0, 0) == glob(p, s, ne, cf, pi, s.len() as int)
{
    if star is Some {
        let (sp, ss) = ((star->Some_0).0 as int, (star->Some_0).1 as int);
        if later(p, s, ne, cf, sp, ss) {
            let k = choose|k: int| ss <= k <= s.len() && #[trigger] glob(p, s, ne, cf, sp, k);
            chain_glob(p, s, ne, cf, sp, pi, s.len() - ss, k);
            assert(k == ss);
        }
        if glob(p, s, ne, cf, sp, ss) { assert(later(p, s, ne, cf, sp, ss)); }
    }
}
/// no match here
pub proof fn go_back(p: Seq<char>, s: Seq<char>, ne: bool, cf: bool, pi: int, si: int, star: Option<(usize, usize)>)
    requires search(p, s, ne, cf, pi, si, star), !glob(p, s, ne, cf, pi, si), si < s.len(), s.len() <= usize::MAX
    ensures match star { None => !glob(p, s, ne, cf, 0, 0), Some((sp, ss)) => ss < s.len() && search(p, s, ne, cf, sp as int, ss + 1, Some((sp, (ss + 1) as usize))) }
{
    if star is Some {
        let (sp, ss) = ((star->Some_0).0 as int, (star->Some_0).1 as int);
        later_next(p, s, ne, cf, sp, ss);
        assert(chain(p, ne, sp, sp, 0));
    }
}
pub proof fn alt_len(q: Seq<char>, i: int, d: int, cur: Seq<char>, ne: bool)
    requires 0 <= i <= q.len(), cur.len() <= i
    ensures forall|k: int| 0 <= k < pieces(q, i, d, cur, ne).len() ==> (#[trigger] pieces(q, i, d, cur, ne)[k]).len() <= q.len()
    decreases q.len() - i
{
    if i < q.len() {
        if escaped(q, i, ne) { alt_len(q, i + 2, d, cur.push(q[i]).push(q[i + 1]), ne); assert(pieces(q, i, d, cur, ne) == pieces(q, i + 2, d, cur.push(q[i]).push(q[i + 1]), ne)); }
        else if q[i] == ',' && d == 0 { alt_len(q, i + 1, 0, seq![], ne); let v = pieces(q, i + 1, 0, seq![], ne); assert forall|k: int| 0 <= k < pieces(q, i, d, cur, ne).len() implies (#[trigger] pieces(q, i, d, cur, ne)[k]).len() <= q.len() by { if k > 0 { assert(pieces(q, i, d, cur, ne)[k] == v[k - 1]); } } }
        else { let e = if q[i] == '{' { d + 1 } else if q[i] == '}' && d > 0 { d - 1 } else { d }; alt_len(q, i + 1, e, cur.push(q[i]), ne); assert(pieces(q, i, d, cur, ne) == pieces(q, i + 1, e, cur.push(q[i]), ne)); }
    } else { assert(pieces(q, i, d, cur, ne) == seq![cur]); }
}
@end
@fn fold
    ensures r == fo(c, casefold)
@sub $c . to_lowercase ( ) . next ( ) . unwrap_or ( $d ) ==> lower($c)
@fn match_bracket id=read_char closure=1
    requires *old(i) < usize::MAX, pat@.len() <= usize::MAX
    ensures at(pat@, *old(i) as int) is None || pat@[*old(i) as int] == ']' ==> r is None,
        *old(i) < pat@.len() && pat@[*old(i) as int] != ']' ==> r == Some(rd(pat@, *old(i) as int, noescape).0) && *final(i) == rd(pat@, *old(i) as int, noescape).1
@head fn bracket_char(pat: &[char], noescape: bool, i: &mut usize) -> Option<char>
@sub let mut ch = * pat . get ( * i ) ? ; ==> let mut ch = match cget(pat, *i) { Some(x_) => x_, None => { return None; } };
@sub if let Some ( & next ) = pat . get ( $i ) ==> if let Some(next) = cget(pat, $i)
@fn match_bracket
    requires 0 < pat@.len() <= usize::MAX
    ensures r is None == mend(pat@, first_member(pat@), noescape) is None,
        r is Some ==> (r->Some_0).1 == mend(pat@, first_member(pat@), noescape)->0 && (r->Some_0).0 == (mhit(pat@, first_member(pat@), noescape, casefold, fo(c, casefold)) != negated(pat@))
@attr #[verifier::loop_isolation(false)]
@sub debug_assert_eq ! ( pat . first ( ) , Some ( & '[' ) ) ; ==> 
@sub matches ! ( pat . get ( $a ) , $b ) ==> match cget(pat, $a) { $b => true, _ => false }
@lift 1 ==> ()
@sub match pat . get ( $i ) { ==> match cget(pat, $i) {
@sub let $v = read_char ( & mut i ) ? ; ==> let $v = match bracket_char(pat, noescape, &mut i) { Some(x_) => x_, None => { return None; } };
@sub let Some ( $v ) = read_char ( & mut i ) else ==> let Some($v) = bracket_char(pat, noescape, &mut i) else
@sub pat . get ( $i ) == Some ( & $c ) ==> is_at(pat, $i, $c)
@sub pat . get ( $i ) . is_some_and ( | & n | n != $c ) ==> other_at(pat, $i, $c)
@sub lo <= c && c <= hi ==> lo as u32 <= c as u32 && c as u32 <= hi as u32
@sub matched ^ negate ==> matched != negate
@loop 1
    invariant negate == negated(pat@), i <= pat@.len(), i >= first_member(pat@), c == fo(c0, casefold), mend(pat@, i as int, noescape) == mend(pat@, first_member(pat@), noescape),
        (matched || mhit(pat@, i as int, noescape, casefold, c)) == mhit(pat@, first_member(pat@), noescape, casefold, c)
    decreases pat@.len() - i
@enter
    let ghost c0 = c;
@fn match_segment_chars
    ensures r == ((!guard_start || period_ok(pat@, s@, flags & 1 != 0, flags & 4 != 0)) && glob(pat@, s@, flags & 1 != 0, flags & 8 != 0, 0, 0))
@sub s . first ( ) == Some ( & $c ) ==> is_at(s, 0, $c)
@sub match pat { [ '\\' , c , .. ] if ! noescape => Some ( c ) , _ => pat . first ( ) , } ==> if pat.len() > 1 && pat[0] == '\\' && !noescape { Some(pat[1]) } else { cget(pat, 0) }
@sub first != Some ( & $c ) ==> !opt_is(first, $c)
@sub if $g && let Some ( ( matched , plen ) ) = match_bracket ( & pat [ pi .. ] , $e ) && $m { ==> let (ok_, matched, plen) = if $g { match match_bracket(rest_from(pat, pi), $e) { Some((m_, n_)) => (true, m_, n_), None => (false, false, 0) } } else { (false, false, 0) }; proof { assert(pat@.skip(pi as int)[0] == pat@[pi as int]); } if ok_ && $m {
@closure 1 (usize) -> (o: bool)
    ensures o == (!dotmatch && guard_start && si == 0 && s@.len() > 0 && s@[0] == '.')
@loop 1
    invariant noescape == (flags & 1 != 0), casefold == (flags & 8 != 0), dotmatch == (flags & 4 != 0),
        forall|x: usize| guarded.requires((x,)), forall|x: usize, o: bool| guarded.ensures((x,), o) ==> o == (gd && x == 0),
        gd == (!dotmatch && guard_start && s@.len() > 0 && s@[0] == '.'),
        !guard_start || period_ok(pat@, s@, noescape, dotmatch),
        search(pat@, s@, noescape, casefold, pi as int, si as int, star),
        gd ==> (si == 0 && pi == 0 && star is None) || (si > 0 && (star is Some ==> (star->Some_0).1 > 0)),
    decreases match star { None => pat@.len() + 1int, Some((a_, b_)) => pat@.len() - a_ }, match star { None => 0int, Some((a_, b_)) => s@.len() - b_ }, pat@.len() - pi
@loopenter 1
    let ghost pi0 = pi as int;
    let ghost si0 = si as int;
    let ghost q = pat@.skip(pi as int);
    proof { if pi < pat@.len() { assert(q[0] == pat@[pi as int]); elen_ok(q, noescape); if pi0 + 1 < pat@.len() { assert(q[1] == pat@[pi0 + 1]); } } if si0 == s@.len() { at_end(pat@, s@, noescape, casefold, pi0, star); } }
@loop 2
    invariant pi <= pat@.len(), glob(pat@, s@, noescape, casefold, pi0, s@.len() as int) == glob(pat@, s@, noescape, casefold, pi as int, s@.len() as int)
    decreases pat@.len() - pi
@loopend 2
    proof { assert(!glob(pat@, s@, noescape, casefold, pi - 1, s@.len() + 1int)); }
@before while pi + 1 < pat . len ( )
    proof { new_star(pat@, s@, noescape, casefold, pi as int, si as int, star); }
@loop 3
    invariant s@.len() <= usize::MAX, pi0 <= pi < pat@.len(), pat@[pi as int] == '*', si <= s@.len(), search(pat@, s@, noescape, casefold, pi + 1, si as int, Some(((pi + 1) as usize, si)))
    decreases pat@.len() - pi
@loopend 3
    proof { new_star(pat@, s@, noescape, casefold, pi as int, si as int, Some((pi, si))); }
@before if advanced {
    proof {
        if advanced { go_on(pat@, s@, noescape, casefold, pi0, si0, star); } else { go_back(pat@, s@, noescape, casefold, pi0, si0, star); }
    }
@before let mut pi = 0 ;
    let ghost gd = !dotmatch && guard_start && s@.len() > 0 && s@[0] == '.';
@fn match_segment
    ensures r == seg(pattern@, name@, flags)
@fn match_segments
    ensures r == segs(texts(pats@), texts(strs@), flags)
    decreases pats@.len()
@sub let Some ( ( $a , $b ) ) = $c . split_first ( ) else ==> let Some(($a, $b)) = split_first($c) else
@sub if * first == $l && ==> if str_eq(first, $l) &&
@sub & strs [ i .. ] ==> rest_from(strs, i)
@sub strs [ i ] . starts_with ( $c ) ==> starts_with(strs[i], $c)
@sub strs . is_empty ( ) ==> (strs.len() == 0)
@sub rest . is_empty ( ) ==> (rest.len() == 0)
@loop 1
    invariant i <= strs@.len(), rest@.len() < pats@.len(), texts(rest@) == texts(pats@).skip(1), rest@.len() > 0, texts(pats@).len() > 1, globstar(texts(pats@)[0]),
        segs(texts(pats@), texts(strs@), flags) == segs(texts(pats@), texts(strs@).skip(i as int), flags)
    decreases strs@.len() - i
@loopenter 1
    proof { assert(texts(strs@.skip(i as int)) =~= texts(strs@).skip(i as int)); if i < strs@.len() { assert(texts(strs@).skip(i as int).skip(1) =~= texts(strs@).skip(i + 1)); } }
@before if str_eq
    proof { assert(texts(pats@.skip(1)) =~= texts(pats@).skip(1)); reveal_strlit("**"); assert("**"@ =~= seq!['*', '*']); assert(texts(strs@).skip(0) =~= texts(strs@)); }
@before match_segment (
    proof { assert(texts(strs@.skip(1)) =~= texts(strs@).skip(1)); }
@fn fnmatch_no_extglob
    ensures r == plain(pattern@, string@, flags)
@sub = $p . split ( $c ) . collect ( ) ==> = split_at_char($p, $c)
@fn split_top_level_commas
    ensures strs(r@) == pieces(chars@, 0, 0, seq![], noescape)
@sub cur . push ( $c ) ==> push_char(&mut cur, $c)
@sub let mut cur = String :: new ( ) ; ==> let mut cur = empty_str();
@sub std :: mem :: take ( & mut cur ) ==> take_str(&mut cur)
@sub let mut out = vec ! [ ] ; ==> let mut out: Vec<String> = Vec::new();
@sub let mut i = 0 ; ==> let mut i: usize = 0;
@loop 1
    invariant i <= chars@.len(), depth <= i, strs(out@) + pieces(chars@, i as int, depth as int, cur@, noescape) == pieces(chars@, 0, 0, seq![], noescape)
    decreases chars@.len() - i
@loopenter 1
    let ghost out0 = out@;
    let ghost cur0 = cur@;
    let ghost rest0 = pieces(chars@, i as int, depth as int, cur@, noescape);
@fn expand_braces
    ensures strs(r@) == braces(pattern@, noescape)
    decreases pattern@.len()
@sub vec ! [ pattern . to_string ( ) ] ==> one_str(pattern)
@sub vec ! [ ] ==> Vec::<String>::new()
@sub let mut i = 0 ; ==> let mut i: usize = 0;
@sub let mut open = None ; ==> let mut open: Option<usize> = None;
@sub format ! ( "{}{}{}" , $a , $b , $c ) ==> cat3(&$a, $b, &$c)
@sub chars [ .. $e ] . iter ( ) . collect ( ) ==> str_of(part(chars.as_slice(), 0, $e))
@sub chars [ $e .. ] . iter ( ) . collect ( ) ==> str_of(rest_from(chars.as_slice(), $e))
@sub & chars [ $a .. $b ] ==> part(chars.as_slice(), $a, $b)
@sub for alt in split_top_level_commas ( $a ) { ==> let al_ = split_top_level_commas($a); for k_ in 0..al_.len() { let alt = &al_[k_];
@sub results . extend ( expand_braces ( & $a , $b ) ) ==> add_strs(&mut results, expand_braces($a.as_str(), $b))
@loop 1
    invariant chars@ == pattern@, i <= chars@.len(), depth <= i,
        open is None ==> depth == 0 && opening(chars@, 0, noescape) == opening(chars@, i as int, noescape),
        open is Some ==> depth >= 1 && opening(chars@, 0, noescape) == open->0 && open->0 < i && closing(chars@, open->0 + 1, 1, noescape) == closing(chars@, i as int, depth as int, noescape)
    decreases chars@.len() - i
@before let mut results =
    let ghost al = pieces(inside@, 0, 0, seq![], noescape);
    proof { alt_len(inside@, 0, 0, seq![], noescape); assert(strs(Seq::<String>::empty()) =~= seq![]); }
@loop 2
    invariant chars@ == pattern@, start < i < chars@.len(), strs(al_@) == al, forall|k: int| 0 <= k < al.len() ==> (#[trigger] al[k]).len() <= i - start - 1,
        prefix@ == chars@.subrange(0, start as int), suffix@ == chars@.skip(i + 1),
        strs(results@) + each(chars@, start as int, i as int, al, k_ as int, noescape) == each(chars@, start as int, i as int, al, 0, noescape)
@loopenter 2
    let ghost res0 = strs(results@);
@loopend 2
    proof { assert(res0 + (braces(put(chars@, start as int, i as int, al[k_ as int]), noescape) + each(chars@, start as int, i as int, al, k_ + 1, noescape)) =~= (res0 + braces(put(chars@, start as int, i as int, al[k_ as int]), noescape)) + each(chars@, start as int, i as int, al, k_ + 1, noescape)); }
@fn fnmatch
    ensures r == fnm(pattern@, string@, flags)
@sub $e . iter ( ) . any ( | pat | $b ) ==> { let l_ = $e; let mut hit_ = false; let mut k_: usize = 0; while k_ < l_.len() { let pat = l_[k_].as_str(); if $b { hit_ = true; } k_ += 1; } hit_ }
@loop 1
    invariant k_ <= l_@.len(), strs(l_@) == braces(pattern@, flags & 1 != 0), hit_ == some(strs(l_@).take(k_ as int), string@, flags)
    decreases l_@.len() - k_
@loopend 1
    proof {
        let (a, b) = (strs(l_@).take(k_ - 1), strs(l_@).take(k_ as int));
        assert(b =~= a.push(strs(l_@)[k_ - 1]));
        if some(a, string@, flags) { let k = choose|k: int| 0 <= k < a.len() && plain(#[trigger] a[k], string@, flags); assert(b[k] == a[k]); }
        if some(b, string@, flags) { let k = choose|k: int| 0 <= k < b.len() && plain(#[trigger] b[k], string@, flags); if k < a.len() { assert(b[k] == a[k]); } }
        if plain(b[k_ - 1], string@, flags) { assert(some(b, string@, flags)); }
    }
@loopexit 1
    proof { assert(strs(l_@).take(l_@.len() as int) =~= strs(l_@)); }
@gsub = $p . chars ( ) . collect ( ) ==> = chars_of($p)
