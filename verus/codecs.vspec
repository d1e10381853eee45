@include base.inc
@file monoruby/src/value/rvalue/string/pack.rs
@verbatim
use vstd::slice::slice_subrange;

/// the text an encoder builds; every char it pushes is checked to be ASCII, so the UTF-8 bytes of
/// the `String` are these
pub struct Text { pub b: Vec<u8> }
impl Text {
    pub fn new() -> (r: Text) ensures r.b@ == Seq::<u8>::empty() { Text { b: Vec::new() } }
    pub fn put(&mut self, c: u8) requires c < 128 ensures final(self).b@ == old(self).b@.push(c) { self.b.push(c); }
    /// `push_str(&format!("={:02X}", byte))`
    #[verifier::external_body]
    pub fn put_hex(&mut self, c: u8) ensures final(self).b@ == old(self).b@.push(61).push(hexd(c as int / 16)).push(hexd(c as int % 16)) { unimplemented!() }
    pub fn last(&self) -> (r: u8) requires self.b@.len() > 0 ensures r == self.b@.last() { self.b[self.b.len() - 1] }
    pub fn ends(&self, c: u8) -> (r: bool) ensures r == (self.b@.len() > 0 && self.b@.last() == c) {
        self.b.len() > 0 && self.b[self.b.len() - 1] == c
    }
}
/// no allocation spans more than isize::MAX bytes
#[verifier::external_body]
pub proof fn in_memory(s: Seq<u8>) ensures s.len() <= isize::MAX {}

/// `for &b in data`
pub struct ByteIt<'a> { pub s: &'a [u8], pub i: usize }
pub fn bytes_of<'a>(s: &'a [u8]) -> (r: ByteIt<'a>) ensures r.s == s, r.i == 0 { ByteIt { s: s, i: 0 } }
impl<'a> ByteIt<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<u8>)
        requires old(self).i <= old(self).s@.len()
        ensures final(self).s == old(self).s,
            r matches Some(x) ==> old(self).i < old(self).s@.len() && x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
            r is None ==> old(self).i == old(self).s@.len() && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { let x = self.s[self.i]; self.i = self.i + 1; Some(x) } else { None }
    }
}

/// `data.chunks(w)`; `k` counts the chunks handed out
pub open spec fn nchunks(len: int, w: int) -> int { (len + w - 1) / w }
pub open spec fn edge(len: int, w: int, k: int) -> int { if w * k <= len { w * k } else { len } }
pub open spec fn chunk(s: Seq<u8>, w: int, k: int) -> Seq<u8> { s.subrange(edge(s.len() as int, w, k), edge(s.len() as int, w, k + 1)) }
pub struct ChunkIt<'a> { pub s: &'a [u8], pub w: usize, pub i: usize, pub k: Ghost<int> }
pub fn chunks_of<'a>(s: &'a [u8], w: usize) -> (r: ChunkIt<'a>) requires w > 0 ensures r.s == s, r.w == w, r.i == 0, r.k@ == 0 { ChunkIt { s: s, w: w, i: 0, k: Ghost(0) } }
impl<'a> ChunkIt<'a> {
    pub open spec fn wf(&self) -> bool { self.w > 0 && self.k@ >= 0 && self.i == edge(self.s@.len() as int, self.w as int, self.k@) }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s, final(self).w == old(self).w,
            r matches Some(x) ==> x@ == chunk(old(self).s@, old(self).w as int, old(self).k@) && 0 < x@.len() <= old(self).w
                && final(self).k@ == old(self).k@ + 1 && old(self).w * old(self).k@ < old(self).s@.len(),
            r is None ==> final(self).k@ == old(self).k@ && old(self).w * old(self).k@ >= old(self).s@.len(),
    {
        let ghost l = self.s@.len() as int;
        let ghost w_ = self.w as int;
        let ghost k_ = self.k@;
        proof { assert(w_ * (k_ + 1) == w_ * k_ + w_) by (nonlinear_arith); assert(0 <= w_ * k_) by (nonlinear_arith) requires w_ > 0, k_ >= 0; }
        if self.i < self.s.len() {
            let e = if self.s.len() - self.i <= self.w { self.s.len() } else { self.i + self.w };
            let x = slice_subrange(self.s, self.i, e);
            self.i = e;
            proof { self.k = Ghost(k_ + 1); }
            Some(x)
        } else { None }
    }
}

/// `data.split(|&b| b == b'\n')`
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<u8>::empty()] } else {
        let p = lines(s.drop_last());
        if s.last() == 10 { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub struct LineIt<'a> { pub v: Vec<&'a [u8]>, pub i: usize }
#[verifier::external_body]
pub fn lines_of<'a>(s: &'a [u8]) -> (r: LineIt<'a>)
    ensures r.i == 0, r.v@.len() == lines(s@).len(), forall|j: int| 0 <= j < r.v@.len() ==> (#[trigger] r.v@[j])@ == lines(s@)[j],
{ unimplemented!() }
impl<'a> LineIt<'a> {
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v,
            r matches Some(x) ==> old(self).i < old(self).v@.len() && x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1,
            r is None ==> old(self).i == old(self).v@.len() && final(self).i == old(self).i,
    {
        if self.i < self.v.len() { let x = self.v[self.i]; self.i = self.i + 1; Some(x) } else { None }
    }
}
pub fn append_bytes(a: &mut Vec<u8>, b: &Vec<u8>) ensures final(a)@ == old(a)@ + b@ {
    let ghost a0 = a@;
    let mut i: usize = 0;
    while i < b.len() invariant i <= b@.len(), a@ == a0 + b@.take(i as int) decreases b@.len() - i {
        a.push(b[i]);
        i = i + 1;
        proof { assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1])); assert(a@ =~= a0 + b@.take(i as int)); }
    }
    proof { assert(b@.take(i as int) =~= b@); }
}

// ---- three bytes as four sextets
pub open spec fn at(c: Seq<u8>, i: int) -> u32 { if i < c.len() { c[i] as u32 } else { 0 } }
pub open spec fn word(c: Seq<u8>) -> u32 { (at(c, 0) << 16) | (at(c, 1) << 8) | at(c, 2) }
pub open spec fn sext(v: u32, i: int) -> u32 {
    if i == 0 { (v >> 18) & 0x3F } else if i == 1 { (v >> 12) & 0x3F } else if i == 2 { (v >> 6) & 0x3F } else { v & 0x3F }
}
pub open spec fn join(a: u32, b: u32, c: u32, d: u32) -> u32 { (a << 18) | (b << 12) | (c << 6) | d }
pub proof fn join_sext(c: Seq<u8>)
    ensures join(sext(word(c), 0), sext(word(c), 1), sext(word(c), 2), sext(word(c), 3)) == word(c),
        sext(word(c), 0) < 64, sext(word(c), 1) < 64, sext(word(c), 2) < 64, sext(word(c), 3) < 64,
        (word(c) >> 16) as u8 == at(c, 0) as u8, (word(c) >> 8) as u8 == at(c, 1) as u8, word(c) as u8 == at(c, 2) as u8,
        c.len() <= 1 ==> sext(word(c), 2) == 0,
        c.len() <= 2 ==> sext(word(c), 3) == 0,
{
    let a = at(c, 0); let b = at(c, 1); let d = at(c, 2);
    let v = (a << 16) | (b << 8) | d;
    assert(a < 256 && b < 256 && d < 256);
    assert(v < 0x1000000 && (v >> 16) as u8 == a as u8 && (v >> 8) as u8 == b as u8 && v as u8 == d as u8) by (bit_vector)
        requires a < 256, b < 256, d < 256, v == (a << 16) | (b << 8) | d;
    assert(((((v >> 18) & 0x3F) << 18) | (((v >> 12) & 0x3F) << 12) | (((v >> 6) & 0x3F) << 6) | (v & 0x3F)) == v) by (bit_vector) requires v < 0x1000000;
    assert((v >> 18) & 0x3F < 64 && (v >> 12) & 0x3F < 64 && (v >> 6) & 0x3F < 64 && v & 0x3F < 64) by (bit_vector);
    assert(b == 0 && d == 0 ==> (v >> 6) & 0x3F == 0) by (bit_vector) requires v == (a << 16) | (b << 8) | d;
    assert(d == 0 ==> v & 0x3F == 0) by (bit_vector) requires v == (a << 16) | (b << 8) | d;
}

// ---- base64
pub open spec fn code(i: u32) -> u8 {
    if i < 26 { (65 + i) as u8 } else if i < 52 { (97 + (i - 26)) as u8 } else if i < 62 { (48 + (i - 52)) as u8 } else if i == 62 { 43 } else { 47 }
}
/// the letter table; that the constant of the source is this one is a loop-free Kani proof
#[verifier::external_body]
pub fn b64_letter(i: usize) -> (r: u8) requires i < 64 ensures r == code(i as u32) { unimplemented!() }
pub open spec fn uncode(c: u8) -> Option<u8> {
    if 65 <= c <= 90 { Some((c - 65) as u8) } else if 97 <= c <= 122 { Some((c - 97 + 26) as u8) } else if 48 <= c <= 57 { Some((c - 48 + 52) as u8) }
    else if c == 43 { Some(62u8) } else if c == 47 { Some(63u8) } else { None }
}
pub proof fn letters(i: u32) requires i < 64 ensures uncode(code(i)) == Some(i as u8), code(i) != 61, code(i) != 10, code(i) < 128 {}

pub struct Dec { pub out: Seq<u8>, pub buf: Seq<u8>, pub pad: int }
pub open spec fn octets(b: Seq<u8>, pad: int) -> Seq<u8> {
    let v = join(b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    let r = seq![(v >> 16) as u8];
    let r = if pad < 2 { r.push((v >> 8) as u8) } else { r };
    if pad < 1 { r.push(v as u8) } else { r }
}
pub open spec fn full(d: Dec) -> Dec { if d.buf.len() == 4 { Dec { out: d.out + octets(d.buf, d.pad), buf: Seq::empty(), pad: 0 } } else { d } }
pub open spec fn step(d: Dec, c: u8) -> Dec {
    if c == 61 { full(Dec { out: d.out, buf: d.buf.push(0), pad: d.pad + 1 }) }
    else if let Some(v) = uncode(c) { full(Dec { out: d.out, buf: d.buf.push(v), pad: 0 }) }
    else { d }
}
/// what a reader of base64 holds after the characters `s`
pub open spec fn read64(s: Seq<u8>) -> Dec decreases s.len() {
    if s.len() == 0 { Dec { out: Seq::empty(), buf: Seq::empty(), pad: 0 } } else { step(read64(s.drop_last()), s.last()) }
}
pub proof fn read64_push(s: Seq<u8>, c: u8) ensures read64(s.push(c)) == step(read64(s), c) { assert(s.push(c).drop_last() =~= s); }

pub open spec fn quad(s: Seq<u8>, c: Seq<u8>) -> Seq<u8> {
    s.push(code(sext(word(c), 0))).push(code(sext(word(c), 1)))
        .push(if c.len() > 1 { code(sext(word(c), 2)) } else { 61 })
        .push(if c.len() > 2 { code(sext(word(c), 3)) } else { 61 })
}
/// the first `n` groups of `d`, a newline after every `k` of them
pub open spec fn enc64(d: Seq<u8>, k: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else {
        let s = quad(enc64(d, k, n - 1), chunk(d, 3, n - 1));
        if k > 0 && n % k == 0 { s.push(10) } else { s }
    }
}
pub open spec fn whole64(d: Seq<u8>, k: int) -> Seq<u8> {
    let n = nchunks(d.len() as int, 3);
    if k > 0 && n % k != 0 { enc64(d, k, n).push(10) } else { enc64(d, k, n) }
}
pub open spec fn empty_dec(o: Seq<u8>) -> Dec { Dec { out: o, buf: Seq::empty(), pad: 0 } }
pub proof fn quad_back(s: Seq<u8>, o: Seq<u8>, c: Seq<u8>)
    requires read64(s) == empty_dec(o), 0 < c.len() <= 3
    ensures read64(quad(s, c)) == empty_dec(o + c)
{
    join_sext(c);
    let v = word(c);
    let c2: u8 = if c.len() > 1 { code(sext(v, 2)) } else { 61 };
    let c3: u8 = if c.len() > 2 { code(sext(v, 3)) } else { 61 };
    let s1 = s.push(code(sext(v, 0)));
    let s2 = s1.push(code(sext(v, 1)));
    let s3 = s2.push(c2);
    read64_push(s, code(sext(v, 0)));
    read64_push(s1, code(sext(v, 1)));
    read64_push(s2, c2);
    read64_push(s3, c3);
    letters(sext(v, 0)); letters(sext(v, 1)); letters(sext(v, 2)); letters(sext(v, 3));
    let b = seq![sext(v, 0) as u8, sext(v, 1) as u8, sext(v, 2) as u8, sext(v, 3) as u8];
    assert(read64(s1).buf =~= b.take(1));
    assert(read64(s2).buf =~= b.take(2));
    assert(read64(s3).buf =~= b.take(3));
    assert(b.take(3).push(b[3]) =~= b);
    let p: int = if c.len() == 1 { 2 } else if c.len() == 2 { 1 } else { 0 };
    assert(octets(b, p) =~= c);
    assert(read64(s3.push(c3)) == empty_dec(o + c));
    assert(s3.push(c3) == quad(s, c));
}
pub proof fn back64(d: Seq<u8>, k: int, n: int)
    requires 0 <= n, n > 0 ==> 3 * (n - 1) < d.len()
    ensures read64(enc64(d, k, n)) == empty_dec(d.take(edge(d.len() as int, 3, n)))
    decreases n
{
    if n > 0 {
        back64(d, k, n - 1);
        let s = enc64(d, k, n - 1);
        let c = chunk(d, 3, n - 1);
        quad_back(s, d.take(edge(d.len() as int, 3, n - 1)), c);
        assert(d.take(edge(d.len() as int, 3, n - 1)) + c =~= d.take(edge(d.len() as int, 3, n)));
        read64_push(quad(s, c), 10);
    } else {
        assert(d.take(0) =~= Seq::<u8>::empty());
    }
}
/// a reader gets the bytes back, with nothing left over
pub proof fn whole_back64(d: Seq<u8>, k: int) ensures read64(whole64(d, k)) == empty_dec(d) {
    let n = nchunks(d.len() as int, 3);
    back64(d, k, n);
    assert(d.take(edge(d.len() as int, 3, n)) =~= d);
    read64_push(enc64(d, k, n), 10);
}
/// characters since the last newline
pub open spec fn col_of(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || s.last() == 10 { 0 } else { 1 + col_of(s.drop_last()) } }
/// no line is longer than `w`
pub open spec fn fits(s: Seq<u8>, w: int) -> bool decreases s.len() { s.len() == 0 || (col_of(s) <= w && fits(s.drop_last(), w)) }
pub proof fn col_push(s: Seq<u8>, c: u8, w: int)
    ensures col_of(s.push(c)) == if c == 10 { 0 } else { col_of(s) + 1 }, fits(s.push(c), w) == (fits(s, w) && col_of(s.push(c)) <= w), 0 <= col_of(s) <= s.len()
    decreases s.len()
{
    assert(s.push(c).drop_last() =~= s);
    if s.len() > 0 { col_push(s.drop_last(), s.last(), w); assert(s.drop_last().push(s.last()) =~= s); }
}
pub open spec fn ascii64(c: u8) -> bool { uncode(c) is Some || c == 61 || c == 10 }
pub open spec fn all64(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> ascii64(#[trigger] s[i]) }
pub proof fn shape64(d: Seq<u8>, k: int, n: int)
    requires 0 <= n, n > 0 ==> 3 * (n - 1) < d.len()
    ensures all64(enc64(d, k, n)), k > 0 ==> col_of(enc64(d, k, n)) == 4 * (n % k) && fits(enc64(d, k, n), 4 * k),
        k <= 0 ==> col_of(enc64(d, k, n)) == 4 * n && enc64(d, k, n).len() == 4 * n
    decreases n
{
    if n > 0 {
        shape64(d, k, n - 1);
        let c = chunk(d, 3, n - 1);
        let s = enc64(d, k, n - 1);
        join_sext(c);
        let v = word(c);
        let c2: u8 = if c.len() > 1 { code(sext(v, 2)) } else { 61 };
        let c3: u8 = if c.len() > 2 { code(sext(v, 3)) } else { 61 };
        letters(sext(v, 0)); letters(sext(v, 1)); letters(sext(v, 2)); letters(sext(v, 3));
        let s1 = s.push(code(sext(v, 0)));
        let s2 = s1.push(code(sext(v, 1)));
        let s3 = s2.push(c2);
        col_push(s, code(sext(v, 0)), 4 * k);
        col_push(s1, code(sext(v, 1)), 4 * k);
        col_push(s2, c2, 4 * k);
        col_push(s3, c3, 4 * k);
        col_push(s3.push(c3), 10, 4 * k);
        if k > 0 { mod_next(n - 1, k); }
    } else if k > 0 {
        assert(0int % k == 0) by (nonlinear_arith) requires k > 0;
    }
}
pub proof fn mod_next(n: int, k: int) requires n >= 0, k > 0 ensures 0 <= n % k < k, (n + 1) % k == if n % k + 1 == k { 0 } else { n % k + 1 } {
    let q = n / k; let r = n % k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, k);
    vstd::arithmetic::div_mod::lemma_mod_pos_bound(n, k);
    if r + 1 == k {
        assert(n + 1 == (q + 1) * k + 0) by (nonlinear_arith) requires n == k * q + r, r + 1 == k;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, k, q + 1, 0);
    } else {
        assert(n + 1 == q * k + (r + 1)) by (nonlinear_arith) requires n == k * q + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, k, q, r + 1);
    }
}
/// the bytes come back from the text; it is made of the letters, '=' and newlines; with `k` groups a
/// line it has no line longer than 4k characters and ends with a newline
pub open spec fn sound64(d: Seq<u8>, k: int, t: Seq<u8>) -> bool {
    read64(t) == empty_dec(d) && all64(t)
    && (k > 0 ==> fits(t, 4 * k) && (d.len() > 0 ==> t.len() > 0 && t.last() == 10))
    && (d.len() == 0 ==> t.len() == 0)
}
pub proof fn whole_sound64(d: Seq<u8>, k: int) ensures sound64(d, k, whole64(d, k)) {
    let n = nchunks(d.len() as int, 3);
    whole_back64(d, k);
    shape64(d, k, n);
    col_push(enc64(d, k, n), 10, 4 * k);
}
// ---- quoted-printable
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn unhex(c: u8) -> Option<u8> {
    if 48 <= c <= 57 { Some((c - 48) as u8) } else if 65 <= c <= 70 { Some((c - 65 + 10) as u8) } else if 97 <= c <= 102 { Some((c - 97 + 10) as u8) } else { None }
}
/// what a reader of quoted-printable text makes of it
pub open spec fn readqp(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] != 61 { seq![s[0]] + readqp(s.skip(1)) }
    else if s.len() > 1 && s[1] == 10 { readqp(s.skip(2)) }
    else if s.len() > 2 && s[1] == 13 && s[2] == 10 { readqp(s.skip(3)) }
    else if s.len() > 2 && unhex(s[1]) is Some && unhex(s[2]) is Some { seq![((unhex(s[1])->0) << 4) | (unhex(s[2])->0)] + readqp(s.skip(3)) }
    else { seq![s[0]] + readqp(s.skip(1)) }
}
/// every escape of the text is whole
pub open spec fn closed(s: Seq<u8>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if s[0] != 61 { closed(s.skip(1)) }
    else if s.len() > 1 && s[1] == 10 { closed(s.skip(2)) }
    else { s.len() > 2 && unhex(s[1]) is Some && unhex(s[2]) is Some && closed(s.skip(3)) }
}
pub proof fn readqp_cat(a: Seq<u8>, b: Seq<u8>)
    requires closed(a)
    ensures readqp(a + b) == readqp(a) + readqp(b), closed(a + b) == closed(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(readqp(a) + readqp(b) =~= readqp(b)); }
    else if a[0] != 61 {
        readqp_cat(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(readqp(a + b) =~= readqp(a) + readqp(b));
    } else if a.len() > 1 && a[1] == 10 {
        readqp_cat(a.skip(2), b); assert((a + b).skip(2) =~= a.skip(2) + b);
    } else {
        readqp_cat(a.skip(3), b); assert((a + b).skip(3) =~= a.skip(3) + b);
        assert((a + b)[1] == a[1] && (a + b)[2] == a[2]);
        assert(readqp(a + b) =~= readqp(a) + readqp(b));
    }
}
pub open spec fn qpchar(c: u8) -> bool { 33 <= c <= 126 || c == 9 || c == 32 || c == 10 }
pub open spec fn allqp(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> qpchar(#[trigger] s[i]) }
/// whole so far: decodes to `d`, only printable characters, no line longer than `w`
pub open spec fn goodqp(d: Seq<u8>, t: Seq<u8>, w: int) -> bool { closed(t) && readqp(t) == d && allqp(t) && fits(t, w) }
pub proof fn soft_qp(d: Seq<u8>, t: Seq<u8>, w: int)
    requires goodqp(d, t, w), col_of(t) < w
    ensures goodqp(d, t.push(61).push(10), w), col_of(t.push(61).push(10)) == 0
{
    let b = seq![61u8, 10u8];
    reveal_with_fuel(readqp, 3); reveal_with_fuel(closed, 3);
    readqp_cat(t, b);
    assert(t + b =~= t.push(61).push(10));
    assert(b.skip(2) =~= Seq::<u8>::empty());
    assert(readqp(t) + readqp(b) =~= d);
    col_push(t, 61, w); col_push(t.push(61), 10, w);
}
pub proof fn plain_qp(d: Seq<u8>, t: Seq<u8>, c: u8, w: int)
    requires goodqp(d, t, w), c != 61, qpchar(c), c != 10 ==> col_of(t) < w, w >= 0
    ensures goodqp(d.push(c), t.push(c), w), col_of(t.push(c)) == if c == 10 { 0 } else { col_of(t) + 1 }
{
    let b = seq![c];
    reveal_with_fuel(readqp, 3); reveal_with_fuel(closed, 3);
    readqp_cat(t, b);
    assert(t + b =~= t.push(c));
    assert(b.skip(1) =~= Seq::<u8>::empty());
    assert(readqp(b) =~= seq![c]);
    assert(readqp(t) + readqp(b) =~= d.push(c));
    col_push(t, c, w);
}
pub proof fn hex_qp(d: Seq<u8>, t: Seq<u8>, c: u8, w: int)
    requires goodqp(d, t, w), col_of(t) + 3 <= w
    ensures goodqp(d.push(c), t.push(61).push(hexd(c as int / 16)).push(hexd(c as int % 16)), w),
        col_of(t.push(61).push(hexd(c as int / 16)).push(hexd(c as int % 16))) == col_of(t) + 3
{
    let h = hexd(c as int / 16); let l = hexd(c as int % 16);
    let b = seq![61u8, h, l];
    reveal_with_fuel(readqp, 3); reveal_with_fuel(closed, 3);
    readqp_cat(t, b);
    assert(t + b =~= t.push(61).push(h).push(l));
    assert(b.skip(3) =~= Seq::<u8>::empty());
    let x = (c / 16) as u8; let y = (c % 16) as u8;
    assert(unhex(h) == Some(x) && unhex(l) == Some(y));
    assert((x << 4) | y == c) by (bit_vector) requires x == c / 16, y == c % 16;
    assert(readqp(b) =~= seq![c]);
    assert(readqp(t) + readqp(b) =~= d.push(c));
    col_push(t, 61, w); col_push(t.push(61), h, w); col_push(t.push(61).push(h), l, w);
}

// ---- uuencode
pub open spec fn ucode(v: u32) -> u8 { if v == 0 { 96 } else { (v + 32) as u8 } }
pub open spec fn unucode(c: u8) -> u32 { if c == 96 { 0 } else if c >= 32 { ((c - 32) as u8) as u32 & 0x3F } else { 0 } }
pub proof fn ulet(v: u32) requires v < 64 ensures unucode(ucode(v)) == v, 32 < ucode(v) <= 96 {
    assert(v & 0x3F == v) by (bit_vector) requires v < 64;
}
pub open spec fn uquad(s: Seq<u8>, c: Seq<u8>) -> Seq<u8> {
    s.push(ucode(sext(word(c), 0))).push(ucode(sext(word(c), 1))).push(ucode(sext(word(c), 2))).push(ucode(sext(word(c), 3)))
}
/// the first `n` groups of a line after `s`
pub open spec fn ugroups(s: Seq<u8>, c: Seq<u8>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { s } else { uquad(ugroups(s, c, n - 1), chunk(c, 3, n - 1)) }
}
pub open spec fn uline(s: Seq<u8>, c: Seq<u8>) -> Seq<u8> { ugroups(s.push((c.len() + 32) as u8), c, nchunks(c.len() as int, 3)).push(10) }
pub open spec fn uenc(d: Seq<u8>, w: int, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { uline(uenc(d, w, n - 1), chunk(d, w, n - 1)) }
}
pub open spec fn three(e: Seq<u8>, i: int) -> Seq<u8> {
    let v = join(unucode(e[i]), unucode(e[i + 1]), unucode(e[i + 2]), unucode(e[i + 3]));
    seq![(v >> 16) as u8, (v >> 8) as u8, v as u8]
}
/// the bytes of the first `n` groups of four characters of `e`
pub open spec fn threes(e: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { threes(e, n - 1) + three(e, 4 * (n - 1)) } }
pub open spec fn readline(l: Seq<u8>) -> Seq<u8> {
    if l.len() == 0 || l[0] < 32 { Seq::empty() } else {
        let t = threes(l.skip(1), (l.len() - 1) / 4);
        let e = l[0] - 32;
        if e < t.len() { t.take(e) } else { t }
    }
}
pub open spec fn readlines(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { readlines(ls.drop_last()) + readline(ls.last()) }
}
pub open spec fn readuu(s: Seq<u8>) -> Seq<u8> { readlines(lines(s)) }
pub proof fn lines_some(s: Seq<u8>) ensures lines(s).len() > 0 decreases s.len() { if s.len() > 0 { lines_some(s.drop_last()); } }
pub proof fn lines_cat(s: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 10
    ensures lines(s + t) == lines(s).drop_last().push(lines(s).last() + t)
    decreases t.len()
{
    lines_some(s);
    if t.len() == 0 {
        assert(s + t =~= s); assert(lines(s).last() + t =~= lines(s).last());
        assert(lines(s) =~= lines(s).drop_last().push(lines(s).last()));
    } else {
        lines_cat(s, t.drop_last());
        assert((s + t).drop_last() =~= s + t.drop_last());
        let p = lines(s).drop_last().push(lines(s).last() + t.drop_last());
        assert(p.drop_last() =~= lines(s).drop_last());
        assert((lines(s).last() + t.drop_last()).push(t.last()) =~= lines(s).last() + t);
    }
}
pub proof fn groups_at(s: Seq<u8>, c: Seq<u8>, n: int)
    requires n >= 0
    ensures ugroups(s, c, n) == s + ugroups(Seq::empty(), c, n), ugroups(Seq::<u8>::empty(), c, n).len() == 4 * n
    decreases n
{
    if n > 0 { groups_at(s, c, n - 1); assert(ugroups(s, c, n) =~= s + ugroups(Seq::empty(), c, n)); }
    else { assert(s =~= s + ugroups(Seq::empty(), c, n)); }
}
pub proof fn threes_pre(e: Seq<u8>, f: Seq<u8>, n: int)
    requires 0 <= 4 * n <= e.len(), 4 * n <= f.len(), forall|i: int| 0 <= i < 4 * n ==> e[i] == f[i]
    ensures threes(e, n) == threes(f, n), threes(e, n).len() == 3 * n
    decreases n
{ if n > 0 { threes_pre(e, f, n - 1); } }
pub proof fn groups_back(c: Seq<u8>, n: int)
    requires 0 <= n, n > 0 ==> 3 * (n - 1) < c.len()
    ensures threes(ugroups(Seq::empty(), c, n), n).len() == 3 * n,
        edge(c.len() as int, 3, n) <= 3 * n,
        threes(ugroups(Seq::empty(), c, n), n).take(edge(c.len() as int, 3, n)) == c.take(edge(c.len() as int, 3, n)),
        forall|i: int| 0 <= i < 4 * n ==> 32 < #[trigger] ugroups(Seq::empty(), c, n)[i] <= 96
    decreases n
{
    let z = Seq::<u8>::empty();
    groups_at(z, c, n);
    if n > 0 {
        groups_back(c, n - 1);
        groups_at(z, c, n - 1);
        let g0 = ugroups(z, c, n - 1);
        let g = ugroups(z, c, n);
        let k = chunk(c, 3, n - 1);
        threes_pre(g0, g, n - 1);
        join_sext(k);
        ulet(sext(word(k), 0)); ulet(sext(word(k), 1)); ulet(sext(word(k), 2)); ulet(sext(word(k), 3));
        let m = 4 * (n - 1);
        assert(g[m] == ucode(sext(word(k), 0)) && g[m + 1] == ucode(sext(word(k), 1)) && g[m + 2] == ucode(sext(word(k), 2)) && g[m + 3] == ucode(sext(word(k), 3)));
        let e = edge(c.len() as int, 3, n);
        let t0 = threes(g0, n - 1);
        assert(three(g, m) =~= seq![at(k, 0) as u8, at(k, 1) as u8, at(k, 2) as u8]);
        assert(threes(g, n) == t0 + three(g, m));
        assert(edge(c.len() as int, 3, n - 1) == 3 * (n - 1));
        assert(t0.take(3 * (n - 1)) =~= t0);
        assert forall|i: int| 0 <= i < e implies #[trigger] threes(g, n)[i] == c[i] by {
            if i < 3 * (n - 1) { assert(t0[i] == c.take(3 * (n - 1))[i]); } else { assert(k[i - 3 * (n - 1)] == c[i]); }
        }
        assert(threes(g, n).take(e) =~= c.take(e));
        assert forall|i: int| 0 <= i < 4 * n implies 32 < #[trigger] g[i] <= 96 by { if i < m { assert(g[i] == g0[i]); } }
    } else {
        assert(threes(ugroups(z, c, n), n).take(0) =~= c.take(0));
    }
}
/// a line of `c` is read back as `c`
pub proof fn line_back(s: Seq<u8>, c: Seq<u8>)
    requires 0 < c.len() <= 63, readlines(lines(s).drop_last()) == readlines(lines(s)), lines(s).last().len() == 0
    ensures lines(uline(s, c)).last().len() == 0, readlines(lines(uline(s, c))) == readlines(lines(s)) + c,
        readlines(lines(uline(s, c)).drop_last()) == readlines(lines(uline(s, c)))
{
    let z = Seq::<u8>::empty();
    let n = nchunks(c.len() as int, 3);
    let h = (c.len() + 32) as u8;
    let g = ugroups(z, c, n);
    groups_back(c, n);
    groups_at(z, c, n);
    groups_at(s.push(h), c, n);
    let l = seq![h] + g;
    assert(ugroups(s.push(h), c, n) =~= s + l);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != 10 by { if i > 0 { assert(l[i] == g[i - 1]); } }
    lines_cat(s, l);
    lines_some(s);
    let p = lines(s).drop_last().push(lines(s).last() + l);
    assert(lines(s).last() + l =~= l);
    assert((s + l).push(10).drop_last() =~= s + l);
    let q = p.push(z);
    assert(lines(uline(s, c)) == q);
    assert(q.drop_last() =~= p);
    assert(p.drop_last() =~= lines(s).drop_last());
    assert(l.skip(1) =~= g);
    assert((l.len() - 1) / 4 == n);
    assert(readline(l) =~= c) by { assert(c.take(c.len() as int) =~= c); }
    assert(readline(z) == z);
    assert(readlines(p) == readlines(lines(s).drop_last()) + c);
    assert(readlines(q) =~= readlines(p) + z);
    assert(readlines(p) + z =~= readlines(p));
}
pub proof fn uu_back(d: Seq<u8>, w: int, n: int)
    requires 0 < w <= 63, n >= 0, n > 0 ==> w * (n - 1) < d.len()
    ensures readuu(uenc(d, w, n)) == d.take(edge(d.len() as int, w, n)), lines(uenc(d, w, n)).last().len() == 0,
        readlines(lines(uenc(d, w, n)).drop_last()) == readlines(lines(uenc(d, w, n)))
    decreases n
{
    assert(0 <= w * n) by (nonlinear_arith) requires w > 0, n >= 0;
    if n > 0 {
        assert(w * n == w * (n - 1) + w) by (nonlinear_arith);
        assert(0 <= w * (n - 1)) by (nonlinear_arith) requires w > 0, n > 0;
        assert(n > 1 ==> w * (n - 2) < w * (n - 1)) by (nonlinear_arith) requires w > 0;
        uu_back(d, w, n - 1);
        let c = chunk(d, w, n - 1);
        line_back(uenc(d, w, n - 1), c);
        assert(d.take(edge(d.len() as int, w, n - 1)) + c =~= d.take(edge(d.len() as int, w, n)));
    } else {
        let z = Seq::<u8>::empty();
        assert(w * n == 0) by (nonlinear_arith) requires n == 0;
        let ls = seq![z];
        assert(lines(z) == ls);
        assert(ls.drop_last() =~= Seq::<Seq<u8>>::empty());
        assert(readline(z) == z);
        reveal_with_fuel(readlines, 2);
        assert(readlines(ls) =~= z);
        assert(d.take(0) =~= z);
    }
}
/// every character is a newline or lies between space and '`'
pub open spec fn alluu(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 10 || 32 < s[i] <= 96 }
pub proof fn uu_shape(d: Seq<u8>, w: int, n: int)
    requires 0 < w <= 63, n >= 0, n > 0 ==> w * (n - 1) < d.len()
    ensures alluu(uenc(d, w, n)), n > 0 ==> uenc(d, w, n).len() > 0 && uenc(d, w, n).last() == 10, n == 0 ==> uenc(d, w, n).len() == 0
    decreases n
{
    if n > 0 {
        assert(n > 1 ==> w * (n - 2) < w * (n - 1)) by (nonlinear_arith) requires w > 0;
        assert(0 <= w * (n - 1)) by (nonlinear_arith) requires w > 0, n > 0;
        assert(w * n == w * (n - 1) + w) by (nonlinear_arith);
        uu_shape(d, w, n - 1);
        let c = chunk(d, w, n - 1);
        let m = nchunks(c.len() as int, 3);
        let s = uenc(d, w, n - 1);
        let h = (c.len() + 32) as u8;
        groups_back(c, m);
        groups_at(s.push(h), c, m);
        let g = ugroups(Seq::empty(), c, m);
        let u = uline(s, c);
        assert(u =~= (s.push(h) + g).push(10));
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == 10 || 32 < u[i] <= 96 by {
            if i < s.len() { assert(u[i] == s[i]); } else if s.len() < i < u.len() - 1 { assert(u[i] == g[i - s.len() - 1]); }
        }
    }
}
pub open spec fn uwidth(line_len: int) -> int { if line_len == 0 { 45 } else if line_len < 63 { line_len / 3 * 3 } else { 63 } }
@end

@fn base64_encode foriter
    requires line_len / 3 * 4 <= usize::MAX
    ensures r.b@ == whole64(data@, line_len as int / 3), sound64(data@, line_len as int / 3, r.b@)
@sub -> String ==> -> Text
@sub String :: new ( ) ==> Text::new()
@sub data . chunks ( 3 ) ==> chunks_of(data, 3)
@sub BASE64_CHARS [ $a ] as char ==> b64_letter($a)
@sub result . push ( '=' ) ==> result.put(61)
@sub result . push ( '\n' ) ==> result.put(10)
@sub result . push ( b64_letter ==> result.put(b64_letter
@sub let mut col = 0 ; ==> let mut col: usize = 0;
@enter
    let ghost k = line_len as int / 3;
@loop 1
    invariant _it1.wf(), _it1.s == data, _it1.w == 3, result.b@ == enc64(data@, k, _it1.k@), k == line_len as int / 3, chars_per_line == 4 * k,
        _it1.k@ > 0 ==> 3 * (_it1.k@ - 1) < data@.len(),
        col == (if k > 0 { 4 * (_it1.k@ % k) } else { 4 * _it1.k@ })
    ensures 3 * _it1.k@ >= data@.len()
    decreases 3 + data@.len() - 3 * _it1.k@
@loopenter 1
    let ghost n = _it1.k@;
    proof {
        in_memory(result.b@); shape64(data@, k, n - 1); join_sext(chunk@); col_push(result.b@, 0, 0);
        letters(sext(word(chunk@), 0)); letters(sext(word(chunk@), 1)); letters(sext(word(chunk@), 2)); letters(sext(word(chunk@), 3));
        if k > 0 { mod_next(n - 1, k); }
    }
@loopexit 1
    proof { assert(_it1.k@ == nchunks(data@.len() as int, 3)); whole_sound64(data@, k); shape64(data@, k, _it1.k@); if k > 0 { mod_next(_it1.k@, k); } }

@fn base64_decode_char
    ensures r == uncode(c)

@fn base64_decode foriter
    ensures r@ == read64(data@).out
@sub for & byte in data { ==> for byte in bytes_of(data) {
@sub let mut result = Vec :: new ( ) ; ==> let mut result: Vec<u8> = Vec::new();
@sub let mut buf_len = 0 ; ==> let mut buf_len: usize = 0;
@sub let mut pad_count = 0 ; ==> let mut pad_count: i32 = 0;
@loop 1
    invariant _it1.s == data, _it1.i <= data@.len(), buf_len < 4, 0 <= pad_count <= buf_len,
        read64(data@.take(_it1.i as int)) == (Dec { out: result@, buf: buf@.take(buf_len as int), pad: pad_count as int })
    ensures _it1.i == data@.len()
    decreases data@.len() - _it1.i
@loopenter 1
    let ghost r0 = result@;
    let ghost buf0 = buf@;
    let ghost n0 = buf_len as int;
    proof { read64_push(data@.take(_it1.i - 1), byte); assert(data@.take(_it1.i as int) =~= data@.take(_it1.i - 1).push(byte)); }
@before if buf_len == 4
    proof { assert(buf@.take(buf_len as int) =~= buf0.take(n0).push(buf@[n0])); assert(buf@.take(4) =~= buf@); }
@lastbefore buf_len = 0 ;
    proof { assert(result@ =~= r0 + octets(buf@, pad_count as int)); }
@loopend 1
    proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); }
@before for byte in bytes_of
    proof { assert(buf@.take(0) =~= Seq::<u8>::empty()); assert(data@.take(0) =~= Seq::<u8>::empty()); }
@loopexit 1
    proof { assert(data@.take(_it1.i as int) =~= data@); }

@fn hex_val
    ensures r == unhex(c)

@fn qp_encode foriter
    requires line_len < usize::MAX - 8
    ensures goodqp(data@, r.b@, (if line_len > 1 { line_len as int } else { 72 }) + 4),
        data@.len() == 0 ==> r.b@.len() == 0, data@.len() > 0 ==> r.b@.len() > 0 && r.b@.last() == 10
@sub -> String ==> -> Text
@sub String :: new ( ) ==> Text::new()
@sub for & byte in data . iter ( ) { ==> for byte in bytes_of(data) {
@sub result . as_bytes ( ) [ result . len ( ) - 1 ] ==> result.last()
@sub result . push ( '=' ) ==> result.put(61)
@sub result . push ( '\n' ) ==> result.put(10)
@sub result . push ( byte as char ) ==> result.put(byte)
@sub result . push_str ( & format ! ( "={:02X}" , byte ) ) ==> result.put_hex(byte)
@sub result . ends_with ( '\n' ) ==> result.ends(10)
@enter
    proof { assert(data@.take(0) =~= Seq::<u8>::empty()); assert(data@.len() == 0 ==> data@ =~= Seq::<u8>::empty()); }
@loop 1
    invariant _it1.s == data, _it1.i <= data@.len(), goodqp(data@.take(_it1.i as int), result.b@, limit + 4), col == col_of(result.b@), col <= limit + 3, limit < usize::MAX - 8, limit >= 1,
        data@.len() > 0, result.b@.len() == 0 ==> _it1.i == 0
    ensures _it1.i == data@.len()
    decreases data@.len() - _it1.i
@loopenter 1
    let ghost t0 = result.b@;
    let ghost d0 = data@.take(_it1.i - 1);
    let ghost w = limit + 4;
    proof {
        assert(data@.take(_it1.i as int) =~= d0.push(byte));
        soft_qp(d0, t0, w);
        if byte == 10 { plain_qp(d0, t0, 10, w); plain_qp(d0, t0.push(61).push(10), 10, w); if t0.len() == 0 { assert(col_of(t0) == 0); } }
        else if byte == 9 || byte == 32 || (33 <= byte <= 126 && byte != 61) { plain_qp(d0, t0, byte, w); plain_qp(d0, t0.push(61).push(10), byte, w); }
        else { if col_of(t0) <= limit { hex_qp(d0, t0, byte, w); } hex_qp(d0, t0.push(61).push(10), byte, w); }
    }
@loopexit 1
    proof { assert(data@.take(_it1.i as int) =~= data@); soft_qp(data@, result.b@, limit + 4); }

@fn qp_decode
    ensures r@ == readqp(data@)
@sub let mut result = Vec :: new ( ) ; ==> let mut result: Vec<u8> = Vec::new();
@loop 1
    invariant i <= data@.len() <= isize::MAX, result@ + readqp(data@.skip(i as int)) == readqp(data@)
    decreases data@.len() - i
@before while i < data . len ( )
    proof { in_memory(data@); assert(data@.skip(0) =~= data@); assert(result@ + readqp(data@) =~= readqp(data@)); }
@loopenter 1
    let ghost s = data@.skip(i as int);
    let ghost r0 = result@;
    proof {
        assert(s[0] == data@[i as int]); assert(s.len() > 1 ==> s[1] == data@[i + 1]); assert(s.len() > 2 ==> s[2] == data@[i + 2]);
        assert(s.skip(1) =~= data@.skip(i + 1)); if s.len() > 1 { assert(s.skip(2) =~= data@.skip(i + 2)); } if s.len() > 2 { assert(s.skip(3) =~= data@.skip(i + 3)); }
        assert(r0 + (seq![s[0]] + readqp(s.skip(1))) =~= r0.push(s[0]) + readqp(s.skip(1)));
        if s.len() > 2 && unhex(s[1]) is Some && unhex(s[2]) is Some { let b_ = ((unhex(s[1])->0) << 4) | (unhex(s[2])->0); assert(r0 + (seq![b_] + readqp(s.skip(3))) =~= r0.push(b_) + readqp(s.skip(3))); }
    }
@loopexit 1
    proof { assert(data@.skip(i as int) =~= Seq::<u8>::empty()); assert(result@ + Seq::<u8>::empty() =~= result@); }

@fn uu_char
    requires val < 64
    ensures r == ucode(val)
@sub -> char ==> -> u8
@sub '`' ==> 96
@sub ( val as u8 + 32 ) as char ==> (val as u8 + 32)

@fn uu_decode_char
    ensures r == unucode(c), r < 64
@exit
    proof { let x_ = (if c >= 32 { (c - 32) as u8 } else { 0u8 }) as u32; assert(x_ & 0x3F < 64) by (bit_vector); }

@fn uu_encode foriter
    requires line_len == 0 || line_len >= 3
    ensures r.b@ == uenc(data@, uwidth(line_len as int), nchunks(data@.len() as int, uwidth(line_len as int))), readuu(r.b@) == data@, alluu(r.b@),
        data@.len() == 0 ==> r.b@.len() == 0, data@.len() > 0 ==> r.b@.len() > 0 && r.b@.last() == 10
@sub -> String ==> -> Text
@sub String :: new ( ) ==> Text::new()
@sub line_len . min ( 63 ) ==> vmin(line_len, 63)
@sub data . chunks ( bytes_per_line ) ==> chunks_of(data, bytes_per_line)
@sub chunk . chunks ( 3 ) ==> chunks_of(chunk, 3)
@sub result . push ( ( chunk . len ( ) as u8 + 32 ) as char ) ==> result.put(chunk.len() as u8 + 32)
@sub result . push ( '\n' ) ==> result.put(10)
@sub result . push ( uu_char ==> result.put(uu_char
@loop 1
    invariant bytes_per_line == uwidth(line_len as int), 0 < bytes_per_line <= 63, _it1.wf(), _it1.s == data, _it1.w == bytes_per_line, result.b@ == uenc(data@, bytes_per_line as int, _it1.k@),
        _it1.k@ > 0 ==> bytes_per_line * (_it1.k@ - 1) < data@.len()
    ensures bytes_per_line * _it1.k@ >= data@.len()
    decreases data@.len() + bytes_per_line - bytes_per_line * _it1.k@
@loopenter 1
    let ghost w_ = bytes_per_line as int;
    let ghost k_ = _it1.k@ - 1;
    let ghost s0 = result.b@.push((chunk@.len() + 32) as u8);
    proof { assert(w_ * (k_ + 1) == w_ * k_ + w_) by (nonlinear_arith); }
@loop 2
    invariant _it2.wf(), _it2.s == chunk, _it2.w == 3, result.b@ == ugroups(s0, chunk@, _it2.k@), _it2.k@ > 0 ==> 3 * (_it2.k@ - 1) < chunk@.len()
    ensures 3 * _it2.k@ >= chunk@.len()
    decreases 3 + chunk@.len() - 3 * _it2.k@
@loopenter 2
    proof { join_sext(triple@); ulet(sext(word(triple@), 0)); ulet(sext(word(triple@), 1)); ulet(sext(word(triple@), 2)); ulet(sext(word(triple@), 3)); }
@loopexit 2
    proof { assert(_it2.k@ == nchunks(chunk@.len() as int, 3)); }
@loopexit 1
    proof {
        let w_ = bytes_per_line as int; let k_ = _it1.k@; let l_ = data@.len() as int;
        assert(w_ * k_ == w_ * (k_ - 1) + w_) by (nonlinear_arith);
        assert(k_ == (l_ + w_ - 1) / w_) by (nonlinear_arith) requires w_ > 0, w_ * k_ >= l_, k_ == 0 || w_ * (k_ - 1) < l_, k_ >= 0, l_ >= 0, w_ * k_ == w_ * (k_ - 1) + w_;
        uu_back(data@, w_, k_); uu_shape(data@, w_, k_);
        assert(data@.take(l_) =~= data@);
        assert(k_ == 0 ==> l_ == 0) by (nonlinear_arith) requires w_ * k_ >= l_, l_ >= 0;
    }

@fn uu_decode foriter
    ensures r@ == readuu(data@)
@sub data . split ( | & b | b == b'\n' ) ==> lines_of(data)
@sub let mut result = Vec :: new ( ) ; ==> let mut result: Vec<u8> = Vec::new();
@sub let mut decoded_line = Vec :: new ( ) ; ==> let mut decoded_line: Vec<u8> = Vec::new();
@sub & line [ 1 .. ] ==> slice_subrange(line, 1, line.len())
@sub result . extend_from_slice ( & decoded_line ) ==> append_bytes(&mut result, &decoded_line)
@loop 1
    invariant _it1.i <= _it1.v@.len(), _it1.v@.len() == lines(data@).len(), forall|j: int| 0 <= j < _it1.v@.len() ==> (#[trigger] _it1.v@[j])@ == lines(data@)[j],
        result@ == readlines(lines(data@).take(_it1.i as int))
    ensures _it1.i == _it1.v@.len()
    decreases _it1.v@.len() - _it1.i
@loopenter 1
    let ghost r0 = result@;
    proof {
        let ls = lines(data@); let k_ = _it1.i as int;
        assert(ls.take(k_).drop_last() =~= ls.take(k_ - 1)); assert(line@ == ls[k_ - 1]);
        assert(readlines(ls.take(k_)) == r0 + readline(line@));
        if line@.len() == 0 || line@[0] < 32 { assert(r0 + readline(line@) =~= r0); }
        else if line@[0] == 32 { assert(readline(line@) =~= Seq::<u8>::empty()); assert(r0 + readline(line@) =~= r0); }
    }
@before let mut i = 0 ;
    proof { in_memory(encoded@); assert(encoded@ =~= line@.skip(1)); }
@loop 2
    invariant 0 <= i <= encoded@.len() <= isize::MAX, i % 4 == 0, decoded_line@ == threes(encoded@, i as int / 4)
    decreases encoded@.len() - i
@loopend 2
    proof { assert(decoded_line@ =~= threes(encoded@, (i - 4) / 4) + three(encoded@, i - 4)); }
@loopexit 2
    proof { assert(i / 4 == encoded@.len() / 4); }
@loopexit 1
    proof { assert(lines(data@).take(_it1.i as int) =~= lines(data@)); }
