// Buffered reading and writing: monoruby/src/value/rvalue/io/buf.rs
@include base.inc
@file monoruby/src/value/rvalue/io/buf.rs
@item const IO_BUF_CAPA
@verbatim
// ---- the file underneath ------------------------------------------------------------------------
#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum Kind { Interrupted, WouldBlock, Other }
#[verifier::external_body]
pub struct IoErr { e: std::io::Error }
impl IoErr {
    pub uninterp spec fn of(&self) -> Kind;
    #[verifier::external_body]
    pub fn is(&self, k: Kind) -> (r: bool) ensures r == (self.of() == k) { unimplemented!() }
    #[verifier::external_body]
    pub fn other(s: &str) -> (r: IoErr) ensures r.of() == Kind::Other { unimplemented!() }
}
/// a descriptor that takes bytes: any count, any failure
pub trait Write {
    /// what it has taken
    spec fn out(&self) -> Seq<u8>;
    /// how each call of write ended: the error, if there was one
    spec fn log(&self) -> Seq<Option<IoErr>>;
    fn write(&mut self, b: &[u8]) -> (r: Result<usize, IoErr>)
        ensures match r {
            Ok(n) => n <= b@.len() && final(self).out() == old(self).out() + b@.take(n as int) && final(self).log() == old(self).log().push(None),
            Err(e) => final(self).out() == old(self).out() && final(self).log() == old(self).log().push(Some(e)),
        };
}
/// a descriptor that gives bytes: any count, any failure
pub trait Read {
    /// what it has still to give
    spec fn rest(&self) -> Seq<u8>;
    /// its own bookkeeping is in order
    spec fn sound(&self) -> bool;
    fn read(&mut self, b: &mut [u8]) -> (r: Result<usize, IoErr>)
        requires old(self).sound()
        ensures final(self).sound(), final(b)@.len() == old(b)@.len(),
            match r {
                Ok(n) => n <= old(b)@.len() && n <= old(self).rest().len() && final(b)@.take(n as int) == old(self).rest().take(n as int) && final(self).rest() == old(self).rest().skip(n as int)
                    && (n == 0 ==> old(b)@.len() == 0 || old(self).rest().len() == 0),
                Err(e) => final(self).rest() == old(self).rest(),
            };
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// a descriptor with a position
pub trait Seek {
    spec fn here(&self) -> int;
    spec fn size(&self) -> int;
    fn seek(&mut self, p: SeekFrom) -> (r: Result<u64, IoErr>)
        ensures match r {
            Ok(x) => x == goal(p, old(self).here(), old(self).size()) && final(self).here() == x,
            Err(e) => final(self).here() == old(self).here(),
        }, final(self).size() == old(self).size();
}
pub open spec fn goal(p: SeekFrom, here: int, size: int) -> int {
    match p { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => size + n, SeekFrom::Current(n) => here + n }
}
/// the callback that tells whether a signal waits
#[verifier::external_body]
pub struct Signals { x: u8 }
impl Signals {
    pub uninterp spec fn may_wait(&self) -> bool;
    #[verifier::external_body]
    pub fn ask(&self) -> (r: bool) ensures r ==> self.may_wait() { unimplemented!() }
}
#[verifier::external_body]
pub fn tail(s: &[u8], i: usize) -> (r: &[u8]) requires i <= s@.len() ensures r@ == s@.skip(i as int) { &s[i..] }
#[verifier::external_body]
pub fn part(s: &Vec<u8>, i: usize, j: usize) -> (r: &[u8]) requires i <= j <= s@.len() ensures r@ == s@.subrange(i as int, j as int) { &s[i..j] }
#[verifier::external_body]
pub fn drop_front(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { v.drain(..n); }
#[verifier::external_body]
pub fn append(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@, final(v)@.len() <= isize::MAX { v.extend_from_slice(s) }
#[verifier::external_body]
pub fn bytes(b: u8, n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![b; n] }
#[verifier::external_body]
pub fn whole(v: &mut Vec<u8>) -> (r: &mut [u8]) ensures r@ == old(v)@, final(r)@.len() == r@.len() ==> final(v)@ == final(r)@ { v.as_mut_slice() }
#[verifier::external_body]
pub fn copy_front(to: &mut [u8], n: usize, from: &[u8], m: usize)
    requires n == m, n <= old(to)@.len(), m <= from@.len()
    ensures final(to)@ == from@.take(m as int) + old(to)@.skip(n as int)
{ to[..n].copy_from_slice(&from[..m]) }
// ---- the write side -----------------------------------------------------------------------------
/// bytes moved from the front of one place to the back of the next: none lost, repeated or reordered
pub open spec fn moved(out0: Seq<u8>, buf0: Seq<u8>, out1: Seq<u8>, buf1: Seq<u8>) -> bool {
    out0 + buf0 == out1 + buf1 && out0.len() <= out1.len() && buf1.len() <= buf0.len()
}
pub open spec fn retried(o: Option<IoErr>) -> bool { o is None || o->0.of() == Kind::Interrupted }
/// every call but the last went through or was merely interrupted, and the answer reports the last
pub open spec fn told<W: Write>(w0: &W, w1: &W, r: Result<(), DrainErr>, s: &Signals) -> bool {
    let (a, b) = (w0.log(), w1.log());
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& forall|k: int| a.len() <= k < b.len() - 1 ==> retried(#[trigger] b[k])
    &&& match r {
        Ok(_) => b.len() > a.len() ==> retried(b.last()),
        Err(DrainErr::Signal) => s.may_wait() && (b.len() > a.len() ==> retried(b.last())),
        Err(DrainErr::WouldBlock) => b.len() > a.len() && b.last() is Some && b.last()->0.of() == Kind::WouldBlock,
        Err(DrainErr::Io(e)) => b.len() > a.len() && (b.last() is Some ==> b.last()->0 == e && e.of() == Kind::Other),
    }
}
/// the same, so far
pub open spec fn quiet<W: Write>(w0: &W, w1: &W) -> bool {
    let (a, b) = (w0.log(), w1.log());
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& forall|k: int| a.len() <= k < b.len() ==> retried(#[trigger] b[k])
}
pub open spec fn why(w: Result<usize, IoErr>) -> Option<IoErr> { match w { Ok(_) => None, Err(e) => Some(e) } }
pub proof fn quiet_here<W: Write>(w: &W) ensures quiet(w, w) { assert(w.log().take(w.log().len() as int) =~= w.log()); }
pub proof fn quiet_told<W: Write>(w0: &W, w1: &W, w2: &W, r: Result<(), DrainErr>, s: &Signals)
    requires quiet(w0, w1), told(w1, w2, r, s)
    ensures told(w0, w2, r, s)
{
    let (a, b, c) = (w0.log(), w1.log(), w2.log());
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert forall|k: int| a.len() <= k < c.len() && k < b.len() implies retried(#[trigger] c[k]) by { assert(c.take(b.len() as int)[k] == b[k]); }
    if c.len() == b.len() && c.len() > a.len() { assert(c.last() == c[c.len() - 1]); }
}
/// one more call
pub proof fn quiet_more<W: Write>(w0: &W, w1: &W, w2: &W, o: Option<IoErr>)
    requires quiet(w0, w1), w2.log() == w1.log().push(o)
    ensures retried(o) ==> quiet(w0, w2),
        w0.log().len() < w2.log().len(), w2.log().take(w0.log().len() as int) == w0.log(), w2.log().last() == o, forall|k: int| w0.log().len() <= k < w2.log().len() - 1 ==> retried(#[trigger] w2.log()[k])
{
    let (a, b) = (w0.log(), w2.log());
    assert(b.take(a.len() as int) =~= w1.log().take(a.len() as int));
}
@end
@item enum DrainErr
@sub std :: io :: Error ==> IoErr
@item struct WriteBuf
@fn write_direct
    requires *old(progress) <= data@.len()
    ensures *old(progress) <= *final(progress) <= data@.len(),
        final(sink).out() == old(sink).out() + data@.subrange(*old(progress) as int, *final(progress) as int),
        r is Ok ==> *final(progress) == data@.len(),
        told(old(sink), final(sink), r, signal_pending)
@attr #[verifier::exec_allows_no_decreases_clause]
@loop 1
    invariant *old(progress) <= *progress <= data@.len(), sink.out() == old(sink).out() + data@.subrange(*old(progress) as int, *progress as int), quiet(old(sink), sink)
@enter
    proof { quiet_here(sink); assert(sink.out() + data@.subrange(*progress as int, *progress as int) =~= sink.out()); }
@loopenter 1
    let ghost s1 = *sink;
    let ghost p1 = *progress;
@sub match sink . write ( $a ) { ==> let w_ = sink.write($a); proof { quiet_more(old(sink), &s1, sink, why(w_)); if let Ok(n) = w_ { assert(data@.subrange(*old(progress) as int, p1 as int) + data@.skip(p1 as int).take(n as int) =~= data@.subrange(*old(progress) as int, p1 + n)); assert(old(sink).out() + data@.subrange(*old(progress) as int, p1 as int) + data@.skip(p1 as int).take(n as int) =~= old(sink).out() + (data@.subrange(*old(progress) as int, p1 as int) + data@.skip(p1 as int).take(n as int))); } } match w_ {
@impl impl WriteBuf
@verbatim
    /// what is held never fills the buffer
    pub open spec fn ok(&self) -> bool { self.buf@.len() < IO_BUF_CAPA }
@end
@fn new id=WriteBuf::new
    ensures r.buf@.len() == 0, r.sync == sync, r.tty == tty, r.ok()
@fn sync id=WriteBuf::sync
    ensures r == self.sync
@fn set_sync id=WriteBuf::set_sync
    ensures final(self).sync == sync, final(self).buf == old(self).buf, final(self).tty == old(self).tty
@fn buffered_len
    ensures r == self.buf@.len()
@fn writes_through
    ensures r == (self.sync || self.tty)
@fn drain id=WriteBuf::drain
    requires old(self).ok()
    ensures final(self).ok(), final(self).sync == old(self).sync, final(self).tty == old(self).tty,
        moved(old(sink).out(), old(self).buf@, final(sink).out(), final(self).buf@),
        r is Ok ==> final(self).buf@.len() == 0,
        told(old(sink), final(sink), r, signal_pending)
@attr #[verifier::exec_allows_no_decreases_clause]
@sub let res = loop ==> let mut res: Result<(), DrainErr> = Ok(()); loop
@sub break Ok ( ( ) ) ==> { res = Ok(()); break; }
@sub break Err ( $a ) ==> { res = Err($a); break; }
@loop 1
    invariant_except_break quiet(old(sink), sink)
    invariant written <= self.buf@.len(), self.buf == old(self).buf, self.sync == old(self).sync, self.tty == old(self).tty,
        sink.out() == old(sink).out() + old(self).buf@.take(written as int)
    ensures told(old(sink), sink, res, signal_pending), res is Ok ==> written == self.buf@.len()
@enter
    proof { quiet_here(sink); assert(sink.out() + self.buf@.take(0) =~= sink.out()); }
@loopenter 1
    let ghost s1 = *sink;
    let ghost p1 = written;
@sub match sink . write ( $a ) { ==> let w_ = sink.write($a); proof { quiet_more(old(sink), &s1, sink, why(w_)); if let Ok(n) = w_ { assert(self.buf@.take(p1 as int) + self.buf@.skip(p1 as int).take(n as int) =~= self.buf@.take(p1 + n)); assert(old(sink).out() + self.buf@.take(p1 as int) + self.buf@.skip(p1 as int).take(n as int) =~= old(sink).out() + (self.buf@.take(p1 as int) + self.buf@.skip(p1 as int).take(n as int))); } } match w_ {
@lastbefore drop_front
    proof { assert(old(sink).out() + old(self).buf@ =~= (old(sink).out() + old(self).buf@.take(written as int)) + old(self).buf@.skip(written as int)); }
@sub self . buf . drain ( .. $a ) ==> drop_front(&mut self.buf, $a)
@fn write id=WriteBuf::write
    requires old(self).ok(), *old(progress) <= data@.len() <= isize::MAX
    ensures final(self).ok(), final(self).sync == old(self).sync, final(self).tty == old(self).tty, *old(progress) <= *final(progress) <= data@.len(),
        old(sink).out() + old(self).buf@ + data@.subrange(*old(progress) as int, *final(progress) as int) == final(sink).out() + final(self).buf@,
        old(sink).out().len() <= final(sink).out().len(),
        r is Ok ==> *final(progress) == data@.len(),
        // a stream that writes through, or data that does not fit, ends in the file; everything else waits
        old(self).sync || old(self).tty || old(self).buf@.len() + (data@.len() - *old(progress)) >= IO_BUF_CAPA ==> final(self).buf@.len() <= old(self).buf@.len() && (r is Ok ==> final(self).buf@.len() == 0)
            && (*final(progress) > *old(progress) ==> final(self).buf@.len() == 0),
        !(old(self).sync || old(self).tty) && old(self).buf@.len() + (data@.len() - *old(progress)) < IO_BUF_CAPA ==> r is Ok && final(sink).out() == old(sink).out() && final(sink).log() == old(sink).log(),
        told(old(sink), final(sink), r, signal_pending)
@sub self . buf . extend_from_slice ( $a ) ==> append(&mut self.buf, $a)
@enter
    proof { quiet_here(sink); assert(data@.subrange(*progress as int, data@.len() as int) =~= data@.skip(*progress as int)); assert(old(sink).out() + old(self).buf@ + data@.skip(*progress as int) =~= old(sink).out() + (old(self).buf@ + data@.skip(*progress as int))); assert(old(sink).out() + old(self).buf@ + data@.subrange(*progress as int, *progress as int) =~= old(sink).out() + old(self).buf@); }
@sub write_direct ( $a ) ==> let ghost s1 = *sink; proof { assert(quiet(old(sink), sink)); assert(s1.out() + self.buf@ =~= s1.out()); } let r_ = write_direct($a); proof { quiet_told(old(sink), &s1, sink, r_, signal_pending); assert(sink.out() + self.buf@ =~= sink.out()); } r_
@endimpl
@item struct IoWriter
@impl impl < T > IoWriter < T > => impl<T> IoWriter<T>
@fn new id=IoWriter::new
    ensures r.inner == inner, r.buf.buf@.len() == 0, r.buf.sync == sync, r.buf.tty == tty, r.buf.ok()
@fn sync id=IoWriter::sync
    ensures r == self.buf.sync
@fn set_sync id=IoWriter::set_sync
    ensures final(self).buf.sync == sync, final(self).buf.buf == old(self).buf.buf, final(self).buf.tty == old(self).buf.tty, final(self).inner == old(self).inner
@fn get_ref id=IoWriter::get_ref
    ensures *r == self.inner
@endimpl
@impl impl < T : Write > IoWriter < T > => impl<T: Write> IoWriter<T>
@fn drain id=IoWriter::drain
    requires old(self).buf.ok()
    ensures final(self).buf.ok(), final(self).buf.sync == old(self).buf.sync, final(self).buf.tty == old(self).buf.tty,
        moved(old(self).inner.out(), old(self).buf.buf@, final(self).inner.out(), final(self).buf.buf@),
        r is Ok ==> final(self).buf.buf@.len() == 0,
        told(&old(self).inner, &final(self).inner, r, signal_pending)
@fn write id=IoWriter::write
    requires old(self).buf.ok(), *old(progress) <= data@.len() <= isize::MAX
    ensures final(self).buf.ok(), final(self).buf.sync == old(self).buf.sync, final(self).buf.tty == old(self).buf.tty, *old(progress) <= *final(progress) <= data@.len(),
        old(self).inner.out() + old(self).buf.buf@ + data@.subrange(*old(progress) as int, *final(progress) as int) == final(self).inner.out() + final(self).buf.buf@,
        old(self).inner.out().len() <= final(self).inner.out().len(),
        r is Ok ==> *final(progress) == data@.len(),
        (old(self).buf.sync || old(self).buf.tty) && r is Ok ==> final(self).buf.buf@.len() == 0,
        told(&old(self).inner, &final(self).inner, r, signal_pending)
@endimpl
@item struct IoReader
@sub Box < [ u8 ] > ==> Vec<u8>
@impl impl < T > IoReader < T > => impl<T> IoReader<T>
@verbatim
    pub open spec fn ok(&self) -> bool { self.pos <= self.cap <= self.buf@.len() && self.buf@.len() == IO_BUF_CAPA }
    /// read but not yet handed out
    pub open spec fn held(&self) -> Seq<u8> { self.buf@.subrange(self.pos as int, self.cap as int) }
@end
@fn new id=IoReader::new
    ensures r.inner == inner, r.held() == Seq::<u8>::empty(), r.ok()
@sub vec ! [ $a ; $b ] . into_boxed_slice ( ) ==> bytes($a, $b)
@fn buffer
    requires self.ok()
    ensures r@ == self.held()
@sub & self . buf [ $a .. $b ] ==> part(&self.buf, $a, $b)
@fn get_ref id=IoReader::get_ref
    ensures *r == self.inner
@fn get_mut id=IoReader::get_mut
    ensures *r == old(self).inner, final(self).inner == *final(r), final(self).buf == old(self).buf, final(self).pos == old(self).pos, final(self).cap == old(self).cap
@fn into_inner id=IoReader::into_inner
    ensures r == self.inner
@fn discard_buffer
    requires old(self).ok()
    ensures final(self).ok(), final(self).cap == final(self).pos, final(self).held() == Seq::<u8>::empty(), final(self).inner == old(self).inner
@endimpl
@impl impl < T : Read > std :: io :: BufRead for IoReader < T > => impl<T: Read> IoReader<T>
@fn fill_buf
    requires old(self).sound()
    ensures final(self).sound(), final(self).rest() == old(self).rest(),
        r matches Ok(b) ==> b@ == final(self).held() && (b@.len() == 0 ==> old(self).rest().len() == 0),
        old(self).held().len() > 0 ==> r is Ok && *final(self) == *old(self)
@sub self . inner . read ( & mut self . buf ) ==> self.inner.read(whole(&mut self.buf))
@sub & self . buf [ $a .. $b ] ==> part(&self.buf, $a, $b)
@fn consume
    requires old(self).ok(), old(self).pos + n <= usize::MAX
    ensures final(self).ok(), final(self).inner == old(self).inner, final(self).buf == old(self).buf,
        final(self).held() == old(self).held().skip(if n <= old(self).held().len() { n as int } else { old(self).held().len() as int })
@sub ( $a ) . min ( $b ) ==> vmin($a, $b)
@endimpl
@impl impl < T : Read > Read for IoReader < T > => impl<T: Read> Read for IoReader<T>
@verbatim
    /// what the reader has still to give
    open spec fn rest(&self) -> Seq<u8> { self.held() + self.inner.rest() }
    open spec fn sound(&self) -> bool { self.ok() && self.inner.sound() }
@end
@fn read nopub
@sub avail . len ( ) . min ( $a ) ==> vmin(avail.len(), $a)
@sub out [ .. $a ] . copy_from_slice ( & avail [ .. $b ] ) ==> copy_front(out, $a, avail, $b)
@endimpl
@impl impl < T : Seek > Seek for IoReader < T > => impl<T: Seek> IoReader<T>
@verbatim
    /// the position Ruby sees
    pub open spec fn place(&self) -> int { self.inner.here() - (self.cap - self.pos) }
@end
@fn seek
    requires old(self).ok()
    ensures final(self).ok(),
        match r {
            Ok(x) => x == goal(pos, old(self).place(), old(self).inner.size()) && final(self).place() == x && final(self).held().len() == 0,
            Err(_) => final(self).place() == old(self).place(),
        }
@endimpl
@file monoruby/src/value/rvalue/io.rs
@item const READ_CHUNK
@verbatim
// ---- the loops above the buffers -------------------------------------------------------------------
pub uninterp spec fn may_wait() -> bool;
#[verifier::external_body]
pub fn waiting() -> (r: bool) ensures r ==> may_wait() { unimplemented!() }
impl IoErr {
    #[verifier::external_body]
    pub fn interrupted() -> (r: IoErr) ensures r.of() == Kind::Interrupted { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
/// what Ruby code sees of an error: the two that make the call start again, and the rest
pub enum MonorubyErr { Signal, WouldBlock, Io(String) }
impl MonorubyErr {
    pub fn signal_interrupt() -> (r: MonorubyErr) ensures r is Signal { MonorubyErr::Signal }
    pub fn would_block_interrupt() -> (r: MonorubyErr) ensures r is WouldBlock { MonorubyErr::WouldBlock }
    pub fn ioerr(s: String) -> (r: MonorubyErr) ensures r is Io { MonorubyErr::Io(s) }
}
#[verifier::external_body]
pub fn vlen(v: &Vec<u8>) -> (r: usize) ensures r == v@.len(), r <= isize::MAX { v.len() }
#[verifier::external_body]
pub fn resize(v: &mut Vec<u8>, n: usize, b: u8) requires n >= old(v)@.len() ensures final(v)@.len() == n, final(v)@.take(old(v)@.len() as int) == old(v)@ { v.resize(n, b) }
#[verifier::external_body]
pub fn truncate(v: &mut Vec<u8>, n: usize) ensures final(v)@ == if n <= old(v)@.len() { old(v)@.take(n as int) } else { old(v)@ } { v.truncate(n) }
#[verifier::external_body]
pub fn tail_mut(v: &mut Vec<u8>, i: usize) -> (r: &mut [u8])
    requires i <= old(v)@.len()
    ensures r@ == old(v)@.skip(i as int), final(r)@.len() == r@.len() ==> final(v)@ == old(v)@.take(i as int) + final(r)@
{ &mut v[i..] }
#[verifier::external_body]
pub fn head(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body]
pub fn to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
pub open spec fn final_len(n: nat, n0: nat, len: nat) -> bool { n <= if n0 <= len { len } else { n0 } }
pub open spec fn no_byte(s: Seq<u8>, b: u8) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != b }
pub fn find_byte(s: &[u8], b: u8) -> (r: Option<usize>)
    ensures match r { Some(i) => i < s@.len() && s@[i as int] == b && no_byte(s@.take(i as int), b), None => no_byte(s@, b) }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), no_byte(s@.take(i as int), b)
        decreases s@.len() - i
    {
        if s[i] == b { return Some(i); }
        i += 1;
        assert(s@.take(i as int) =~= s@.take(i - 1).push(s@[i - 1]));
    }
    assert(s@.take(i as int) =~= s@);
    None
}
/// n bytes went from the front of one to the end of the other
pub open spec fn gave(rest0: Seq<u8>, out0: Seq<u8>, rest1: Seq<u8>, out1: Seq<u8>) -> bool {
    let n = out1.len() - out0.len();
    0 <= n <= rest0.len() && out1 == out0 + rest0.take(n) && rest1 == rest0.skip(n)
}
pub proof fn gave_more(r0: Seq<u8>, o0: Seq<u8>, r1: Seq<u8>, o1: Seq<u8>, r2: Seq<u8>, o2: Seq<u8>)
    requires gave(r0, o0, r1, o1), gave(r1, o1, r2, o2)
    ensures gave(r0, o0, r2, o2)
{
    let (n, m) = (o1.len() - o0.len(), o2.len() - o1.len());
    assert(r0.take(n) + r0.skip(n).take(m) =~= r0.take(n + m));
    assert(o2 =~= o0 + r0.take(n + m));
    assert(r2 =~= r0.skip(n + m));
}
pub proof fn gave_none(r: Seq<u8>, o: Seq<u8>) ensures gave(r, o, r, o) { assert(o + r.take(0) =~= o); assert(r.skip(0) =~= r); }
@end
@fn read_step
    requires old(reader).sound()
    ensures final(reader).sound(), final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(n) => n <= old(buf)@.len() && n <= old(reader).rest().len() && final(buf)@.take(n as int) == old(reader).rest().take(n as int) && final(reader).rest() == old(reader).rest().skip(n as int)
                && (n == 0 ==> old(buf)@.len() == 0 || old(reader).rest().len() == 0),
            Err(e) => final(reader).rest() == old(reader).rest() && (e.of() == Kind::Interrupted ==> may_wait()),
        }
@attr #[verifier::exec_allows_no_decreases_clause]
@sub signal_pending ( ) ==> waiting()
@loop 1
    invariant reader.sound(), buf@.len() == old(buf)@.len(), reader.rest() == old(reader).rest()
@sub Err ( e ) if $g => continue , r => return r , ==> Err(e) => { if $g { continue; } return Err(e); } r => return r,
@fn read_upto
    requires old(reader).sound()
    ensures final(reader).sound(), gave(old(reader).rest(), old(out)@, final(reader).rest(), final(out)@),
        final(out)@.len() <= if old(out)@.len() <= len { len as nat } else { old(out)@.len() },
        match r { Ok(_) => final(out)@.len() >= len || final(reader).rest().len() == 0, Err(e) => e.of() == Kind::Interrupted ==> may_wait() }
@sub signal_pending ( ) ==> waiting()
@sub ( len - out . len ( ) ) . min ( $b ) ==> vmin(len - vlen(out), $b)
@sub out . len ( ) ==> vlen(out)
@enter
    proof { gave_none(reader.rest(), out@); }
@loop 1
    invariant reader.sound(), gave(old(reader).rest(), old(out)@, reader.rest(), out@), final_len(out@.len(), old(out)@.len(), len as nat)
    ensures out@.len() >= len || reader.rest().len() == 0
    decreases len - out@.len()
@loopenter 1
    let ghost o1 = out@;
    let ghost r1 = reader.rest();
@sub let n = match read_step ( reader , & mut out [ start .. ] ) { Ok ( n ) => n , Err ( e ) => { ==> let s_ = read_step(reader, tail_mut(out, start)); proof { assert(out@.take(start as int) =~= o1); } let n = match s_ { Ok(n) => n, Err(e) => { proof { assert(out@.take(start as int) =~= o1); }
@sub out . truncate ( start + n ) ; ==> proof { assert(out@.take(start + n) =~= o1 + r1.take(n as int)); } truncate(out, start + n); proof { gave_more(old(reader).rest(), old(out)@, r1, o1, reader.rest(), out@); }
@sub out . truncate ( start ) ==> truncate(out, start)
@fn read_all
    requires old(reader).sound()
    ensures final(reader).sound(), gave(old(reader).rest(), old(out)@, final(reader).rest(), final(out)@),
        match r { Ok(_) => final(reader).rest().len() == 0, Err(e) => e.of() == Kind::Interrupted ==> may_wait() }
@attr #[verifier::exec_allows_no_decreases_clause]
@sub signal_pending ( ) ==> waiting()
@sub out . len ( ) ==> vlen(out)
@enter
    proof { gave_none(reader.rest(), out@); }
@loop 1
    invariant reader.sound(), gave(old(reader).rest(), old(out)@, reader.rest(), out@)
@loopenter 1
    let ghost o1 = out@;
    let ghost r1 = reader.rest();
@sub let n = match read_step ( reader , & mut out [ start .. ] ) { Ok ( n ) => n , Err ( e ) => { ==> let s_ = read_step(reader, tail_mut(out, start)); proof { assert(out@.take(start as int) =~= o1); } let n = match s_ { Ok(n) => n, Err(e) => {
@sub out . truncate ( start + n ) ; ==> proof { assert(out@.take(start + n) =~= o1 + r1.take(n as int)); } truncate(out, start + n); proof { gave_more(old(reader).rest(), old(out)@, r1, o1, reader.rest(), out@); }
@sub out . truncate ( start ) ==> truncate(out, start)
@fn read_until_step
    requires old(reader).sound()
    ensures final(reader).sound(), gave(old(reader).rest(), old(out)@, final(reader).rest(), final(out)@),
        match r {
            Ok(n) => n == final(out)@.len() - old(out)@.len() && (if n > 0 && final(out)@.last() == delim { no_byte(old(reader).rest().take(n - 1), delim) } else { no_byte(old(reader).rest(), delim) && final(reader).rest().len() == 0 }),
            Err(e) => no_byte(final(out)@.skip(old(out)@.len() as int), delim) && (e.of() == Kind::Interrupted ==> may_wait()),
        }
@attr #[verifier::exec_allows_no_decreases_clause]
@sub signal_pending ( ) ==> waiting()
@sub reader : & mut impl BufRead ==> reader: &mut IoReader<impl Read>
@sub let mut total = 0 ; ==> let mut total: usize = 0;
@sub avail . iter ( ) . position ( | & b | b == $d ) ==> find_byte(avail, $d)
@sub & avail [ ..= $i ] ==> head(avail, $i + 1)
@sub out . extend_from_slice ( $a ) ==> append(out, $a)
@enter
    proof { gave_none(reader.rest(), out@); }
@loop 1
    invariant reader.sound(), gave(old(reader).rest(), old(out)@, reader.rest(), out@), total == out@.len() - old(out)@.len(), no_byte(old(reader).rest().take(total as int), delim)
@loopenter 1
    let ghost o1 = out@;
    let ghost r1 = reader.rest();
    let ghost t1 = total as int;
    proof { assert(out@.skip(old(out)@.len() as int) =~= old(reader).rest().take(total as int)); }
@before reader . consume ( used ) ;
    let ghost h1 = reader.held();
    proof { assert(reader.rest() == r1); assert(h1.take(used as int) =~= r1.take(used as int)); if !found { assert(h1.take(used as int) =~= h1); } }
@sub total += used ; ==> proof { assert(reader.held() =~= h1.skip(used as int)); assert(reader.rest() =~= r1.skip(used as int)); assert(out@ =~= o1 + r1.take(used as int)); gave_more(old(reader).rest(), old(out)@, r1, o1, reader.rest(), out@); assert(old(reader).rest().skip(t1).take(used as int) =~= r1.take(used as int)); assert(old(reader).rest().take(t1 + used) =~= old(reader).rest().take(t1) + h1.take(used as int)); if used == 0 { assert(r1.len() == 0); assert(old(reader).rest().take(t1) =~= old(reader).rest()); if t1 > 0 { assert(out@.last() == old(reader).rest()[t1 - 1]); assert(old(reader).rest().take(t1)[t1 - 1] != delim); } } if found { assert(h1.take(used - 1) =~= h1.take(used as int).take(used - 1)); assert(old(reader).rest().take(t1 + used - 1) =~= old(reader).rest().take(t1) + h1.take(used - 1)); assert(out@.last() == h1[used - 1]); } } total += used;
@fn read_partial_chunk
    requires old(reader).sound()
    ensures final(reader).sound(),
        match r {
            Ok(c) => gave(old(reader).rest(), Seq::empty(), final(reader).rest(), c@) && c@.len() <= need && (c@.len() == 0 ==> need == 0 || no_block || old(reader).rest().len() == 0)
                && (no_block ==> final(reader).inner == old(reader).inner),
            Err(e) => final(reader).rest() == old(reader).rest() && !no_block && (e is Signal ==> may_wait()),
        }
@attr #[verifier::exec_allows_no_decreases_clause]
@sub signal_pending ( ) ==> waiting()
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@sub avail . len ( ) . min ( $a ) ==> vmin(avail.len(), $a)
@sub avail [ .. $n ] . to_vec ( ) ==> to_vec(head(avail, $n))
@before reader . consume ( n ) ;
    let ghost h1 = reader.held();
    let ghost r1 = reader.rest();
@before Ok ( chunk )
    proof { assert(r1 == old(reader).rest()); assert(reader.rest() =~= r1.skip(n as int)); assert(chunk@ =~= Seq::<u8>::empty() + r1.take(n as int)); }
@loop 1
    invariant_except_break !no_block, reader.rest() == old(reader).rest(), reader.sound()
    ensures reader.rest() == old(reader).rest(), reader.sound(), reader.held().len() == 0 ==> old(reader).rest().len() == 0
@fn swallow_newlines
    requires old(reader).sound()
    ensures final(reader).sound(), exists|n: int| newlines(old(reader).rest(), n) && final(reader).rest() == old(reader).rest().skip(n)
@attr #[verifier::exec_allows_no_decreases_clause]
@sub reader : & mut impl BufRead ==> reader: &mut IoReader<impl Read>
@sub Ok ( avail ) if avail . first ( ) == Some ( & b'\n' ) => reader . consume ( 1 ) , _ => return , ==> Ok(avail) => { if first_is(avail, b'\n') { let ghost h1 = avail@; proof { assert(old(reader).rest().skip(n_)[0] == h1[0]); } reader.consume(1); proof { assert(reader.rest() =~= (h1 + reader.inner.rest()).skip(1)); assert(reader.rest() =~= old(reader).rest().skip(n_ + 1)); n_ = n_ + 1; } } else { return; } } Err(_) => return,
@enter
    let ghost mut n_: int = 0;
    proof { assert(reader.rest().skip(0) =~= reader.rest()); }
@loop 1
    invariant reader.sound(), newlines(old(reader).rest(), n_), reader.rest() == old(reader).rest().skip(n_)
@verbatim
/// the first n bytes are newlines
pub open spec fn newlines(s: Seq<u8>, n: int) -> bool { 0 <= n <= s.len() && forall|k: int| 0 <= k < n ==> #[trigger] s[k] == 10u8 }
pub fn first_is(s: &[u8], b: u8) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == b) { s.len() > 0 && s[0] == b }
// ---- cutting lines ---------------------------------------------------------------------------------
pub open spec fn follows(b: u8) -> bool { b & 0b1100_0000 == 0b1000_0000 }
/// the length of the character a first byte announces
pub open spec fn announced(b: u8) -> int { if 0xc0 <= b <= 0xdf { 2 } else if 0xe0 <= b <= 0xef { 3 } else if 0xf0 <= b <= 0xf7 { 4 } else { 1 } }
/// bytes missing of the last character, whose first byte is at most three from the end; k - 1 bytes from the end on only follow
pub open spec fn missing(s: Seq<u8>, k: int) -> int
    decreases 4 - k
{
    if k > 3 || k > s.len() { 0 }
    else if follows(s[s.len() - k]) { missing(s, k + 1) }
    else if announced(s[s.len() - k]) > k { announced(s[s.len() - k]) - k }
    else { 0 }
}
/// where a line cut at n ends when its last character is finished, within k more bytes
pub open spec fn finish(s: Seq<u8>, n: int, k: int) -> int
    decreases k
{
    if k <= 0 || n >= s.len() || missing(s.take(n), 1) == 0 { n } else { finish(s, n + 1, k - 1) }
}
pub open spec fn ends(s: Seq<u8>, t: Seq<u8>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
pub enum Stop { End, Cut, Sep }
/// where the line with n bytes taken ends, and why
pub open spec fn scan(s: Seq<u8>, sep: Seq<u8>, lim: Option<usize>, n: int) -> (int, Stop)
    decreases s.len() - n
{
    if lim is Some && n >= lim->0 { (n, Stop::Cut) }
    else if n >= s.len() { (n, Stop::End) }
    else if ends(s.take(n + 1), sep) { (n + 1, Stop::Sep) }
    else { scan(s, sep, lim, n + 1) }
}
pub open spec fn cut(s: Seq<u8>, sep: Seq<u8>, lim: Option<usize>, n: int, utf8: bool) -> int {
    let (m, why) = scan(s, sep, lim, n);
    if why is Cut && utf8 { finish(s, m, 16) } else { m }
}
pub open spec fn strip(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() > 0 && s[0] == 10 { strip(s.skip(1)) } else { s }
}
pub open spec fn blank() -> Seq<u8> { seq![10u8, 10u8] }
/// the next paragraph, and what is left after the blank lines behind it
pub open spec fn para(s: Seq<u8>, lim: Option<usize>, utf8: bool) -> Option<(Seq<u8>, Seq<u8>)> {
    let t = strip(s);
    if t.len() == 0 { None } else { let m = cut(t, blank(), lim, 1, utf8); Some((t.take(m), if scan(t, blank(), lim, 1).1 is Sep { strip(t.skip(m)) } else { t.skip(m) })) }
}
pub proof fn strip_skip(s: Seq<u8>, n: int)
    requires newlines(s, n)
    ensures strip(s.skip(n)) == strip(s)
    decreases n
{
    if n > 0 {
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
        assert(s[0] == 10);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] s.skip(1)[k] == 10u8 by { assert(s[k + 1] == 10u8); }
        strip_skip(s.skip(1), n - 1);
    } else { assert(s.skip(0) =~= s); }
}
pub proof fn strip_first(s: Seq<u8>) ensures strip(s).len() > 0 ==> strip(s)[0] != 10, strip(s).len() <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] == 10 { strip_first(s.skip(1)); } }
pub proof fn strip_twice(s: Seq<u8>) ensures strip(strip(s)) == strip(s) { strip_first(s); }
pub proof fn finish_in(s: Seq<u8>, n: int, k: int) requires 0 <= n <= s.len() ensures n <= finish(s, n, k) <= s.len() decreases k
{ if !(k <= 0 || n >= s.len() || missing(s.take(n), 1) == 0) { finish_in(s, n + 1, k - 1); } }
pub proof fn scan_in(s: Seq<u8>, sep: Seq<u8>, lim: Option<usize>, n: int)
    requires 0 <= n <= s.len()
    ensures n <= scan(s, sep, lim, n).0 <= s.len()
    decreases s.len() - n
{ if !(lim is Some && n >= lim->0) && n < s.len() && !ends(s.take(n + 1), sep) { scan_in(s, sep, lim, n + 1); } }
/// a line that ends with its separator ends there whatever follows
pub proof fn scan_prefix(s: Seq<u8>, t: Seq<u8>, sep: Seq<u8>, lim: Option<usize>, n: int)
    requires 0 <= n <= s.len(), scan(s, sep, lim, n).1 is Sep, t.len() >= scan(s, sep, lim, n).0, t.take(scan(s, sep, lim, n).0) == s.take(scan(s, sep, lim, n).0)
    ensures scan(t, sep, lim, n) == scan(s, sep, lim, n)
    decreases s.len() - n
{
    let m = scan(s, sep, lim, n).0;
    scan_in(s, sep, lim, n);
    if !(lim is Some && n >= lim->0) && n < s.len() {
        if !ends(s.take(n + 1), sep) { scan_in(s, sep, lim, n + 1); }
        assert(s.take(n + 1) =~= s.take(m).take(n + 1));
        assert(t.take(n + 1) =~= t.take(m).take(n + 1));
        if !ends(s.take(n + 1), sep) { scan_prefix(s, t, sep, lim, n + 1); }
    }
}
/// the first newline is where the line ends
pub proof fn scan_line(s: Seq<u8>, t: Seq<u8>, v: Seq<u8>, n: int)
    requires one_line(s, t, Some(v)), 0 <= n < v.len()
    ensures scan(s, seq![10u8], None, n).0 == v.len(), !(scan(s, seq![10u8], None, n).1 is Cut)
    decreases v.len() - n
{
    gaves(s);
    let w = s.take(n + 1);
    assert(w.skip(w.len() - 1) =~= seq![w[n]]);
    assert(w[n] == v[n]);
    if n + 1 == v.len() {
        assert(v.last() == v[n]);
        if ends(w, seq![10u8]) {} else {
            if v[n] == 10 { assert(seq![w[n]] =~= seq![10u8]); }
            assert(t.len() == 0);
            assert(scan(s, seq![10u8], None, n + 1) == (n + 1, Stop::End));
        }
    } else {
        if v.last() == 10 { assert(v.take(v.len() - 1)[n] != 10); } else { assert(v[n] != 10); }
        assert(seq![w[n]][0] != 10);
        if ends(w, seq![10u8]) { assert(seq![w[n]] == seq![10u8]); assert(seq![10u8][0] == 10); }
        scan_line(s, t, v, n + 1);
    }
}
/// one byte from the front of the one to the end of the other
pub proof fn shift(a: Seq<u8>, s: Seq<u8>, w: Seq<u8>)
    requires a + s == w
    ensures a == w.take(a.len() as int), s == w.skip(a.len() as int), s.len() > 0 ==> a.push(s[0]) + s.skip(1) == w && a.push(s[0]) == w.take(a.len() as int + 1)
{
    assert(a =~= w.take(a.len() as int));
    assert(s =~= w.skip(a.len() as int));
    if s.len() > 0 { assert(a.push(s[0]) + s.skip(1) =~= w); assert(a.push(s[0]) =~= w.take(a.len() as int + 1)); }
}
/// paragraphs are the same when only blank lines before or behind the first go
pub proof fn para_same(t: Seq<u8>, k: int, n: int, lim: Option<usize>, utf8: bool)
    requires t.len() > 0, t[0] != 10, scan(t, blank(), lim, 1) == (n, Stop::Sep), 0 <= n <= t.len(), newlines(t.skip(n), k)
    ensures para(t.take(n) + t.skip(n + k), lim, utf8) == para(t, lim, utf8)
{
    scan_in(t, blank(), lim, 1);
    let u = t.take(n) + t.skip(n + k);
    assert(u[0] == t[0]);
    assert(u.take(n) =~= t.take(n));
    scan_prefix(t, u, blank(), lim, 1);
    assert(u.skip(n) =~= t.skip(n).skip(k));
    strip_skip(t.skip(n), k);
}
pub fn is_lim(l: Option<usize>, n: usize) -> (r: bool) ensures r == (l == Some(n)) { match l { Some(m) => m == n, None => false } }
pub fn over(l: Option<usize>, n: usize) -> (r: bool) ensures r == (l is Some && n >= l->0) { match l { Some(m) => n >= m, None => false } }
#[verifier::external_body]
pub fn ends_with(v: &[u8], t: &[u8]) -> (r: bool) ensures r == ends(v@, t@) { v.ends_with(t) }
#[verifier::external_body]
pub fn ends_blank(v: &[u8]) -> (r: bool) ensures r == ends(v@, blank()) { v.ends_with(b"\n\n") }
#[verifier::external_body]
pub fn is_newline(v: &[u8]) -> (r: bool) ensures r == (v@ == seq![10u8]) { v == b"\n" }
#[verifier::external_body]
pub fn just(b: u8) -> (r: Vec<u8>) ensures r@ == seq![b] { vec![b] }
// ---- IO objects ------------------------------------------------------------------------------------
impl IoErr {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: Kind) ensures r == self.of() { unimplemented!() }
}
impl MonorubyErr {
    pub open spec fn restarts(&self) -> bool { self is Signal || self is WouldBlock }
    pub fn is_signal_interrupt(&self) -> (r: bool) ensures r == (self is Signal) { match self { MonorubyErr::Signal => true, _ => false } }
    pub fn is_would_block_interrupt(&self) -> (r: bool) ensures r == (self is WouldBlock) { match self { MonorubyErr::WouldBlock => true, _ => false } }
    #[verifier::external_body]
    pub fn raised() -> (r: MonorubyErr) ensures r is Io { unimplemented!() }
}
/// the fields the reading functions touch; one device type stands for the three of the original
pub struct FileDescriptor<D> { pub reader: IoReader<D>, pub readable: bool, pub pushback: Vec<u8> }
pub struct PopenDescriptor<D> { pub reader: Option<IoReader<D>>, pub pushback: Vec<u8> }
pub struct IoInner<D> { pub kind: IoKind<D>, pub stdin: IoReader<D> }
#[verifier::external_body]
pub fn take_front(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= old(v)@.len() ensures r@ == old(v)@.take(n as int), final(v)@ == old(v)@.skip(n as int) { v.drain(..n).collect() }
#[verifier::external_body]
pub fn put_front(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == s@ + old(v)@ { v.splice(0..0, s.iter().copied()); }
pub fn no_bytes() -> (r: Vec<u8>) ensures r@ == Seq::<u8>::empty() { Vec::new() }
pub fn first_byte(v: &Vec<u8>) -> (r: Option<u8>) ensures r == if v@.len() > 0 { Some(v@[0]) } else { None } { if v.len() > 0 { Some(v[0]) } else { None } }
pub open spec fn suffix(a: Seq<u8>, b: Seq<u8>) -> bool { b.len() <= a.len() && b == a.skip(a.len() - b.len()) }
impl<D: Read> IoInner<D> {
    /// streams with a place for bytes pushed back
    pub open spec fn holds(&self) -> bool { self.kind is File || self.kind is Popen }
    pub open spec fn pushable(&self) -> bool { match self.kind { IoKind::File(f) => f.readable, IoKind::Popen(_) => true, _ => false } }
    pub open spec fn opened(&self) -> bool { match self.kind { IoKind::File(f) => f.readable, IoKind::Popen(p) => p.reader is Some, IoKind::Stdin => true, _ => false } }
    pub open spec fn able(&self) -> bool { match self.kind { IoKind::File(f) => f.readable, IoKind::Popen(_) => true, IoKind::Stdin => true, _ => false } }
    pub open spec fn pb(&self) -> Seq<u8> { match self.kind { IoKind::File(f) => f.pushback@, IoKind::Popen(p) => p.pushback@, _ => Seq::empty() } }
    pub open spec fn under(&self) -> Seq<u8> {
        match self.kind {
            IoKind::File(f) => f.reader.rest(),
            IoKind::Popen(p) => match p.reader { Some(d) => d.rest(), None => Seq::empty() },
            IoKind::Stdin => self.stdin.rest(),
            _ => Seq::empty(),
        }
    }
    /// what the stream has still to give
    pub open spec fn stream(&self) -> Seq<u8> { self.pb() + self.under() }
    pub open spec fn sound(&self) -> bool {
        &&& self.stdin.sound()
        &&& match self.kind { IoKind::File(f) => f.reader.sound() && (!f.readable ==> f.pushback@.len() == 0), IoKind::Popen(p) => p.reader is Some ==> p.reader->0.sound(), _ => true }
    }
    /// read ahead of the descriptor
    pub open spec fn ahead(&self) -> Seq<u8> { match self.kind { IoKind::File(f) => f.reader.held(), _ => Seq::empty() } }
}
/// all but the bytes pushed back is the same
pub open spec fn but_pb<D>(a: IoInner<D>, b: IoInner<D>) -> bool {
    a.stdin == b.stdin && match (a.kind, b.kind) {
        (IoKind::File(f), IoKind::File(g)) => f.reader == g.reader && f.readable == g.readable,
        (IoKind::Popen(p), IoKind::Popen(q)) => p.reader == q.reader,
        (x, y) => x == y,
    }
}
/// the same sort of stream
pub open spec fn like<D>(a: IoInner<D>, b: IoInner<D>) -> bool {
    match (a.kind, b.kind) {
        (IoKind::File(f), IoKind::File(g)) => f.readable == g.readable,
        (IoKind::Popen(p), IoKind::Popen(q)) => p.reader is Some == q.reader is Some,
        (x, y) => x == y,
    }
}
/// a read of the stream s (of the pushed-back and the other bytes) that gave v or failed
pub open spec fn read_ok<D: Read>(a: IoInner<D>, b: IoInner<D>, length: Option<usize>, v: Seq<u8>) -> bool {
    &&& gave(a.stream(), Seq::empty(), b.stream(), v)
    &&& match length { Some(n) => v.len() <= n && (v.len() == n || b.stream().len() == 0), None => b.stream().len() == 0 }
}
pub open spec fn read_bad<D: Read>(a: IoInner<D>, b: IoInner<D>, e: MonorubyErr) -> bool {
    &&& e.restarts() && a.holds() ==> b.stream() == a.stream()
    &&& suffix(a.stream(), b.stream())
    &&& e is Signal ==> may_wait()
}
pub proof fn gaves(s: Seq<u8>)
    ensures forall|t: Seq<u8>, v: Seq<u8>| #[trigger] gave(s, Seq::empty(), t, v) ==> v + t == s && suffix(s, t) && v == s.take(v.len() as int), suffix(s, s), gave(s, Seq::empty(), s, Seq::empty())
{
    gave_none(s, Seq::empty());
    assert(s.skip(0) =~= s);
    assert forall|t: Seq<u8>, v: Seq<u8>| #[trigger] gave(s, Seq::empty(), t, v) implies v + t == s && suffix(s, t) && v == s.take(v.len() as int) by {
        assert(v =~= s.take(v.len() as int));
        assert(v + t =~= s);
    }
}
pub proof fn adds()
    ensures forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 ==> #[trigger] (a + b) == b, forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 ==> #[trigger] (a + b) == a
{
    assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
    assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); }
}
/// what was held went first, then what the descriptor gave
pub proof fn two_parts(h: Seq<u8>, i: Seq<u8>, n: int, i1: Seq<u8>, o: Seq<u8>)
    requires 0 <= n <= h.len(), gave(i, h.take(n), i1, o), n == h.len() || o.len() == n
    ensures gave(h + i, Seq::empty(), h.skip(n) + i1, o)
{
    let m = o.len() - n;
    assert(o =~= Seq::<u8>::empty() + (h + i).take(n + m));
    assert(h.skip(n) + i1 =~= (h + i).skip(n + m));
}
pub open spec fn ov(r: Option<Vec<u8>>) -> Option<Seq<u8>> { match r { Some(v) => Some(v@), None => None } }
/// up to and with the first newline, or all there is
pub open spec fn one_line(s: Seq<u8>, t: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    match r {
        None => s.len() == 0 && t.len() == 0,
        Some(v) => v.len() > 0 && gave(s, Seq::empty(), t, v) && if v.last() == 10u8 { no_byte(v.take(v.len() - 1), 10) } else { no_byte(v, 10) && t.len() == 0 },
    }
}
pub proof fn gave_whole(p: Seq<u8>, t: Seq<u8>) requires t.len() == 0 ensures gave(p, Seq::empty(), t, p)
{ assert(Seq::<u8>::empty() + p.take(p.len() as int) =~= p); assert(t =~= p.skip(p.len() as int)); }
pub proof fn line_joined(p: Seq<u8>, u0: Seq<u8>, u1: Seq<u8>, r: Option<Seq<u8>>)
    requires one_line(u0, u1, r), p.len() > 0, no_byte(p, 10)
    ensures one_line(p + u0, u1, Some(match r { Some(v) => p + v, None => p }))
{
    hide(gave);
    match r {
        Some(v) => {
            joined(p, u0, u1, v);
            let x = p + v;
            assert(x.last() == v.last());
            if v.last() == 10 {
                let y = v.take(v.len() - 1);
                assert(x.take(x.len() - 1) =~= p + y);
                assert forall|k: int| 0 <= k < (p + y).len() implies #[trigger] (p + y)[k] != 10 by { if k < p.len() { assert(p[k] != 10); } else { assert(y[k - p.len()] != 10); } }
            } else {
                assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] != 10 by { if k < p.len() { assert(p[k] != 10); } else { assert(v[k - p.len()] != 10); } }
            }
        }
        None => { assert(p + u0 =~= p); gave_whole(p, u1); assert(p.last() == p[p.len() - 1]); }
    }
}
pub proof fn line_below<D: Read>(a: IoInner<D>, b: IoInner<D>, p: Seq<u8>, r: Result<Option<Vec<u8>>, MonorubyErr>)
    requires a.pb().len() == 0, like(a, b), p.len() > 0, no_byte(p, 10),
        match r { Ok(v) => b.pb() == a.pb() && one_line(a.under(), b.under(), ov(v)), Err(e) => (e is Signal ==> may_wait()) && fell(a.under(), a.pb(), b.under(), b.pb(), e.restarts() && a.holds()) }
    ensures (p + a.under()).skip(0) == p + a.under(), (p + b.pb()) + b.under() == p + b.stream(),
        match r {
            Ok(v) => b.stream() == b.under() && one_line(p + a.under(), b.stream(), Some(match v { Some(x) => p + x@, None => p })),
            Err(e) => suffix(p + a.under(), b.stream()) && (e.restarts() && a.holds() ==> p + b.stream() == p + a.under()),
        }
{
    adds();
    assert((p + a.under()).skip(0) =~= p + a.under());
    assert((p + b.pb()) + b.under() =~= p + b.stream());
    match r {
        Ok(v) => { line_joined(p, a.under(), b.under(), ov(v)); }
        Err(e) => { let (s, t) = (p + a.under(), b.stream()); failed(a, b, e); assert(t =~= s.skip(s.len() - t.len())); }
    }
}
/// bytes read before a failure: put back in front of the others, or lost
pub open spec fn fell(u0: Seq<u8>, p0: Seq<u8>, u1: Seq<u8>, p1: Seq<u8>, back: bool) -> bool {
    exists|v: Seq<u8>| #[trigger] gave(u0, Seq::empty(), u1, v) && p1 == if back { v + p0 } else { p0 }
}
/// what the failure of a read below the pushed-back bytes v0 means for the stream
pub proof fn failed<D: Read>(a: IoInner<D>, b: IoInner<D>, e: MonorubyErr)
    requires a.pb().len() == 0, like(a, b), e is Signal ==> may_wait(),
        fell(a.under(), a.pb(), b.under(), b.pb(), e.restarts() && a.holds())
    ensures read_bad(a, b, e)
{
    gaves(a.under()); adds(); gaves(a.stream());
}
/// pushed-back bytes p in front of what a read below them gave
pub proof fn joined(p: Seq<u8>, u0: Seq<u8>, u1: Seq<u8>, v: Seq<u8>)
    requires gave(u0, Seq::empty(), u1, v)
    ensures gave(p + u0, Seq::empty(), u1, p + v)
{
    assert(p + v =~= Seq::<u8>::empty() + (p + u0).take((p + v).len() as int));
    assert(u1 =~= (p + u0).skip((p + v).len() as int));
}
pub proof fn front(p: Seq<u8>, u: Seq<u8>, q: Seq<u8>, v: Seq<u8>)
    requires gave(p, Seq::empty(), q, v)
    ensures gave(p + u, Seq::empty(), q + u, v)
{
    assert(v =~= Seq::<u8>::empty() + (p + u).take(v.len() as int));
    assert(q + u =~= (p + u).skip(v.len() as int));
}
pub proof fn below<D: Read>(a: IoInner<D>, b: IoInner<D>, p: Seq<u8>, r: Result<Vec<u8>, MonorubyErr>)
    requires a.pb().len() == 0, like(a, b),
        match r { Ok(v) => b.pb() == a.pb() && gave(a.under(), Seq::empty(), b.under(), v@), Err(e) => (e is Signal ==> may_wait()) && fell(a.under(), a.pb(), b.under(), b.pb(), e.restarts() && a.holds()) }
    ensures a.stream() == a.under(),
        match r {
            Ok(v) => b.stream() == b.under() && gave(p + a.under(), Seq::empty(), b.stream(), p + v@),
            Err(e) => read_bad(a, b, e) && suffix(p + a.under(), b.stream()),
        }
{
    adds();
    match r {
        Ok(v) => { joined(p, a.under(), b.under(), v@); }
        Err(e) => {
            failed(a, b, e);
            let (s, t) = (p + a.under(), b.stream());
            assert(t =~= s.skip(s.len() - t.len()));
        }
    }
}
pub proof fn suffix_skip(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures suffix(s, s.skip(n)) {}
pub proof fn empty_add(s: Seq<u8>) ensures Seq::<u8>::empty() + s == s { assert(Seq::<u8>::empty() + s =~= s); }
@end
@fn utf8_missing_bytes
    ensures r == missing(buf@, 1)
@sub for i in ( start .. len ) . rev ( ) { ==> let mut k_: usize = 0; while k_ < len - start { k_ = k_ + 1; let i = len - k_;
@loop 1
    invariant len == buf@.len(), start == if len >= 3 { len - 3 } else { 0 }, k_ <= len - start, missing(buf@, k_ + 1) == missing(buf@, 1)
    decreases len - start - k_
@fn is_interrupt_kind
    ensures r == (kind == Kind::Interrupted || kind == Kind::WouldBlock)
@fn interrupt_marker
    ensures kind == Kind::WouldBlock ==> r is WouldBlock, kind != Kind::WouldBlock ==> r is Signal
@fn map_read_err
    ensures e.of() == Kind::WouldBlock ==> r is WouldBlock, e.of() == Kind::Interrupted ==> r is Signal, e.of() == Kind::Other ==> r is Io
@sub e : std :: io :: Error , f : impl FnOnce ( String ) -> MonorubyErr ==> e: IoErr
@sub f ( $x ) } ==> MonorubyErr::raised() }
@item enum IoKind
@sub enum IoKind ==> enum IoKind<D>
@sub Rc < FileDescriptor > ==> FileDescriptor<D>
@sub Rc < PopenDescriptor > ==> PopenDescriptor<D>
@sub Closed ( Option < Box < String >> ) ==> Closed
@impl impl IoInner => impl<D: Read> IoInner<D>
@verbatim
    #[verifier::external_body]
    fn flush_wbuf_before_read(&self) -> (r: Result<(), MonorubyErr>) ensures r matches Err(e) ==> e is Signal ==> may_wait() { unimplemented!() }
@end
@fn pushback_len
    ensures r == self.pb().len()
@fn pushback_cell
    ensures r is Some == old(self).holds(),
        r matches Some(p) ==> p@ == old(self).pb() && final(self).pb() == final(p)@ && but_pb(*old(self), *final(self)),
        r is None ==> *final(self) == *old(self)
@sub & self ==> &mut self
@sub Option < & RefCell < Vec < u8 >>> ==> Option<&mut Vec<u8>>
@sub Some ( & $f . pushback ) ==> Some(&mut $f.pushback)
@fn unget
    requires old(self).sound()
    ensures final(self).sound(),
        match r {
            Ok(_) => old(self).pushable() && final(self).pb() == bytes@ + old(self).pb() && but_pb(*old(self), *final(self)),
            Err(e) => !old(self).pushable() && e is Io && *final(self) == *old(self),
        }
@sub -> Result < ( ) > ==> -> Result<(), MonorubyErr>
@sub pb . splice ( 0 .. 0 , bytes . iter ( ) . copied ( ) ) ==> put_front(pb, bytes)
@fn take_pushback
    requires old(self).sound()
    ensures final(self).sound(), but_pb(*old(self), *final(self)), gave(old(self).pb(), Seq::empty(), final(self).pb(), r@),
        r@.len() == match max { Some(m) => if m <= old(self).pb().len() { m as nat } else { old(self).pb().len() }, None => old(self).pb().len() }
@enter
    proof { gaves(self.pb()); }
@sub m . min ( $x ) ==> vmin(m, $x)
@sub pb . drain ( .. $n ) . collect ( ) ==> take_front(pb, $n)
@fn read_underlying id=read_underlying_interrupted closure=1
    ensures kind == Kind::WouldBlock ==> r is WouldBlock, kind != Kind::WouldBlock ==> r is Signal,
        pushback matches Some(p) ==> final(p)@ == partial@ + p@
@head fn put_back(kind: Kind, partial: Vec<u8>, pushback: Option<&mut Vec<u8>>) -> MonorubyErr
@sub if ! partial . is_empty ( ) && let Some ( cell ) = pushback { cell . borrow_mut ( ) . splice ( 0 .. 0 , partial ) ; } ==> if let Some(cell) = pushback { if !partial.is_empty() { put_front(cell, partial.as_slice()); } else { proof { assert(partial@ + cell@ =~= cell@); } } }
@fn read_underlying
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(v) => old(self).opened() && final(self).pb() == old(self).pb() && gave(old(self).under(), Seq::empty(), final(self).under(), v@)
                && match length { Some(n) => v@.len() <= n && (v@.len() == n || final(self).under().len() == 0), None => final(self).under().len() == 0 },
            Err(e) => (e is Signal ==> may_wait()) && fell(old(self).under(), old(self).pb(), final(self).under(), final(self).pb(), e.restarts() && old(self).holds()),
        },
        // an exact read takes no more off the descriptor than it hands out
        exact && length is Some ==> final(self).ahead() == old(self).ahead().skip(if length->0 <= old(self).ahead().len() { length->0 as int } else { old(self).ahead().len() as int }) || (r is Err && *final(self) == *old(self))
@lift 1 ==> ()
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@sub interrupted ( $a , $b , Some ( & $f . pushback ) ) ==> Self::put_back($a, $b, Some(&mut $f.pushback))
@enter
    hide(gave);
    proof { gave_none(self.under(), Seq::empty()); assert(Seq::<u8>::empty() + self.pb() =~= self.pb()); }
@sub let mut buf = vec ! [ ] ; ==> let mut buf: Vec<u8> = vec![]; assert(buf@ =~= Seq::<u8>::empty());
@sub let avail = reader . buffer ( ) . len ( ) . min ( $a ) ; ==> let ghost h0 = reader.held(); let ghost u0 = reader.rest(); let avail = vmin(reader.buffer().len(), $a);
@sub if buf . len ( ) < length { $x } else { Ok ( ( ) ) } ==> let ghost b1 = buf@; let ghost i1 = reader.inner.rest(); proof { assert(b1 =~= h0.take(avail as int)); assert(reader.held() =~= h0.skip(avail as int)); gave_none(i1, b1); } let r_ = if buf.len() < length { $x } else { Ok(()) }; proof { two_parts(h0, i1, avail as int, reader.inner.rest(), buf@); } r_
@sub buf . extend_from_slice ( & reader . buffer ( ) [ .. avail ] ) ==> append(&mut buf, head(reader.buffer(), avail))
@fn read id=IoInner::read
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)), match r { Ok(v) => (v@.len() > 0 ==> old(self).able()) && read_ok(*old(self), *final(self), length, v@), Err(e) => read_bad(*old(self), *final(self), e) }
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@fn read_buffered
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)), match r { Ok(v) => (v@.len() > 0 ==> old(self).able()) && read_ok(*old(self), *final(self), length, v@), Err(e) => read_bad(*old(self), *final(self), e) }
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@fn read_impl
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)), match r { Ok(v) => (v@.len() > 0 ==> old(self).able()) && read_ok(*old(self), *final(self), length, v@), Err(e) => read_bad(*old(self), *final(self), e) }
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@enter
    let ghost s0 = *self;
    proof { gaves(self.stream()); }
@sub Some ( 0 ) => return Ok ( vec ! [ ] ) , ==> Some(0) => { let v_: Vec<u8> = vec![]; assert(v_@ =~= Seq::<u8>::empty()); return Ok(v_); }
@sub return Ok ( self . take_pushback ( $a ) ) ==> let v_ = self.take_pushback($a); proof { front(s0.pb(), s0.under(), self.pb(), v_@); } return Ok(v_)
@sub let out = self . take_pushback ( $a ) ; ==> let out = self.take_pushback($a); proof { gaves(s0.pb()); assert(out@ + self.pb() == s0.pb()); assert(out@ =~= s0.pb()); }
@sub self . read_underlying ( $a ) } ==> let r_ = self.read_underlying($a); proof { below(s0, *self, Seq::empty(), r_); adds(); } r_ }
@fn read_more_preserving
    requires old(self).sound(), old(self).pb().len() == 0, out@.len() > 0 ==> old(self).able() && old(self).holds()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(v) => gave(out@ + old(self).under(), Seq::empty(), final(self).stream(), v@) && match length { Some(n) => v@.len() <= out@.len() + n && (v@.len() == out@.len() + n || final(self).stream().len() == 0), None => final(self).stream().len() == 0 },
            Err(e) => (e is Signal ==> may_wait()) && suffix(out@ + old(self).under(), final(self).stream()) && (e.restarts() && old(self).holds() ==> final(self).stream() == out@ + old(self).under()),
        }
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@sub match self . read_underlying ( $a ) { ==> let ghost o0 = out@; let r_ = self.read_underlying($a); let ghost s1 = *self; proof { below(*old(self), s1, o0, r_); } match r_ {
@sub out . extend_from_slice ( $a ) ==> append(&mut out, $a)
@sub let _ = self . unget ( $a ) ; ==> let _ = self.unget($a); proof { assert((o0 + s1.pb()) + s1.under() =~= o0 + s1.stream()); assert((o0 + s1.stream()).skip(0) =~= o0 + s1.stream()); }
@before Err ( err ) }
    proof { if o0.len() == 0 { assert(o0 + s1.stream() =~= s1.stream()); } }
@fn read_line_bytes_underlying id=read_line_interrupted closure=1
    ensures kind == Kind::WouldBlock ==> r is WouldBlock, kind != Kind::WouldBlock ==> r is Signal,
        pushback matches Some(p) ==> final(p)@ == partial@ + p@
@head fn put_back_line(kind: Kind, partial: Vec<u8>, pushback: Option<&mut Vec<u8>>) -> MonorubyErr
@sub if ! partial . is_empty ( ) && let Some ( cell ) = pushback { cell . borrow_mut ( ) . splice ( 0 .. 0 , partial ) ; } ==> if let Some(cell) = pushback { if !partial.is_empty() { put_front(cell, partial.as_slice()); } else { proof { assert(partial@ + cell@ =~= cell@); } } }
@fn read_line_bytes_underlying
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(v) => old(self).opened() && final(self).pb() == old(self).pb() && one_line(old(self).under(), final(self).under(), ov(v)),
            Err(e) => (e is Signal ==> may_wait()) && fell(old(self).under(), old(self).pb(), final(self).under(), final(self).pb(), e.restarts() && old(self).holds()),
        }
@lift 1 ==> ()
@sub -> Result < Option < Vec < u8 >>> ==> -> Result<Option<Vec<u8>>, MonorubyErr>
@sub interrupted ( $a , $b , Some ( & $f . pushback ) ) ==> Self::put_back_line($a, $b, Some(&mut $f.pushback))
@sub let mut buf = Vec :: new ( ) ; ==> let mut buf: Vec<u8> = Vec::new(); assert(buf@ =~= Seq::<u8>::empty());
@sub => read_until_step ( $a ) . map_err ( $b ) ? , ==> => match read_until_step($a) { Ok(n_) => n_, Err(e) => { return Err(map_read_err(e)); } },
@enter
    proof { gave_none(self.under(), Seq::empty()); assert(Seq::<u8>::empty() + self.pb() =~= self.pb()); }
@fn read_line_bytes
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r { Ok(v) => one_line(old(self).stream(), final(self).stream(), ov(v)), Err(e) => read_bad(*old(self), *final(self), e) }
@sub -> Result < Option < Vec < u8 >>> ==> -> Result<Option<Vec<u8>>, MonorubyErr>
@sub let nl = cell . borrow ( ) . iter ( ) . position ( $x ) ; ==> let nl = find_byte(cell.as_slice(), 10);
@sub return Ok ( Some ( self . take_pushback ( $a ) ) ) ==> let v_ = self.take_pushback($a); proof { gaves(s0.pb()); front(s0.pb(), s0.under(), self.pb(), v_@); assert(v_@ =~= s0.pb().take(v_@.len() as int)); assert(v_@.take(v_@.len() - 1) =~= s0.pb().take(v_@.len() - 1)); } return Ok(Some(v_))
@sub let mut line = self . take_pushback ( $a ) ; ==> let mut line = self.take_pushback($a); let ghost o0 = line@; proof { gaves(s0.pb()); assert(o0 + self.pb() == s0.pb()); assert(o0 =~= s0.pb()); }
@sub match self . read_line_bytes_underlying ( ) { ==> let ghost s1 = *self; let r_ = self.read_line_bytes_underlying(); let ghost s2 = *self; proof { line_below(s1, s2, o0, r_); } match r_ {
@sub line . extend_from_slice ( $a ) ==> append(&mut line, $a)
@sub self . read_line_bytes_underlying ( ) } ==> let r_ = self.read_line_bytes_underlying(); proof { adds(); if r_ is Err { failed(s0, *self, r_->Err_0); } } r_ }
@enter
    let ghost s0 = *self;
    proof { gaves(self.stream()); }
@fn read1
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(Some(b)) => old(self).able() && old(self).stream().len() > 0 && b == old(self).stream()[0] && final(self).stream() == old(self).stream().skip(1),
            Ok(None) => old(self).stream().len() == 0 && final(self).stream().len() == 0,
            Err(e) => read_bad(*old(self), *final(self), e),
        }
@sub -> Result < Option < u8 >> ==> -> Result<Option<u8>, MonorubyErr>
@sub Ok ( self . read ( $a ) ? . first ( ) . copied ( ) ) ==> let v_ = match self.read($a) { Ok(x_) => x_, Err(e_) => { return Err(e_); } }; proof { gaves(old(self).stream()); } Ok(first_byte(&v_))
@fn read1_preserving
    requires old(self).sound(), acc@.len() > 0 ==> old(self).able()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(Some(b)) => old(self).able() && old(self).stream().len() > 0 && b == old(self).stream()[0] && final(self).stream() == old(self).stream().skip(1),
            Ok(None) => old(self).stream().len() == 0 && final(self).stream().len() == 0,
            Err(e) => (e is Signal ==> may_wait()) && (e.restarts() && old(self).holds() ==> final(self).stream() == acc@ + old(self).stream()),
        }
@sub -> Result < Option < u8 >> ==> -> Result<Option<u8>, MonorubyErr>
@sub let _ = self . unget ( $a ) ; ==> let ghost s1 = *self; let _ = self.unget($a); proof { assert((acc@ + s1.pb()) + s1.under() =~= acc@ + s1.stream()); }
@before Err ( err ) }
    proof { adds(); }
@fn readpartial
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(v) => gave(old(self).stream(), Seq::empty(), final(self).stream(), v@) && v@.len() <= maxlen && (v@.len() == 0 ==> maxlen == 0 || old(self).stream().len() == 0),
            Err(e) => (e is Signal ==> may_wait()) && (e.restarts() ==> final(self).stream() == old(self).stream()) && (old(self).opened() && old(self).pb().len() > 0 ==> *final(self) == *old(self)),
        }
@sub -> Result < Vec < u8 >> ==> -> Result<Vec<u8>, MonorubyErr>
@sub vec ! [ ] ==> no_bytes()
@gsub & mut stdin_buf ( ) ==> &mut self.stdin
@sub out . extend ( chunk ) ; ==> append(&mut out, chunk.as_slice()); proof { assert(out@.skip(o0.len() as int) =~= chunk@); }
@sub read_partial_chunk ( $a ) ? ; ==> match read_partial_chunk($a) { Ok(x_) => x_, Err(e_) => { return Err(e_); } };
@enter
    let ghost s0 = *self;
    proof { gaves(self.stream()); adds(); gaves(self.pb()); gaves(self.under()); }
@before if out . len ( ) >= maxlen
    let ghost s1 = *self;
    let ghost o0 = out@;
    proof { assert(gave(s0.pb(), Seq::empty(), s1.pb(), o0)); front(s0.pb(), s0.under(), s1.pb(), o0); }
@lastbefore Ok ( out )
    proof { assert(o0 =~= s0.pb()); joined(o0, s1.under(), self.under(), out@.skip(o0.len() as int)); assert(o0 + out@.skip(o0.len() as int) =~= out@); }
@fn complete_partial_char
    requires old(self).sound(), old(buf)@.len() > 0 ==> old(self).able()
    ensures final(self).sound(), like(*old(self), *final(self)),
        match r {
            Ok(_) => final(buf)@.len() >= old(buf)@.len() && final(buf)@ + final(self).stream() == old(buf)@ + old(self).stream() && final(buf)@.len() == finish(old(buf)@ + old(self).stream(), old(buf)@.len() as int, 16),
            Err(e) => (e is Signal ==> may_wait()) && (e.restarts() && old(self).holds() ==> final(self).stream() == old(buf)@ + old(self).stream()),
        }
@sub -> Result < ( ) > ==> -> Result<(), MonorubyErr>
@sub for _ in 0 .. 16 ==> for k_ in 0..16
@sub match self . read1_preserving ( $a ) ? { ==> match match self.read1_preserving($a) { Ok(x_) => x_, Err(e_) => { return Err(e_); } } {
@enter
    let ghost w = buf@ + self.stream();
@loop 1
    invariant self.sound(), like(*old(self), *self), buf@.len() > 0 ==> self.able(), buf@.len() >= old(buf)@.len(), buf@ + self.stream() == w, finish(w, buf@.len() as int, 16 - k_) == finish(w, old(buf)@.len() as int, 16), w == old(buf)@ + old(self).stream()
@loopenter 1
    proof { shift(buf@, self.stream(), w); }
@fn getline
    requires old(self).sound()
    ensures final(self).sound(), like(*old(self), *final(self)),
        limit == Some(0usize) ==> r is Ok && r->Ok_0 is Some && (r->Ok_0)->0@.len() == 0 && *final(self) == *old(self),
        limit != Some(0usize) ==> match (sep, r) {
            (None, Ok(v)) => match ov(v) {
                None => old(self).stream().len() == 0 && final(self).stream().len() == 0,
                Some(x) => x.len() > 0 && x + final(self).stream() == old(self).stream() && x.len() == if limit is Some && limit->0 <= old(self).stream().len() { if complete_utf8 { finish(old(self).stream(), limit->0 as int, 16) } else { limit->0 as int } } else { old(self).stream().len() as int },
            },
            (Some(d), Ok(v)) => if d@.len() == 0 {
                match (ov(v), para(old(self).stream(), limit, complete_utf8)) {
                    (None, None) => final(self).stream().len() == 0,
                    (Some(x), Some(p)) => x == p.0 && (if old(self).kind is Stdin { strip(final(self).stream()) == strip(p.1) } else { final(self).stream() == p.1 }),
                    _ => false,
                }
            } else {
                match ov(v) {
                    None => old(self).stream().len() == 0 && final(self).stream().len() == 0,
                    Some(x) => x.len() > 0 && x + final(self).stream() == old(self).stream() && x.len() == cut(old(self).stream(), d@, limit, 0, complete_utf8),
                }
            },
            (_, Err(e)) => (e is Signal ==> may_wait()) && (e.restarts() && old(self).holds() ==> if sep is Some && sep->0@.len() == 0 { para(final(self).stream(), limit, complete_utf8) == para(old(self).stream(), limit, complete_utf8) } else { final(self).stream() == old(self).stream() }),
        }
@sub -> Result < Option < Vec < u8 >>> ==> -> Result<Option<Vec<u8>>, MonorubyErr>
@sub limit == Some ( $x ) ==> is_lim(limit, $x)
@sub Some ( [ ] ) => { ==> Some(s_) if s_.len() == 0 => {
@sub if let Some ( l ) = limit && buf . len ( ) >= l { ==> if over(limit, buf.len()) {
@sub let mut buf = self . read ( limit ) ? ; ==> let mut buf = match self.read(limit) { Ok(x_) => x_, Err(e_) => { return Err(e_); } }; proof { gaves(w); }
@sub self . complete_partial_char ( $a ) ? ; ==> match self.complete_partial_char($a) { Ok(_) => {} Err(e_) => { return Err(e_); } }
@sub match self . read1_preserving ( $a ) ? { ==> match match self.read1_preserving($a) { Ok(x_) => x_, Err(e_) => { return Err(e_); } } {
@sub buf . ends_with ( b"\n\n" ) ==> ends_blank(buf.as_slice())
@sub buf . ends_with ( s ) ==> ends_with(buf.as_slice(), s)
@sub s == b"\n" && ==> is_newline(s) &&
@sub let _ = self . unget ( & [ b ] ) ; ==> let one_ = just(b); let ghost z3 = *self; let _ = self.unget(one_.as_slice()); proof { assert((seq![b] + z3.pb()) + z3.under() =~= seq![b] + z3.stream()); assert(seq![b] + z3.stream() =~= t3.skip(buf@.len() as int).skip(k3)); }
@enter
    let ghost w = self.stream();
@loop 1
    invariant_except_break buf@.len() == 0, newlines(w, w.len() - self.stream().len()), self.stream() == w.skip(w.len() - self.stream().len())
    invariant w == old(self).stream(), self.sound(), like(*old(self), *self), limit != Some(0usize), sep is Some, sep->0@.len() == 0
    ensures buf@.len() == 1, buf@ + self.stream() == strip(w), self.able()
    decreases self.stream().len()
@loopenter 1
    let ghost n1 = w.len() - self.stream().len();
    proof { strip_skip(w, n1); adds(); assert(n1 < w.len() ==> w.skip(n1).skip(1) == w.skip(n1 + 1) && w.skip(n1)[0] == w[n1]); }
@loop 2
    invariant_except_break !at_sep, scan(strip(w), blank(), limit, buf@.len() as int) == scan(strip(w), blank(), limit, 1)
    invariant w == old(self).stream(), self.sound(), like(*old(self), *self), limit != Some(0usize), sep is Some, sep->0@.len() == 0, self.able(), buf@.len() > 0, buf@ + self.stream() == strip(w)
    ensures buf@.len() == cut(strip(w), blank(), limit, 1, complete_utf8), at_sep == (scan(strip(w), blank(), limit, 1).1 is Sep)
    decreases self.stream().len()
@loopenter 2
    proof { strip_twice(w); shift(buf@, self.stream(), strip(w)); }
@before if at_sep {
    proof { shift(buf@, self.stream(), strip(w)); }
@loop 3
    invariant_except_break newlines(strip(w).skip(buf@.len() as int), strip(w).len() - buf@.len() - self.stream().len()), self.stream() == strip(w).skip(strip(w).len() - self.stream().len())
    invariant w == old(self).stream(), self.sound(), like(*old(self), *self), limit != Some(0usize), sep is Some, sep->0@.len() == 0, self.able(), !(self.kind is Stdin), 0 < buf@.len() <= strip(w).len(), buf@ == strip(w).take(buf@.len() as int), scan(strip(w), blank(), limit, 1) == (buf@.len() as int, Stop::Sep)
    ensures self.stream() == strip(strip(w).skip(buf@.len() as int))
    decreases self.stream().len()
@loopenter 3
    let ghost t3 = strip(w);
    let ghost k3 = t3.len() - buf@.len() - self.stream().len();
    proof { strip_first(w); para_same(t3, k3, buf@.len() as int, limit, complete_utf8); strip_twice(w); strip_skip(t3.skip(buf@.len() as int), k3); assert(t3.skip(buf@.len() as int).skip(k3) =~= self.stream()); assert(self.stream().len() > 0 ==> self.stream().skip(1) =~= t3.skip(buf@.len() as int).skip(k3 + 1) && self.stream()[0] == t3.skip(buf@.len() as int)[k3]); }
@loop 4
    invariant_except_break scan(w, s@, limit, buf@.len() as int) == scan(w, s@, limit, 0)
    invariant w == old(self).stream(), self.sound(), like(*old(self), *self), limit != Some(0usize), sep is Some, sep->0@ == s@, s@.len() > 0, buf@.len() > 0 ==> self.able(), buf@ + self.stream() == w
    ensures buf@.len() == cut(w, s@, limit, 0, complete_utf8), buf@.len() == 0 ==> self.stream().len() == 0
    decreases self.stream().len()
@loopenter 4
    proof { shift(buf@, self.stream(), w); }
@sub return self . read_line_bytes ( ) ; ==> let r_ = self.read_line_bytes(); proof { gaves(w); assert(s@ == seq![10u8]); if r_ is Ok && r_->Ok_0 is Some { scan_line(w, self.stream(), ov(r_->Ok_0)->0, 0); } } return r_;
@sub swallow_newlines ( $a ) ; ==> let ghost z3 = *self; swallow_newlines($a); proof { shift(buf@, z3.stream(), strip(w)); adds(); let k = choose|n: int| newlines(z3.stdin.rest(), n) && self.stdin.rest() == z3.stdin.rest().skip(n); strip_skip(z3.stdin.rest(), k); strip_twice(strip(w).skip(buf@.len() as int)); }
@fn has_buffered_data
    requires self.sound()
    ensures r == (self.pb().len() > 0 || match self.kind { IoKind::File(f) => f.reader.held().len() > 0, IoKind::Popen(p) => p.reader is Some && p.reader->0.held().len() > 0, IoKind::Stdin => self.stdin.held().len() > 0, _ => false })
@sub ! stdin_buf ( ) . buffer ( ) . is_empty ( ) ==> self.stdin.buffer().len() != 0
@sub ! f . reader . buffer ( ) . is_empty ( ) ==> f.reader.buffer().len() != 0
@sub p . reader . as_ref ( ) . map ( | r | ! r . buffer ( ) . is_empty ( ) ) . unwrap_or ( false ) ==> (match &p.reader { Some(r_) => r_.buffer().len() != 0, None => false })
@endimpl
@verbatim
impl IoErr {
    #[verifier::external_body]
    pub fn raw(n: i32) -> IoErr { unimplemented!() }
}
pub fn minus(a: i64, b: i64) -> (r: i64) requires b >= 0 ensures r == lower(a - b) { if a < i64::MIN + b { i64::MIN } else { a - b } }
pub open spec fn lower(n: int) -> int { if n < i64::MIN { i64::MIN as int } else { n } }
/// where a seek goes: pushed-back bytes are not yet read, but asking for the position leaves them
pub open spec fn target(offset: int, whence: int, here: int, size: int, pb: int) -> int {
    if whence == 0 { offset } else if whence == 1 { here + if offset == 0 { 0 } else { lower(offset - pb) } } else { size + offset }
}
impl<D> FileDescriptor<D> {
    /// pending output: not modelled
    #[verifier::external_body]
    fn drain_wbuf(&self) -> (r: Result<(), DrainErr>) { unimplemented!() }
}
@end
@impl impl IoInner => impl<D: Seek> IoInner<D>
@fn seek id=IoInner::seek
    requires old(self).kind matches IoKind::File(f) ==> f.reader.ok()
    ensures final(self).stdin == old(self).stdin,
        match (old(self).kind, final(self).kind) {
            (IoKind::File(f), IoKind::File(g)) => g.readable == f.readable && g.reader.ok() && match r {
                Ok(x) => 0 <= whence <= 2 && (whence == 0 ==> offset >= 0)
                    && x == target(offset as int, whence as int, f.reader.place(), f.reader.inner.size(), f.pushback@.len() as int)
                    && g.reader.place() == x && g.reader.held().len() == 0
                    && g.pushback@ == if whence == 1 && offset == 0 { f.pushback@ } else { Seq::<u8>::empty() },
                Err(_) => g.reader.place() == f.reader.place() && g.pushback@ == f.pushback@,
            },
            (a, b) => a == b && r is Err,
        }
@sub const EINVAL : ==> let EINVAL:
@sub const ESPIPE : ==> let ESPIPE:
@sub const EINTR : ==> let EINTR:
@sub std :: io :: Error :: from_raw_os_error ( $x ) ==> IoErr::raw($x)
@sub fdesc . pushback . borrow ( ) . len ( ) ==> vlen(&fdesc.pushback)
@sub n . saturating_sub ( ahead ) ==> minus(n, ahead)
@sub fdesc . pushback . borrow_mut ( ) . clear ( ) ==> fdesc.pushback.clear()
@endimpl
@gsub & mut * stdin_buf ( ) ==> &mut self.stdin
@gsub = cell . borrow_mut ( ) ==> = cell
@gsub . pushback . borrow ( ) ==> .pushback
@gsub IoKind :: Closed ( .. ) ==> IoKind::Closed
@gsub MonorubyErr :: ioerr ( $x ) ==> MonorubyErr::raised()
@gsub MonorubyErr :: argumenterr ( $x ) ==> MonorubyErr::raised()
@gsub MonorubyErr :: runtimeerr ( $x ) ==> MonorubyErr::raised()
@gsub , MonorubyErr :: runtimeerr ) ==> )
@gsub Rc :: get_mut ( $x ) . unwrap ( ) ==> $x
@gsub & mut * $f . reader ==> &mut $f.reader
@gsub = popen . reader . as_mut ( ) . ok_or_else ( $x ) ? ; ==> = match &mut popen.reader { Some(x_) => x_, None => { return Err(MonorubyErr::raised()); } };
@gsub e . kind ( ) == std :: io :: ErrorKind :: $k && ==> e.is(Kind::$k) &&
@gsub std :: io :: ErrorKind :: Interrupted . into ( ) ==> IoErr::interrupted()
@gsub out . resize ( $a , $b ) ==> resize(out, $a, $b)
@gsub signal_pending ( ) ==> signal_pending.ask()
@gsub signal_pending : & dyn Fn ( ) -> bool ==> signal_pending: &Signals
@gsub std :: result :: Result ==> Result
@gsub std :: io :: Result < $t > ==> Result<$t, IoErr>
@gsub std :: io :: Error :: other ==> IoErr::other
@gsub e . kind ( ) == std :: io :: ErrorKind :: $k => ==> e.is(Kind::$k) =>
@gsub & data [ $a .. ] ==> tail(data, $a)
@gsub & self . buf [ $a .. ] ==> tail(self.buf.as_slice(), $a)
@gsub std :: io :: ErrorKind ==> Kind
