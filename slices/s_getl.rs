//! C25: reading through an IO object of monoruby/src/value/rvalue/io.rs: bytes pushed back, buffered and in the file.
#![allow(dead_code, unused_imports, unused_variables)]
use std::cell::{Cell, RefCell};
use std::sync::{Mutex, MutexGuard};
use vharness::drv::{self, Gen, Plan};
// ---- sliced from the repository -------------------------------------------------------------------
//@file monoruby/src/value/rvalue/io/buf.rs
//@item monoruby/src/value/rvalue/io.rs const READ_CHUNK
//@item monoruby/src/value/rvalue/io.rs fn read_step
//@item monoruby/src/value/rvalue/io.rs fn read_upto
//@item monoruby/src/value/rvalue/io.rs fn read_all
//@item monoruby/src/value/rvalue/io.rs fn read_until_step
//@item monoruby/src/value/rvalue/io.rs fn read_partial_chunk
//@sub -> Result < Vec < u8 >> ==> -> std::result::Result<Vec<u8>, MonorubyErr>
//@item monoruby/src/value/rvalue/io.rs fn is_interrupt_kind
//@item monoruby/src/value/rvalue/io.rs fn interrupt_marker
//@item monoruby/src/value/rvalue/io.rs fn map_read_err
//@item monoruby/src/value/rvalue/io.rs fn utf8_missing_bytes
//@item monoruby/src/value/rvalue/io.rs fn drain_err
mod obj {
    use super::{drain_err, is_interrupt_kind, interrupt_marker, signal_pending, stdout_buf, stderr_buf, map_read_err, read_all, read_partial_chunk, read_step, read_until_step, read_upto, stdin_buf, utf8_missing_bytes, Disk, DrainErr, IoReader, IoWriter, MonorubyErr, Store, WriteBuf};
    use std::cell::{Cell, RefCell};
    use std::io::{BufRead, Seek, SeekFrom};
    use std::mem::ManuallyDrop;
    use std::rc::Rc;
    type Result<T> = std::result::Result<T, MonorubyErr>;
    pub type Value = ();
    pub type Encoding = ();
    //@item monoruby/src/value/rvalue/io.rs struct FileDescriptor
    //@sub std :: fs :: File ==> Disk
    //@optsub crate :: value :: Encoding ==> Encoding
    //@item monoruby/src/value/rvalue/io.rs struct PopenDescriptor
    //@sub std :: process :: Child , ==> (),
    //@sub std :: process :: ChildStdout ==> Disk
    //@sub std :: process :: ChildStdin ==> Disk
    //@item monoruby/src/value/rvalue/io.rs enum IoKind
    //@item monoruby/src/value/rvalue/io.rs enum ExtEnc
    //@item monoruby/src/value/rvalue/io.rs struct IoInner
    //@impl monoruby/src/value/rvalue/io.rs impl std :: clone :: Clone for IoKind
    //@fns monoruby/src/value/rvalue/io.rs impl IoInner :: with_kind pushback_len pushback_cell unget take_pushback read read_buffered read_impl read_more_preserving read_underlying readpartial sysread read_line_bytes read_line_bytes_underlying read1 read1_preserving getline complete_partial_char has_buffered_data flush_wbuf_before_read is_closed is_writable ensure_writable write flush seek
    //@sub & std :: fs :: File ==> &Disk
    //@fns monoruby/src/value/rvalue/io.rs impl FileDescriptor :: drain_wbuf
    //@sub & std :: fs :: File ==> &Disk
    impl IoInner {
        pub fn file(d: Disk, readable: bool) -> Self {
            Self::with_kind(IoKind::File(Rc::new(FileDescriptor {
                reader: ManuallyDrop::new(IoReader::new(d)),
                name: String::new(),
                path_raw: None,
                has_path: false,
                readable,
                writable: true,
                autoclose: Cell::new(true),
                pushback: RefCell::new(vec![]),
                wbuf: RefCell::new(WriteBuf::new(false, false)),
            })))
        }
        pub fn popen(d: Disk) -> Self {
            Self::with_kind(IoKind::Popen(Rc::new(PopenDescriptor { child: (), reader: Some(IoReader::new(d)), writer: None, pushback: RefCell::new(vec![]) })))
        }
        pub fn stdin() -> Self {
            Self::with_kind(IoKind::Stdin)
        }
        /// what is still to come, and how much of it has left the file
        pub fn rest(&self) -> (Vec<u8>, usize) {
            let of = |r: &IoReader<Disk>, pending: usize| ([r.buffer(), r.get_ref().from(r.get_ref().pos.get() + pending)].concat(), r.buffer().len());
            match &self.kind {
                IoKind::File(f) => {
                    let (v, n) = of(&f.reader, f.wbuf.borrow().buffered_len());
                    ([f.pushback.borrow().clone(), v].concat(), n)
                }
                IoKind::Popen(p) => {
                    let (v, n) = of(p.reader.as_ref().unwrap(), 0);
                    ([p.pushback.borrow().clone(), v].concat(), n)
                }
                IoKind::Stdin => of(&stdin_buf(), 0),
                _ => (vec![], 0),
            }
        }
        /// bytes accepted and not yet in the file
        pub fn pending(&self) -> usize {
            match &self.kind {
                IoKind::File(f) => f.wbuf.borrow().buffered_len(),
                _ => 0,
            }
        }
        /// where Ruby stands in the file, push-back aside
        pub fn place(&self) -> usize {
            match &self.kind {
                IoKind::File(f) => f.reader.get_ref().pos.get() + self.pending() - f.reader.buffer().len(),
                _ => 0,
            }
        }
        /// what the file holds
        pub fn content(&self) -> Vec<u8> {
            match &self.kind {
                IoKind::File(f) => f.reader.get_ref().data().to_vec(),
                _ => vec![],
            }
        }
        /// the file answers everything from here on
        pub fn heal(&self) {
            if let IoKind::File(f) = &self.kind {
                f.reader.get_ref().at.set(usize::MAX / 2);
            }
        }
    }
}
pub struct Store;
use obj::IoInner;
fn buf_capa() -> usize {
    IO_BUF_CAPA
}
thread_local! {
    /// when a signal is seen, by poll number
    static SIGNALS: RefCell<(usize, Vec<bool>)> = const { RefCell::new((0, vec![])) };
    static STDIN: &'static Mutex<IoReader<Disk>> = Box::leak(Box::new(Mutex::new(IoReader::new(Disk::new(vec![], vec![])))));
}
fn stdin_buf() -> MutexGuard<'static, IoReader<Disk>> {
    STDIN.with(|s| s.lock().unwrap())
}
fn stdout_buf() -> MutexGuard<'static, IoWriter<Sink>> {
    unreachable!()
}
fn stderr_buf() -> MutexGuard<'static, IoWriter<Sink>> {
    unreachable!()
}
pub type Sink = std::io::Sink;
fn signal_pending() -> bool {
    SIGNALS.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.0;
        s.0 += 1;
        s.1.get(k).copied().unwrap_or(false)
    })
}
#[derive(Debug)]
pub enum MonorubyErr {
    Signal,
    WouldBlock,
    Io(String),
}
impl MonorubyErr {
    pub fn signal_interrupt() -> Self {
        Self::Signal
    }
    pub fn would_block_interrupt() -> Self {
        Self::WouldBlock
    }
    pub fn is_signal_interrupt(&self) -> bool {
        matches!(self, Self::Signal)
    }
    pub fn is_would_block_interrupt(&self) -> bool {
        matches!(self, Self::WouldBlock)
    }
    pub fn ioerr(s: impl Into<String>) -> Self {
        Self::Io(s.into())
    }
    pub fn argumenterr(s: impl Into<String>) -> Self {
        Self::Io(s.into())
    }
    pub fn errno_plain(_: &Store, e: &std::io::Error) -> Self {
        Self::Io(e.to_string())
    }
    pub fn runtimeerr(s: impl Into<String>) -> Self {
        Self::Io(s.into())
    }
}

// ---- a file that answers as scripted --------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Take(usize),
    Intr,
    Block,
    Fail,
}
pub struct Disk {
    data: std::cell::UnsafeCell<Vec<u8>>,
    pos: Cell<usize>,
    script: Vec<Ans>,
    at: Cell<usize>,
}
impl std::fmt::Debug for Disk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Disk")
    }
}
unsafe impl Sync for Disk {}
impl Disk {
    fn new(data: Vec<u8>, script: Vec<Ans>) -> Self {
        Disk { data: data.into(), pos: Cell::new(0), script, at: Cell::new(0) }
    }
    fn data(&self) -> &[u8] {
        unsafe { &*self.data.get() }
    }
    fn from(&self, k: usize) -> &[u8] {
        self.data().get(k..).unwrap_or(&[])
    }
    fn answer(&self) -> std::io::Result<usize> {
        let a = self.script.get(self.at.get()).copied().unwrap_or(Ans::Take(usize::MAX));
        self.at.set(self.at.get() + 1);
        match a {
            Ans::Take(k) => Ok(k.max(1)),
            Ans::Intr => Err(std::io::ErrorKind::Interrupted.into()),
            Ans::Block => Err(std::io::ErrorKind::WouldBlock.into()),
            Ans::Fail => Err(std::io::Error::other("broken")),
        }
    }
}
impl std::io::Read for Disk {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let k = self.answer()?;
        let rest = self.from(self.pos.get());
        let n = k.min(out.len()).min(rest.len());
        out[..n].copy_from_slice(&rest[..n]);
        for b in out[n..].iter_mut() {
            *b = 0xEE;
        }
        self.pos.set(self.pos.get() + n);
        Ok(n)
    }
}
impl std::io::Write for &Disk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.answer()?.min(b.len());
        let (p, d) = (self.pos.get(), unsafe { &mut *self.data.get() });
        put(d, p, &b[..n]);
        self.pos.set(p + n);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Write for Disk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        (&*self).write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Disk {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let t = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::Current(n) => self.pos.get() as i128 + n as i128,
            std::io::SeekFrom::End(n) => self.data().len() as i128 + n as i128,
        };
        if t < 0 || t > self.data().len() as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos.set(t as usize);
        Ok(t as u64)
    }
}
fn put(d: &mut Vec<u8>, p: usize, b: &[u8]) {
    if d.len() < p + b.len() {
        d.resize(p + b.len(), 0);
    }
    d[p..p + b.len()].copy_from_slice(b);
}

// ---- contract: what Ruby reads -------------------------------------------------------------------------------
/// bytes missing of a last character that has begun
fn missing(s: &[u8]) -> usize {
    for k in 1..=3.min(s.len()) {
        let b = s[s.len() - k];
        if b >> 6 == 2 {
            continue;
        }
        let whole = match b >> 4 {
            12 | 13 => 2,
            14 => 3,
            15 if b < 0xf8 => 4,
            _ => 1,
        };
        return usize::saturating_sub(whole, k);
    }
    0
}
fn finish(s: &[u8], mut n: usize) -> usize {
    for _ in 0..16 {
        if n >= s.len() || missing(&s[..n]) == 0 {
            break;
        }
        n += 1;
    }
    n
}
/// where the line with n bytes taken ends, and whether at its separator
fn cut(s: &[u8], sep: &[u8], lim: Option<usize>, mut n: usize, utf8: bool) -> (usize, bool) {
    loop {
        if lim.is_some_and(|l| n >= l) {
            return (if utf8 { finish(s, n) } else { n }, false);
        }
        if n >= s.len() {
            return (n, false);
        }
        n += 1;
        if s[..n].ends_with(sep) {
            return (n, true);
        }
    }
}
fn strip(s: &[u8]) -> &[u8] {
    &s[s.iter().take_while(|b| **b == b'\n').count()..]
}
type Line = (Option<Vec<u8>>, Vec<u8>);
fn line(s: &[u8], sep: Option<&[u8]>, lim: Option<usize>, utf8: bool) -> Line {
    if lim == Some(0) {
        return (Some(vec![]), s.to_vec());
    }
    let (t, n) = match sep {
        None => (s, match lim {
            Some(l) if l <= s.len() => if utf8 { finish(s, l) } else { l },
            _ => s.len(),
        }),
        Some([]) => {
            let t = strip(s);
            if t.is_empty() {
                return (None, vec![]);
            }
            let (n, at) = cut(t, b"\n\n", lim, 1, utf8);
            return (Some(t[..n].to_vec()), if at { strip(&t[n..]) } else { &t[n..] }.to_vec());
        }
        Some(d) => (s, cut(s, d, lim, 0, utf8).0),
    };
    (if n == 0 { None } else { Some(t[..n].to_vec()) }, t[n..].to_vec())
}
fn show(v: &[u8]) -> String {
    if v.len() < 60 { format!("{:?}", v.escape_ascii().to_string()) } else { format!("{} bytes", v.len()) }
}
fn objects(g: &mut Gen) -> Result<(), String> {
    let small = g.choose(4) != 0;
    let n = if small { g.upto(40) } else { [8190, 8192, 8193, 9000, 20000][g.choose(5) as usize] + g.upto(3) };
    let data: Vec<u8> = (0..n)
        .map(|_| match g.choose(10) {
            0..=3 => b'\n',
            4 => 0xe3,
            5 => 0x81,
            6 => b';',
            7 => 0xf0,
            _ => b'a' + g.choose(3) as u8,
        })
        .collect();
    let script: Vec<Ans> = (0..g.max_ops * 6)
        .map(|_| match g.choose(14) {
            0 | 1 => Ans::Intr,
            2 | 3 => Ans::Block,
            4 => if g.choose(3) == 0 { Ans::Fail } else { Ans::Take(2) },
            5..=9 => Ans::Take(1 + g.upto(4)),
            10 => Ans::Take(8190 + g.upto(4)),
            _ => Ans::Take(usize::MAX),
        })
        .collect();
    let sig: Vec<bool> = (0..g.max_ops * 8).map(|_| g.choose(12) == 0).collect();
    let kind = g.choose(8);
    g.log(|| format!("{} over {}, answers {script:?} signals {sig:?}", ["popen", "stdin", "file"][kind.min(2) as usize], show(&data)));
    SIGNALS.with(|s| *s.borrow_mut() = (0, sig.clone()));
    let mut whole = if kind > 1 { data.clone() } else { vec![] };
    let disk = Disk::new(data, script);
    let mut io = match kind {
        0 => IoInner::popen(disk),
        1 => {
            *stdin_buf() = IoReader::new(disk);
            IoInner::stdin()
        }
        _ => IoInner::file(disk, true),
    };
    let back = kind != 1;
    for _ in 0..g.max_ops {
        let (before, held) = io.rest();
        let polled = SIGNALS.with(|s| s.borrow().0);
        let (pb, owed) = (io.pushback_len(), io.pending());
        // the answer, what it should have been, whether bytes may go missing, and what is left
        let (what, got, want): (String, Result<Option<Vec<u8>>, MonorubyErr>, Line) = match g.choose(if kind > 1 { 12 } else { 9 }) {
            0 => {
                let b: Vec<u8> = (0..g.upto(4)).map(|_| b"\nx;\xe3"[g.choose(4) as usize]).collect();
                let r = io.unget(&b);
                let what = format!("unget {}", show(&b));
                g.log(|| what.clone());
                if r.is_ok() != back {
                    return Err(format!("{what}: {r:?}"));
                }
                let want = if back { [b, before.clone()].concat() } else { before.clone() };
                (what, Ok(Some(vec![])), (Some(vec![]), want))
            }
            1 | 2 => {
                let len = if g.choose(4) == 0 { None } else { Some(g.upto(12)) };
                let exact = g.flag();
                let what = format!("read {len:?} exact {exact}");
                g.log(|| what.clone());
                let r = if exact { io.read(len) } else { io.read_buffered(len) };
                if exact && len.is_some() && kind > 1 && io.rest().1 > held {
                    return Err(format!("{what}: the file was read ahead"));
                }
                let k = len.unwrap_or(usize::MAX).min(before.len());
                (what, r.map(Some), (Some(before[..k].to_vec()), before[k..].to_vec()))
            }
            3 => {
                let m = g.upto(12);
                let what = format!("readpartial {m}");
                g.log(|| what.clone());
                let r = io.readpartial(m);
                let k = match &r {
                    Ok(v) if v.len() > m || v.is_empty() && m > 0 && !before.is_empty() => return Err(format!("{what}: {} bytes", v.len())),
                    Ok(v) => v.len(),
                    Err(_) if pb > 0 && owed == 0 => return Err(format!("{what}: failed though bytes were pushed back")),
                    Err(_) => 0,
                };
                if k > before.len() {
                    return Err(format!("{what}: {k} bytes of {}", before.len()));
                }
                (what, r.map(Some), (Some(before[..k].to_vec()), before[k..].to_vec()))
            }
            4 if kind > 1 || held == 0 => {
                let m = g.upto(12);
                let what = format!("sysread {m}");
                g.log(|| what.clone());
                let r = io.sysread(m);
                let k = match &r {
                    Ok(v) if v.len() > m || v.is_empty() && m > 0 && !before.is_empty() => return Err(format!("{what}: {} bytes", v.len())),
                    Ok(v) => v.len(),
                    Err(_) => 0,
                };
                if k > before.len() {
                    return Err(format!("{what}: {k} bytes of {}", before.len()));
                }
                (what, r.map(Some), (Some(before[..k].to_vec()), before[k..].to_vec()))
            }
            9 | 10 if pb == 0 => {
                let n = if g.choose(6) == 0 { 8185 + g.upto(12) } else { g.upto(6) };
                let b: Vec<u8> = (0..n).map(|_| b"\nxyz"[g.choose(4) as usize]).collect();
                let (mut done, at) = (0, io.place());
                let what = format!("write {} at {at}", show(&b));
                g.log(|| what.clone());
                let r = io.write(&b, &mut done, &Store);
                if done > b.len() || r.is_ok() && done != b.len() {
                    return Err(format!("{what}: {done} bytes taken"));
                }
                put(&mut whole, at, &b[..done]);
                let left = whole[at + done..].to_vec();
                if io.place() != at + done {
                    return Err(format!("{what}: stands at {} after {done} bytes", io.place()));
                }
                // taken or not, every byte is accounted for
                (what, Ok(Some(vec![])), (Some(vec![]), left))
            }
            11 => {
                let (w, o) = (g.choose(3) as i32, g.upto(20) as i64 - 6);
                let at = io.place() as i64;
                let what = format!("seek {o} {w} at {at}");
                g.log(|| what.clone());
                let asking = w == 1 && o == 0;
                let goal = match w {
                    0 => o,
                    1 => at - if asking { 0 } else { pb as i64 } + o,
                    _ => whole.len() as i64 + o,
                };
                match io.seek(o, w) {
                    Ok(p) if p as i64 != goal => return Err(format!("{what}: went to {p}, not {goal}")),
                    Err(e) if owed == 0 && goal >= 0 && goal <= whole.len() as i64 => return Err(format!("{what}: {e}")),
                    Ok(p) => {
                        let back = if asking { before[..pb].to_vec() } else { vec![] };
                        (what, Ok(Some(vec![])), (Some(vec![]), [&back[..], &whole[p as usize..]].concat()))
                    }
                    Err(_) => (what, Ok(Some(vec![])), (Some(vec![]), before.clone())),
                }
            }
            5 => {
                g.log(|| "read_line_bytes".to_string());
                ("read_line_bytes".to_string(), io.read_line_bytes(), line(&before, Some(b"\n"), None, false))
            }
            _ => {
                let sep: Option<&[u8]> = [None, Some(&b""[..]), Some(b""), Some(b"\n"), Some(b"\n"), Some(b";\n"), Some(b"\n\n")][g.choose(7) as usize];
                let lim = if g.flag() { None } else { Some(g.upto(9)) };
                let utf8 = g.flag();
                let blank = sep == Some(b"");
                let what = format!("getline {:?} {lim:?} {utf8}", sep.map(show));
                g.log(|| what.clone());
                let r = io.getline(sep, lim, utf8);
                let (a, b) = line(&before, sep, lim, utf8);
                if blank && back && matches!(r, Err(MonorubyErr::Signal | MonorubyErr::WouldBlock)) {
                    // blank lines may have gone: the next paragraph has not
                    if line(&io.rest().0, sep, lim, utf8) != (a, b) {
                        return Err(format!("{what}: {} was left of {} at an interruption", show(&io.rest().0), show(&before)));
                    }
                    continue;
                }
                if kind == 1 && blank && r.is_ok() && strip(&io.rest().0) == strip(&b) {
                    if r.unwrap() != a {
                        return Err(format!("{what}: expected {:?}", a.as_deref().map(show)));
                    }
                    continue;
                }
                (what, r, (a, b))
            }
        };
        let after = io.rest().0;
        match got {
            Ok(v) => {
                if v != want.0 {
                    return Err(format!("{what}: {:?} of {}, expected {:?}", v.as_deref().map(show), show(&before), want.0.as_deref().map(show)));
                }
                if after != want.1 {
                    return Err(format!("{what}: {} was left of {}, expected {}", show(&after), show(&before), show(&want.1)));
                }
            }
            Err(MonorubyErr::Signal) if !SIGNALS.with(|s| (polled..s.borrow().0).any(|k| sig.get(k) == Some(&true))) => return Err(format!("{what}: interrupted without a signal")),
            Err(MonorubyErr::Signal | MonorubyErr::WouldBlock) if back => {
                if after != before {
                    return Err(format!("{what}: {} was left of {} at an interruption", show(&after), show(&before)));
                }
            }
            Err(_) => {
                if !before.ends_with(&after) {
                    return Err(format!("{what}: {} was left of {} at a failure", show(&after), show(&before)));
                }
            }
        }
        if kind > 1 {
            // what is not in the file yet is pending where it belongs
            let (mut d, p) = (io.content(), io.place());
            let from = p - io.pending().min(p);
            if io.pending() > 0 {
                put(&mut d, from, &whole[from..p]);
            }
            if d != whole {
                return Err(format!("{what}: the file holds {}, not {}", show(&d), show(&whole)));
            }
        }
    }
    if kind > 1 {
        io.heal();
        SIGNALS.with(|s| s.borrow_mut().1.clear());
        match io.flush(&Store) {
            Ok(()) if io.content() == whole => {}
            r => return Err(format!("flush: {r:?}, the file holds {}, not {}", show(&io.content()), show(&whole))),
        }
    }
    Ok(())
}
fn main() {
    drv::main_with(&[Plan { name: "C25_objects", f: objects, exhaustive: None, random: &[(4, 20000), (12, 20000), (30, 3000)] }]);
}
