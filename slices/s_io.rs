//! C25: the read and write buffers of monoruby/src/value/rvalue/io/buf.rs over a scripted file.
#![allow(dead_code, unused_imports)]
use std::cell::Cell;
use vharness::drv::{self, Gen, Plan};
// ---- sliced from the repository -------------------------------------------------------------------
//@file monoruby/src/value/rvalue/io/buf.rs
//@if monoruby/src/value/rvalue/io.rs fn read_step
//@item monoruby/src/value/rvalue/io.rs const READ_CHUNK
//@item monoruby/src/value/rvalue/io.rs fn read_step
//@item monoruby/src/value/rvalue/io.rs fn read_upto
//@item monoruby/src/value/rvalue/io.rs fn read_all
//@item monoruby/src/value/rvalue/io.rs fn read_until_step
//@item monoruby/src/value/rvalue/io.rs fn read_partial_chunk
//@sub -> Result < Vec < u8 >> ==> -> std::result::Result<Vec<u8>, MonorubyErr>
//@endif
thread_local! {
    /// when a signal is seen, by poll number
    static SIGNALS: std::cell::RefCell<(usize, Vec<bool>)> = const { std::cell::RefCell::new((0, vec![])) };
}
fn signal_pending() -> bool {
    SIGNALS.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.0;
        s.0 += 1;
        s.1.get(k).copied().unwrap_or(false)
    })
}
enum MonorubyErr {
    Signal,
    WouldBlock,
    Io(String),
}
impl MonorubyErr {
    fn signal_interrupt() -> Self {
        Self::Signal
    }
    fn would_block_interrupt() -> Self {
        Self::WouldBlock
    }
    fn ioerr(s: String) -> Self {
        Self::Io(s)
    }
}

// ---- a file that answers as scripted --------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Take(usize),
    Intr,
    Block,
    Fail(u32),
}
struct Disk {
    data: Vec<u8>,
    pos: u64,
    script: Vec<Ans>,
    at: usize,
    read_through: bool,
}
impl Disk {
    fn next(&mut self) -> Ans {
        let a = self.script.get(self.at).copied().unwrap_or(Ans::Take(usize::MAX));
        self.at += 1;
        a
    }
}
fn err(a: Ans) -> std::io::Error {
    match a {
        Ans::Intr => std::io::ErrorKind::Interrupted.into(),
        Ans::Block => std::io::ErrorKind::WouldBlock.into(),
        Ans::Fail(n) => std::io::Error::other(format!("E{n}")),
        _ => unreachable!(),
    }
}
impl std::io::Read for Disk {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        match self.next() {
            Ans::Take(k) => {
                let from = (self.pos as usize).min(self.data.len());
                let n = k.max(1).min(out.len()).min(self.data.len() - from);
                out[..n].copy_from_slice(&self.data[from..from + n]);
                // what lies beyond is not for the reader
                for b in out[n..].iter_mut() {
                    *b = 0xEE;
                }
                self.pos += n as u64;
                Ok(n)
            }
            a => Err(err(a)),
        }
    }
}
impl std::io::Seek for Disk {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        if let a @ (Ans::Intr | Ans::Block | Ans::Fail(_)) = self.next() {
            return Err(err(a));
        }
        let t: i128 = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::Current(n) => self.pos as i128 + n as i128,
            std::io::SeekFrom::End(n) => self.data.len() as i128 + n as i128,
        };
        if t < 0 || t > i64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
impl std::io::Write for Disk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self.next() {
            Ans::Take(k) => {
                let n = k.min(b.len());
                self.data.extend_from_slice(&b[..n]);
                Ok(n)
            }
            a => Err(err(a)),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn answers(g: &mut Gen, n: usize, zero: bool) -> Vec<Ans> {
    (0..n)
        .map(|_| match g.choose(12) {
            0 => Ans::Intr,
            1 => Ans::Block,
            2 => Ans::Fail(g.choose(100)),
            3 => Ans::Take(if zero { 0 } else { 1 }),
            4 | 5 => Ans::Take(1 + g.upto(3)),
            6 => Ans::Take(8190 + g.upto(4)),
            7 => Ans::Take(1 + g.upto(9000)),
            _ => Ans::Take(usize::MAX),
        })
        .collect()
}
fn bytes(g: &mut Gen, n: usize, salt: &mut u32) -> Vec<u8> {
    let _ = g;
    (0..n)
        .map(|_| {
            *salt = salt.wrapping_mul(1664525).wrapping_add(1013904223);
            (*salt >> 24) as u8
        })
        .collect()
}
fn size(g: &mut Gen) -> usize {
    match g.choose(9) {
        0 => 0,
        1 => 1,
        2 => g.upto(20),
        3 => IO_BUF_CAPA,
        4 => IO_BUF_CAPA - 1,
        5 => IO_BUF_CAPA + g.upto(3),
        6 => g.upto(9000),
        7 => g.upto(30000),
        _ => g.upto(200),
    }
}

// ---- contract: reading ---------------------------------------------------------------------------------------
fn reading(g: &mut Gen) -> Result<(), String> {
    use std::io::{BufRead, Read, Seek, SeekFrom};
    let mut salt = g.choose(1 << 16);
    let n = size(g) + size(g);
    let data = bytes(g, n, &mut salt);
    let script = answers(g, g.max_ops * 2, false);
    g.log(|| format!("file of {n} bytes, answers {script:?}"));
    let mut r = IoReader::new(Disk { data: data.clone(), pos: 0, script, at: 0, read_through: false });
    // where Ruby believes to be
    let mut at: u64 = 0;
    let rest = |at: u64| &data[(at as usize).min(data.len())..];
    for _ in 0..g.max_ops {
        let kind = g.choose(8);
        match kind {
            0..=2 => {
                let want = size(g);
                let mut out = vec![0xAAu8; want];
                g.log(|| format!("read {want} at {at}"));
                let calls = r.get_ref().at;
                match r.read(&mut out) {
                    Ok(k) => {
                        if k > want {
                            return Err(format!("read {k} of {want}"));
                        }
                        if out[..k] != rest(at)[..k.min(rest(at).len())] || k > rest(at).len() {
                            return Err(format!("read {k} bytes at {at} that are not the file's"));
                        }
                        if k == 0 && want > 0 && !rest(at).is_empty() {
                            return Err(format!("end of file reported at {at} of {}", data.len()));
                        }
                        if out[k..].iter().any(|b| *b != 0xAA && *b != 0xEE) {
                            return Err("bytes beyond the count".into());
                        }
                        at += k as u64;
                    }
                    Err(e) => same_error(&r, calls, e)?,
                }
            }
            3 => {
                g.log(|| format!("fill at {at}"));
                let calls = r.get_ref().at;
                match r.fill_buf().map(|b| b.to_vec()) {
                    Ok(b) => {
                        if b.len() > rest(at).len() || b[..] != rest(at)[..b.len()] {
                            return Err(format!("fill_buf at {at} shows {} bytes that are not the file's", b.len()));
                        }
                        if b.is_empty() && !rest(at).is_empty() {
                            return Err(format!("end of file reported at {at} of {}", data.len()));
                        }
                        let k = g.upto(b.len());
                        r.consume(k);
                        at += k as u64;
                    }
                    Err(e) => same_error(&r, calls, e)?,
                }
            }
            4 => {
                let have = r.buffer().len();
                if have > rest(at).len() || r.buffer() != &rest(at)[..have] {
                    return Err("the buffered bytes are not the file's next".into());
                }
                // more than there is
                let k = have + g.upto(2);
                r.consume(k);
                at += k.min(have) as u64;
            }
            _ => {
                let (p, target) = match g.choose(5) {
                    0 => (SeekFrom::Current(0), at as i128),
                    1 => {
                        let d = g.upto(20000) as i64 - 10000;
                        (SeekFrom::Current(d), at as i128 + d as i128)
                    }
                    2 => {
                        let d = g.pick(&[i64::MIN, i64::MIN + 1, i64::MIN + 9000, i64::MAX, -1, 1]);
                        (SeekFrom::Current(d), at as i128 + d as i128)
                    }
                    3 => {
                        let t = g.upto(data.len() + 5) as u64;
                        (SeekFrom::Start(t), t as i128)
                    }
                    _ => {
                        let d = g.upto(data.len() + 5) as i64;
                        (SeekFrom::End(-d), data.len() as i128 - d as i128)
                    }
                };
                g.log(|| format!("seek {p:?} at {at}"));
                let calls = r.get_ref().at;
                let ok = target >= 0 && target <= i64::MAX as i128;
                match r.seek(p) {
                    Ok(t) => {
                        if !ok || t as i128 != target {
                            return Err(format!("{p:?} from {at} answered {t}"));
                        }
                        if !r.buffer().is_empty() || r.get_ref().pos != t {
                            return Err(format!("after {p:?} the file is at {} with {} bytes buffered", r.get_ref().pos, r.buffer().len()));
                        }
                        at = t;
                    }
                    Err(e) => {
                        if e.kind() == std::io::ErrorKind::InvalidInput {
                            if ok {
                                return Err(format!("{p:?} from {at} was refused"));
                            }
                        } else {
                            same_error(&r, calls, e)?
                        }
                    }
                }
            }
        }
        // nothing pending is lost
        let b = r.buffer();
        if b.len() > rest(at).len() || b != &rest(at)[..b.len()] || r.get_ref().pos as i128 - b.len() as i128 != at as i128 {
            return Err(format!("reader at {at}: {} bytes buffered, file at {}", b.len(), r.get_ref().pos));
        }
    }
    Ok(())
}
fn same_error(r: &IoReader<Disk>, calls: usize, e: std::io::Error) -> Result<(), String> {
    let d = r.get_ref();
    match d.at.checked_sub(1).filter(|k| d.at > calls && *k < d.script.len()).map(|k| d.script[k]) {
        Some(Ans::Intr) if e.kind() == std::io::ErrorKind::Interrupted => Ok(()),
        Some(Ans::Block) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(()),
        Some(Ans::Fail(n)) if e.to_string() == format!("E{n}") => Ok(()),
        a => Err(format!("error {e:?} where the file answered {a:?}")),
    }
}

// ---- contract: the reading loops above the buffer -----------------------------------------------------------
//@if monoruby/src/value/rvalue/io.rs fn read_step
fn loops(g: &mut Gen) -> Result<(), String> {
    let mut salt = g.choose(1 << 16);
    let n = size(g) + size(g);
    let few = g.choose(3) == 0;
    let data: Vec<u8> = bytes(g, n, &mut salt).into_iter().map(|b| if few { b } else { b % 5 }).collect();
    let script = answers(g, g.max_ops * 3, false);
    let sig: Vec<bool> = (0..g.max_ops * 6).map(|_| g.choose(9) == 0).collect();
    g.log(|| format!("file of {n} bytes, answers {script:?} signals {sig:?}"));
    SIGNALS.with(|s| *s.borrow_mut() = (0, sig.clone()));
    let polls = || SIGNALS.with(|s| s.borrow().0);
    let disk = |script: &Vec<Ans>| Disk { data: data.clone(), pos: 0, script: script.clone(), at: 0, read_through: false };
    let mut r = IoReader::new(disk(&script));
    let mut bare = disk(&script);
    let raw = g.choose(3) == 0;
    let mut at = 0usize;
    for _ in 0..g.max_ops {
        let m = g.upto(5);
        let mut out = bytes(g, m, &mut salt);
        let pre = out.clone();
        let (calls, p0) = (if raw { bare.at } else { r.get_ref().at }, polls());
        let rest = &data[at..];
        let hit = |e: &std::io::Error, r: &IoReader<Disk>, bare: &Disk| {
            let d = if raw { bare } else { r.get_ref() };
            let seen = (p0..polls()).any(|k| sig.get(k) == Some(&true));
            if e.kind() == std::io::ErrorKind::Interrupted && seen { Ok(()) } else { disk_error(d, calls, e, seen) }
        };
        match if raw { g.choose(2) } else { g.choose(5) } {
            0 => {
                let len = pre.len() + size(g);
                let len = if g.choose(8) == 0 { g.upto(4) } else { len };
                g.log(|| format!("read_upto {len} with {} at {at}", pre.len()));
                let res = if raw { read_upto(&mut bare, len, &mut out) } else { read_upto(&mut r, len, &mut out) };
                let got = grown(&pre, &out, rest)?;
                if got > 0 && out.len() > len {
                    return Err(format!("{got} bytes read on top of {} for {len}", pre.len()));
                }
                at += got;
                match res {
                    Ok(()) if out.len() < len && at < data.len() => return Err(format!("stopped at {at} of {} with {} of {len}", data.len(), out.len())),
                    Ok(()) => {}
                    Err(e) => hit(&e, &r, &bare)?,
                }
            }
            1 => {
                g.log(|| format!("read_all at {at}"));
                let res = if raw { read_all(&mut bare, &mut out) } else { read_all(&mut r, &mut out) };
                at += grown(&pre, &out, rest)?;
                match res {
                    Ok(()) if at < data.len() => return Err(format!("read_all stopped at {at} of {}", data.len())),
                    Ok(()) => {}
                    Err(e) => hit(&e, &r, &bare)?,
                }
            }
            2 | 3 => {
                let delim = g.choose(6) as u8;
                g.log(|| format!("read_until {delim} at {at}"));
                let res = read_until_step(&mut r, delim, &mut out);
                let got = grown(&pre, &out, rest)?;
                at += got;
                let line = rest.iter().position(|b| *b == delim).map_or(rest.len(), |k| k + 1);
                match res {
                    Ok(t) if t != got || got != line => return Err(format!("read_until took {got} and said {t}; the line has {line}")),
                    Ok(_) => {}
                    Err(_) if got > 0 && out.last() == Some(&delim) => return Err("read_until failed after the end of the line".into()),
                    Err(e) => hit(&e, &r, &bare)?,
                }
            }
            _ => {
                let (need, no_block) = (size(g), g.flag());
                g.log(|| format!("read_partial_chunk {need} {no_block} at {at}"));
                let res = read_partial_chunk(&mut r, need, no_block);
                if no_block && r.get_ref().at != calls {
                    return Err("the file was asked though nothing may block".into());
                }
                match res {
                    Ok(c) => {
                        let got = grown(&[], &c, rest)?;
                        if got > need || got == 0 && need > 0 && !no_block && !rest.is_empty() {
                            return Err(format!("{got} bytes of {need}"));
                        }
                        at += got;
                    }
                    Err(MonorubyErr::Signal) => hit(&std::io::ErrorKind::Interrupted.into(), &r, &bare)?,
                    Err(MonorubyErr::WouldBlock) => hit(&std::io::ErrorKind::WouldBlock.into(), &r, &bare)?,
                    Err(MonorubyErr::Io(s)) => hit(&std::io::Error::other(s), &r, &bare)?,
                }
            }
        }
        let held = if raw { 0 } else { r.buffer().len() };
        let pos = if raw { bare.pos } else { r.get_ref().pos } as usize;
        if pos != at + held || !raw && r.buffer() != &data[at..at + held] {
            return Err(format!("{at} bytes handed out, {held} held, file at {pos}"));
        }
    }
    Ok(())
}
/// what was added must be the file's next bytes
fn grown(pre: &[u8], out: &[u8], rest: &[u8]) -> Result<usize, String> {
    if out.len() < pre.len() || out[..pre.len()] != *pre {
        return Err("bytes already read were lost".into());
    }
    let new = &out[pre.len()..];
    if new.len() > rest.len() || *new != rest[..new.len()] {
        return Err(format!("{} bytes that are not the file's next", new.len()));
    }
    Ok(new.len())
}
fn disk_error(d: &Disk, calls: usize, e: &std::io::Error, seen: bool) -> Result<(), String> {
    match d.at.checked_sub(1).filter(|k| d.at > calls && *k < d.script.len()).map(|k| d.script[k]) {
        Some(Ans::Intr) if e.kind() == std::io::ErrorKind::Interrupted && seen => Ok(()),
        Some(Ans::Block) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(()),
        Some(Ans::Fail(n)) if e.to_string() == format!("E{n}") => Ok(()),
        a => Err(format!("error {e:?} where the file answered {a:?}, signal seen {seen}")),
    }
}
//@endif

// ---- contract: writing ---------------------------------------------------------------------------------------
fn writing(g: &mut Gen) -> Result<(), String> {
    let (sync, tty, owned) = (g.choose(3) == 0, g.choose(4) == 0, g.flag());
    let mut salt = g.choose(1 << 16);
    let script = answers(g, g.max_ops * 3, true);
    // when a signal is seen, by poll number
    let sig: Vec<bool> = (0..g.max_ops * 4).map(|_| g.choose(9) == 0).collect();
    g.log(|| format!("sync {sync} tty {tty} answers {script:?} signals {sig:?}"));
    let polls = Cell::new(0usize);
    let pending = || {
        let k = polls.get();
        polls.set(k + 1);
        sig.get(k).copied().unwrap_or(false)
    };
    let disk = Disk { data: vec![], pos: 0, script, at: 0, read_through: false };
    let mut own = IoWriter::new(disk, sync, tty);
    let mut bare = WriteBuf::new(sync, tty);
    let mut side = Disk { data: vec![], pos: 0, script: own.get_ref().script.clone(), at: 0, read_through: false };
    let mut sent: Vec<u8> = vec![];
    let mut sync = sync;
    for _ in 0..g.max_ops {
        let before = if owned { own.get_ref().at } else { side.at };
        let p0 = polls.get();
        match g.choose(6) {
            0..=3 => {
                let n = size(g);
                let data = bytes(g, n, &mut salt);
                let start = if g.choose(4) == 0 { g.upto(n) } else { 0 };
                let mut progress = start;
                let base = sent.clone();
                g.log(|| format!("write {n} from {start}"));
                let held = if owned { own_len(&own) } else { bare.buffered_len() };
                let res = if owned { own.write(&data, &mut progress, &pending) } else { bare.write(&mut side, &data, &mut progress, &pending) };
                if progress < start || progress > n {
                    return Err(format!("progress {progress} of {start}..{n}"));
                }
                sent.extend_from_slice(&data[start..progress]);
                if res.is_ok() && progress != n {
                    return Err(format!("success with {progress} of {n} accepted"));
                }
                let d = if owned { own.get_ref() } else { &side };
                outcome(d, before, p0, polls.get(), &sig, res)?;
                let now = if owned { own_len(&own) } else { bare.buffered_len() };
                if (sync || tty) && now > held {
                    return Err("a write-through stream kept bytes back".into());
                }
                let _ = base;
            }
            4 => {
                g.log(|| "flush".to_string());
                let res = if owned { own.drain(&pending) } else { bare.drain(&mut side, &pending) };
                let ok = res.is_ok();
                let d = if owned { own.get_ref() } else { &side };
                outcome(d, before, p0, polls.get(), &sig, res)?;
                if ok && d.data.len() != sent.len() {
                    return Err(format!("flushed, but {} of {} bytes are in the file", d.data.len(), sent.len()));
                }
            }
            _ => {
                sync = g.flag();
                g.log(|| format!("sync = {sync}"));
                own.set_sync(sync);
                bare.set_sync(sync);
                if own.sync() != sync || bare.sync() != sync || bare.writes_through() != (sync || tty) {
                    return Err("sync mode".into());
                }
            }
        }
        let d = if owned { own.get_ref() } else { &side };
        let held = if owned { own_len(&own) } else { bare.buffered_len() };
        if d.data.len() + held != sent.len() || d.data[..] != sent[..d.data.len()] {
            return Err(format!("{} bytes in the file and {held} pending of {} accepted", d.data.len(), sent.len()));
        }
    }
    // in the end everything comes out
    let never = || false;
    for _ in 0..(g.max_ops * 5) {
        let r = if owned { own.drain(&never) } else { bare.drain(&mut side, &never) };
        if r.is_ok() {
            break;
        }
    }
    let d = if owned { own.get_ref() } else { &side };
    if d.data != sent {
        return Err(format!("the file has {} bytes that are not the {} written", d.data.len(), sent.len()));
    }
    Ok(())
}
fn own_len(w: &IoWriter<Disk>) -> usize {
    // pending bytes as reported by the writer's own diagnostics
    let s = format!("{:?}", W(w));
    s.parse().unwrap()
}
struct W<'a>(&'a IoWriter<Disk>);
impl std::fmt::Debug for W<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0.buf.buffered_len())
    }
}
fn outcome(d: &Disk, before: usize, p0: usize, p1: usize, sig: &[bool], res: Result<(), DrainErr>) -> Result<(), String> {
    let polled = (p0..p1).any(|k| sig.get(k) == Some(&true));
    let last = d.at.checked_sub(1).filter(|k| d.at > before && *k < d.script.len()).map(|k| d.script[k]);
    match res {
        Ok(()) if polled => Err("a pending signal was seen and not reported".into()),
        Ok(()) if matches!(last, Some(Ans::Block | Ans::Fail(_))) => Err(format!("success after {last:?}")),
        Ok(()) => Ok(()),
        Err(DrainErr::Signal) if polled => Ok(()),
        Err(DrainErr::WouldBlock) if last == Some(Ans::Block) => Ok(()),
        Err(DrainErr::Io(e)) => match last {
            Some(Ans::Fail(n)) if e.to_string() == format!("E{n}") => Ok(()),
            Some(Ans::Take(0)) => Ok(()),
            a => Err(format!("error {e:?} where the file answered {a:?}")),
        },
        Err(DrainErr::Signal) => Err("a signal reported that was not pending".into()),
        Err(DrainErr::WouldBlock) => Err(format!("would block where the file answered {last:?}")),
    }
}
fn main() {
    drv::main_with(&[
        Plan { name: "C25_read", f: reading, exhaustive: None, random: &[(4, 15000), (12, 10000), (30, 1500)] },
//@if monoruby/src/value/rvalue/io.rs fn read_step
        Plan { name: "C25_loops", f: loops, exhaustive: None, random: &[(4, 15000), (12, 10000), (30, 1000)] },
//@endif
        Plan { name: "C25_write", f: writing, exhaustive: None, random: &[(4, 20000), (12, 10000), (30, 1000)] },
    ]);
}
