//! Sources and sinks used to drive the library.
use il2_iltags::io::{ErrorKind, Reader, Result, Writer};
use std::cell::RefCell;
use std::rc::Rc;

/// A Reader with only `read()`; everything else is the trait's default.
pub struct OneReader {
    pub data: Vec<u8>,
    pub pos: usize,
}
impl OneReader {
    pub fn new(d: &[u8]) -> Self {
        OneReader { data: d.to_vec(), pos: 0 }
    }
}
impl Reader for OneReader {
    fn read(&mut self) -> Result<u8> {
        if self.pos >= self.data.len() {
            return Err(ErrorKind::EndOfData);
        }
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }
}

/// Errors of many kinds (none of them means "try again").
pub fn any_error(n: usize) -> std::io::Error {
    use std::io::ErrorKind::*;
    const K: [std::io::ErrorKind; 11] =
        [Other, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, PermissionDenied, InvalidData, OutOfMemory, NotFound, InvalidInput, Unsupported];
    std::io::Error::new(K[n % K.len()], "injected")
}
/// The same for the library's writers.
pub fn any_refusal(n: usize) -> ErrorKind {
    match n % 8 {
        0 => ErrorKind::UnableToWriteData,
        1 => ErrorKind::EndOfData,
        2 => ErrorKind::CorruptedData,
        3 => ErrorKind::UnableToReadData,
        4 => ErrorKind::IOError(std::io::Error::new(std::io::ErrorKind::Interrupted, "refused")),
        5 => ErrorKind::BoxedError(Box::new(any_error(n))),
        6 => ErrorKind::IOError(std::io::Error::new(std::io::ErrorKind::WriteZero, "refused")),
        _ => ErrorKind::IOError(any_error(n)),
    }
}

/// std::io::Read that gives short reads and interruptions by a cyclic pattern
/// (0 = interrupted, n = at most n bytes) and fails at `fault`: for good, or
/// only once.
pub struct ChunkRead {
    pub data: Vec<u8>,
    pub pos: usize,
    pub pat: Vec<usize>,
    pub turn: usize,
    pub fault: Option<usize>,
    pub once: bool,
}
impl ChunkRead {
    pub fn new(d: &[u8], pat: &[usize], fault: Option<usize>) -> Self {
        ChunkRead { data: d.to_vec(), pos: 0, pat: pat.to_vec(), turn: 0, fault, once: false }
    }
}
impl std::io::Read for ChunkRead {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let step = self.pat[self.turn % self.pat.len()];
        self.turn += 1;
        if step == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = step.min(buf.len()).min(self.data.len() - self.pos);
        if let Some(f) = self.fault {
            if self.pos >= f {
                if self.once {
                    self.fault = None;
                }
                return Err(any_error(f));
            }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// std::io::Write that accepts `cap` bytes in all, split by a cyclic pattern;
/// beyond that it either accepts nothing (Ok(0)) or fails.
pub struct ChunkWrite {
    pub data: Rc<RefCell<Vec<u8>>>,
    pub pat: Vec<usize>,
    pub turn: usize,
    pub cap: usize,
    pub zero: bool,
}
impl std::io::Write for ChunkWrite {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let step = self.pat[self.turn % self.pat.len()];
        self.turn += 1;
        if step == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut d = self.data.borrow_mut();
        let n = step.min(buf.len()).min(self.cap - d.len());
        if n == 0 && !buf.is_empty() && !self.zero {
            return Err(any_error(self.cap));
        }
        d.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Reader whose position is observable from outside, failing for good at `fault`
/// with a marker error. `bytewise` uses the trait's default bulk operations.
pub struct SrcReader {
    pub data: Vec<u8>,
    /// zero bytes behind the data
    pub zeros: usize,
    pub pos: Rc<RefCell<usize>>,
    pub fault: usize,
}
impl SrcReader {
    fn take(&mut self, n: usize) -> Result<usize> {
        let p = *self.pos.borrow();
        if n == 0 {
            return Ok(p);
        }
        if n > self.fault.saturating_sub(p).min((self.data.len() + self.zeros).saturating_sub(p)) {
            return Err(if n > self.fault.saturating_sub(p) { ErrorKind::CorruptedData } else { ErrorKind::EndOfData });
        }
        *self.pos.borrow_mut() = p + n;
        Ok(p)
    }
}
impl Reader for SrcReader {
    fn read(&mut self) -> Result<u8> {
        let p = self.take(1)?;
        Ok(*self.data.get(p).unwrap_or(&0))
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let p = self.take(buff.len())?;
        for (i, b) in buff.iter_mut().enumerate() {
            *b = *self.data.get(p + i).unwrap_or(&0);
        }
        Ok(())
    }
    fn skip(&mut self, n: usize) -> Result<()> {
        self.take(n).map(|_| ())
    }
    fn skip_u64(&mut self, n: u64) -> Result<()> {
        self.take(n as usize).map(|_| ())
    }
}
/// The same with the trait's default bulk operations.
pub struct SrcOne(pub SrcReader);
impl Reader for SrcOne {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
}

/// A source that delivers a prefix and then `zeros` zero bytes.
pub struct SparseReader {
    pub head: Vec<u8>,
    pub zeros: u64,
    pub pos: u64,
}
impl Reader for SparseReader {
    fn read(&mut self) -> Result<u8> {
        let mut b = [0u8];
        self.read_all(&mut b)?;
        Ok(b[0])
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let h = self.head.len() as u64;
        if buff.len() as u64 > h + self.zeros - self.pos {
            return Err(ErrorKind::UnableToReadData);
        }
        let n = (h.saturating_sub(self.pos) as usize).min(buff.len());
        let p = self.pos as usize;
        if n > 0 {
            buff[..n].copy_from_slice(&self.head[p..p + n]);
        }
        for b in &mut buff[n..] {
            *b = 0;
        }
        self.pos += buff.len() as u64;
        Ok(())
    }
}

/// Segments of bytes, each followed by a number of zero bytes.  With `jump` skips take
/// no time, otherwise they are the trait's default ones.
pub struct SegReader {
    pub segs: Vec<(Vec<u8>, u64)>,
    pub pos: u64,
}
impl SegReader {
    fn left(&self) -> u64 {
        self.segs.iter().map(|x| x.0.len() as u64 + x.1).sum::<u64>() - self.pos
    }
    fn take(&mut self, n: u64) -> Result<()> {
        if n > self.left() {
            return Err(if self.left() == 0 { ErrorKind::EndOfData } else { ErrorKind::UnableToReadData });
        }
        self.pos += n;
        Ok(())
    }
}
impl Reader for SegReader {
    fn read(&mut self) -> Result<u8> {
        let mut b = [0u8];
        self.read_all(&mut b)?;
        Ok(b[0])
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        let p = self.pos;
        self.take(buff.len() as u64)?;
        let mut at = 0u64;
        for b in buff.iter_mut() {
            *b = 0;
        }
        for (h, z) in &self.segs {
            for (i, x) in h.iter().enumerate() {
                let q = at + i as u64;
                if q >= p && q < p + buff.len() as u64 {
                    buff[(q - p) as usize] = *x;
                }
            }
            at += h.len() as u64 + z;
        }
        Ok(())
    }
}
pub struct JumpReader(pub SegReader);
impl Reader for JumpReader {
    fn read(&mut self) -> Result<u8> {
        self.0.read()
    }
    fn read_all(&mut self, buff: &mut [u8]) -> Result<()> {
        self.0.read_all(buff)
    }
    fn skip(&mut self, n: usize) -> Result<()> {
        self.0.take(n as u64)
    }
    fn skip_u64(&mut self, n: u64) -> Result<()> {
        self.0.take(n)
    }
}

/// Writer that accepts `cap` bytes; mode "atomic" refuses a block that does not
/// fit as a whole, "partial" takes what fits, "bytes" uses the default write_all.
pub struct CapWriter {
    pub data: Vec<u8>,
    pub cap: usize,
    pub partial: bool,
}
impl Writer for CapWriter {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.data.len() >= self.cap {
            return Err(any_refusal(self.cap));
        }
        self.data.push(value);
        Ok(())
    }
    fn write_all(&mut self, buff: &[u8]) -> Result<()> {
        let room = self.cap - self.data.len();
        if buff.len() <= room {
            self.data.extend_from_slice(buff);
            Ok(())
        } else {
            if self.partial {
                self.data.extend_from_slice(&buff[..room]);
            }
            Err(any_refusal(self.cap))
        }
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// The same with the default write_all.
pub struct CapOne {
    pub data: Vec<u8>,
    pub cap: usize,
}
impl Writer for CapOne {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.data.len() >= self.cap {
            return Err(any_refusal(self.cap));
        }
        self.data.push(value);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// A writer that fails once, when its `at`-th byte is offered, then works.
pub struct OnceWriter {
    pub data: Vec<u8>,
    pub at: usize,
    pub done: bool,
}
impl Writer for OnceWriter {
    fn write(&mut self, value: u8) -> Result<()> {
        if self.data.len() == self.at && !self.done {
            self.done = true;
            return Err(any_refusal(self.at));
        }
        self.data.push(value);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}

/// Read + Write + Seek stream with persistent faults per kind of call.
#[derive(Default)]
pub struct FaultStream {
    pub inner: std::io::Cursor<Vec<u8>>,
    pub f_seek: bool,
    pub f_end: bool,
    pub f_start: bool,
    pub f_cur: bool,
    pub f_read: bool,
    pub f_write: bool,
    pub chunk: usize,
    pub turn: usize,
}
fn inj(n: usize) -> std::io::Error {
    any_error(n)
}
impl FaultStream {
    fn step(&mut self) -> std::io::Result<usize> {
        self.turn += 1;
        if self.chunk > 0 && self.turn % 3 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        Ok(if self.chunk == 0 { usize::MAX } else { self.chunk })
    }
}
impl std::io::Read for FaultStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.f_read {
            return Err(inj(self.turn.wrapping_add(self.inner.position() as usize)));
        }
        let n = self.step()?.min(buf.len());
        std::io::Read::read(&mut self.inner, &mut buf[..n])
    }
}
impl std::io::Write for FaultStream {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.f_write {
            return Err(inj(self.turn.wrapping_add(self.inner.position() as usize)));
        }
        let n = self.step()?.min(buf.len());
        std::io::Write::write(&mut self.inner, &buf[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for FaultStream {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let refused = match p {
            Start(_) => self.f_start,
            End(_) => self.f_end,
            Current(_) => self.f_cur,
        };
        if self.f_seek || refused {
            return Err(inj(self.turn.wrapping_add(self.inner.position() as usize)));
        }
        self.inner.seek(p)
    }
}
/// A large stream: data and then (virtual) zero bytes; writes fail.
pub struct FarStream {
    pub data: Vec<u8>,
    pub zeros: u64,
    pub pos: u64,
}
impl std::io::Read for FarStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = (self.data.len() as u64 + self.zeros).saturating_sub(self.pos);
        let n = left.min(buf.len() as u64) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = *self.data.get(self.pos as usize + i).unwrap_or(&0);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Write for FarStream {
    fn write(&mut self, _buf: &[u8]) -> std::io::Result<usize> {
        Err(inj(self.pos as usize))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for FarStream {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let n = self.data.len() as u64 + self.zeros;
        let q = match p {
            Start(x) => Some(x),
            End(x) => n.checked_add_signed(x),
            Current(x) => self.pos.checked_add_signed(x),
        };
        match q {
            Some(q) => {
                self.pos = q;
                Ok(q)
            }
            None => Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "out of range")),
        }
    }
}

/// Runs `$body` with `$r` bound to a reader of kind `$kind` over `$b`; gives
/// the result and the number of bytes consumed.
#[macro_export]
macro_rules! with_reader {
    ($kind:expr, $b:expr, $r:ident, $body:expr) => {{
        let b: &[u8] = $b;
        match $kind {
            "arr" => {
                let mut x = ByteArrayReader::new(b);
                let o = {
                    let $r = &mut x;
                    $body
                };
                (o, x.offset())
            }
            "vec" => {
                let mut x = VecReader::new(b);
                let o = {
                    let $r = &mut x;
                    $body
                };
                (o, x.offset())
            }
            "lim" => {
                let mut s = ByteArrayReader::new(b);
                let o = {
                    let mut x = LimitedReader::new(&mut s, b.len());
                    let $r = &mut x;
                    $body
                };
                (o, s.offset())
            }
            "lim2" => {
                // a limited reader in a limited reader, the outer one wider
                let mut s = OneReader::new(b);
                let o = {
                    let mut y = LimitedReader::new(&mut s, b.len() + 3);
                    let mut x = LimitedReader::new(&mut y, b.len());
                    let $r = &mut x;
                    $body
                };
                (o, s.pos)
            }
            "rr" => {
                let mut s: &[u8] = b;
                let o = {
                    let mut x = ReadReader::new(&mut s);
                    let $r = &mut x;
                    $body
                };
                (o, b.len() - s.len())
            }
            "chunk" => {
                let mut s = ChunkRead::new(b, &[1, 0, 3, 2, 0, 0, 5], None);
                let o = {
                    let mut x = ReadReader::new(&mut s);
                    let $r = &mut x;
                    $body
                };
                (o, s.pos)
            }
            "cur" => {
                let mut x = std::io::Cursor::new(b);
                let o = {
                    let $r = &mut x;
                    $body
                };
                (o, x.position() as usize)
            }
            "one" => {
                let mut x = OneReader::new(b);
                let o = {
                    let $r = &mut x;
                    $body
                };
                (o, x.pos)
            }
            _ => fatal("bad reader kind"),
        }
    }};
}
pub const READERS: [&str; 8] = ["arr", "vec", "lim", "lim2", "rr", "chunk", "cur", "one"];
