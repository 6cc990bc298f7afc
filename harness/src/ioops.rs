//! Sessions on readers, writers and streams.
use crate::json::*;
use crate::pure::*;
use crate::readers::*;
use il2_iltags::io::array::*;
use il2_iltags::io::std_io::SizedSeek;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, WriteWriter, Writer};
use std::cell::RefCell;
use std::rc::Rc;

fn n_of(o: &J) -> u64 {
    o.at("n").word()
}
fn res(r: &il2_iltags::io::Result<()>) -> J {
    J::from(match r {
        Ok(()) => "ok",
        Err(e) => io_err(e),
    })
}
/// Runs one reading op; gives (result, bytes read, buffer length kept).
fn read_op(r: &mut dyn Reader, o: &J) -> (J, J) {
    match o.at("op").str() {
        "read" => match r.read() {
            Ok(b) => (J::from("ok"), J::from(vec![b])),
            Err(e) => (J::from(io_err(&e)), J::Arr(vec![])),
        },
        "all" => {
            let mut b = vec![0xA5u8; n_of(o) as usize];
            let x = r.read_all(&mut b);
            let ok = x.is_ok();
            (res(&x), if ok { J::from(b) } else { J::Arr(vec![]) })
        }
        "skip" => (res(&r.skip(n_of(o) as usize)), J::Arr(vec![])),
        "skip64" => (res(&r.skip_u64(n_of(o))), J::Arr(vec![])),
        x => fatal(&format!("bad reader op {x}")),
    }
}

// ------------------------------------------------------------ memory readers
trait MR: MemoryReader {
    fn can(&self, n: usize) -> il2_iltags::io::Result<()>;
    fn data(&self) -> Vec<u8>;
}
impl<'a> MR for ByteArrayReader<'a> {
    fn can(&self, n: usize) -> il2_iltags::io::Result<()> {
        self.can_read(n)
    }
    fn data(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}
impl MR for VecReader {
    fn can(&self, n: usize) -> il2_iltags::io::Result<()> {
        self.can_read(n)
    }
    fn data(&self) -> Vec<u8> {
        if self.as_slice() != self.vec().as_slice() {
            return vec![255; 3];
        }
        self.as_slice().to_vec()
    }
}
fn mr_step<M: MR>(m: &mut M, o: &J) -> J {
    let (r, b) = match o.at("op").str() {
        "seek" => {
            m.set_offset(n_of(o) as usize);
            (J::from("ok"), J::Arr(vec![]))
        }
        "can" => {
            let a = res(&m.can(n_of(o) as usize));
            let b = res(&m.assert_can_read(n_of(o) as usize));
            (if a == b { a } else { J::from("differ") }, J::Arr(vec![]))
        }
        _ => read_op(m, o),
    };
    J::obj()
        .with("res", r)
        .with("b", b)
        .with("off", m.offset())
        .with("len", m.len())
        .with("av", m.available())
        .with("empty", m.is_empty())
        .with("data", J::from(m.data()))
}
pub fn memrd(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let d = s.at("init").bytes();
    let mut a = ByteArrayReader::new(&d);
    let mut v = VecReader::new(&d);
    for o in s.at("ops").arr() {
        run(o, &mut |o| {
            let x = mr_step(&mut a, o);
            let y = mr_step(&mut v, o);
            if x == y {
                x
            } else {
                x.with("res", "readers differ")
            }
        });
    }
}

// ------------------------------------------------------------ memory writers
pub fn memwr(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let init = s.at("init").bytes();
    let start = s.at("off").us();
    macro_rules! wr {
        ($w:expr, $o:expr) => {
            match $o.at("op").str() {
                "write" => res(&$w.write($o.at("b").bytes()[0])),
                "wall" => res(&$w.write_all(&$o.at("b").bytes())),
                "dyn" => res(&$w.as_writer().write_all(&$o.at("b").bytes())),
                "seek" => {
                    $w.set_offset(n_of($o) as usize);
                    J::from("ok")
                }
                _ => J::from("bad"),
            }
        };
    }
    match s.at("kind").str() {
        "vec" => {
            let mut w = if start % 2 == 0 { VecWriter::new() } else { VecWriter::with_capacity(start) };
            let _ = w.write_all(&init);
            w.set_offset(start);
            for o in s.at("ops").arr() {
                run(o, &mut |o| {
                    let r = if o.at("op").str() == "ro" {
                        w.set_read_only(o.at("v").bool());
                        J::from("ok")
                    } else {
                        wr!(w, o)
                    };
                    let same = w.as_slice() == w.vec().as_slice() && w.can_write().is_err() == w.is_read_only();
                    J::obj()
                        .with("res", if same { r } else { J::from("views differ") })
                        .with("data", J::from(w.as_slice()))
                        .with("off", w.get_offset())
                        .with("ro", w.is_read_only())
                        .with("x", 0usize)
                });
            }
            let v: Vec<u8> = w.into();
            run(&J::obj().with("op", "into"), &mut |_| J::obj().with("data", J::from(v.as_slice())));
        }
        "bvec" => {
            let mut v = init.clone();
            if (init.len() + start) % 3 != 0 {
                v.reserve(64);
            }
            {
                let mut w = if start == 0 && init.len() % 2 == 0 {
                    BorrowedVecWriter::new(&mut v)
                } else {
                    BorrowedVecWriter::with_offset(&mut v, start)
                };
                for o in s.at("ops").arr() {
                    run(o, &mut |o| {
                        let r = if o.at("op").str() == "ro" {
                            w.set_read_only(o.at("v").bool());
                            J::from("ok")
                        } else {
                            wr!(w, o)
                        };
                        let same = w.as_slice() == w.vec().as_slice() && w.can_write().is_err() == w.is_read_only();
                        J::obj()
                            .with("res", if same { r } else { J::from("views differ") })
                            .with("data", J::from(w.as_slice()))
                            .with("off", w.get_offset())
                            .with("ro", w.is_read_only())
                            .with("x", w.bytes_written())
                    });
                }
            }
            run(&J::obj().with("op", "into"), &mut |_| J::obj().with("data", J::from(v.as_slice())));
        }
        _ => {
            let mut v = init.clone();
            let (p, n) = (v.as_mut_ptr(), v.len());
            {
                let mut w = ByteArrayWriter::new(&mut v);
                w.set_offset(start);
                for o in s.at("ops").arr() {
                    run(o, &mut |o| {
                        let r = if o.at("op").str() == "ro" { J::from("ok") } else { wr!(w, o) };
                        // the array while it is lent to the writer (single threaded)
                        let data: Vec<u8> = (0..n).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
                        J::obj()
                            .with("res", r)
                            .with("data", J::from(data))
                            .with("off", w.get_offset())
                            .with("ro", false)
                            .with("x", w.available())
                    });
                }
            }
            run(&J::obj().with("op", "into"), &mut |_| J::obj().with("data", J::from(v.as_slice())));
        }
    }
}

// ------------------------------------------------------------ limited readers
struct LimRun<'a> {
    ops: &'a [J],
    i: usize,
    pos: Rc<RefCell<usize>>,
}
fn lim_level(
    l: &mut LimRun,
    r: &mut LimitedReader,
    depth: usize,
    run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J),
) {
    let pos = l.pos.clone();
    let state = move |r: &LimitedReader, rs: J, b: J| {
        J::obj()
            .with("res", rs)
            .with("b", b)
            .with("av", word(r.available() as u64))
            .with("empty", r.empty())
            .with("pos", word(*pos.borrow() as u64))
    };
    while l.i < l.ops.len() {
        let o = &l.ops[l.i];
        l.i += 1;
        match o.at("op").str() {
            "push" => {
                let mut c = LimitedReader::new(r, n_of(o) as usize);
                run(o, &mut |_| state(&c, J::from("ok"), J::Arr(vec![])));
                lim_level(l, &mut c, depth + 1, run);
                // the popping op is reported from the outer level
                if l.i > 0 && l.i <= l.ops.len() && l.ops[l.i - 1].at("op").str() == "pop" {
                    run(&l.ops[l.i - 1], &mut |_| state(r, J::from("ok"), J::Arr(vec![])));
                }
            }
            "pop" => {
                if depth > 1 {
                    return;
                }
            }
            "end" => run(o, &mut |_| {
                let x = r.goto_end();
                state(r, res(&x), J::Arr(vec![]))
            }),
            "can" => run(o, &mut |o| {
                let x = r.can_read(n_of(o) as usize);
                state(r, res(&x), J::Arr(vec![]))
            }),
            "query" => run(o, &mut |_| state(r, J::from("ok"), J::Arr(vec![]))),
            _ => run(o, &mut |o| {
                let (x, b) = read_op(r, o);
                state(r, x, b)
            }),
        }
    }
}
pub fn limited(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let pos = Rc::new(RefCell::new(0));
    let src = SrcReader {
        data: s.at("init").bytes(),
        zeros: s.at("zeros").word() as usize,
        pos: pos.clone(),
        fault: s.at("fault").word() as usize,
    };
    let mut l = LimRun { ops: s.at("ops").arr(), i: 0, pos };
    let lim = s.at("lim").word() as usize;
    if s.at("kind").str() == "one" {
        let mut src = SrcOne(src);
        let mut r = LimitedReader::new(&mut src, lim);
        lim_level(&mut l, &mut r, 1, run);
    } else {
        let mut src = src;
        let mut r = LimitedReader::new(&mut src, lim);
        lim_level(&mut l, &mut r, 1, run);
    }
}

// ------------------------------------------------------------ std adapters
fn pat(s: &J) -> Vec<usize> {
    s.at("pat").arr().iter().map(|x| x.us()).collect()
}
pub fn stdrd(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let d = s.at("init").bytes();
    let fault = s.at("fault").us();
    let mut src = ChunkRead::new(&d, &pat(s), if fault > d.len() { None } else { Some(fault) });
    src.once = s.get("once").map_or(false, |x| x.bool());
    let mut r = ReadReader::new(&mut src);
    for o in s.at("ops").arr() {
        run(o, &mut |o| {
            let (x, b) = read_op(&mut r, o);
            J::obj().with("res", x).with("b", b)
        });
    }
}
pub fn stdwr(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let data = Rc::new(RefCell::new(vec![]));
    let mut dst = ChunkWrite {
        data: data.clone(),
        pat: pat(s),
        turn: 0,
        cap: s.at("cap").us(),
        zero: s.at("zero").bool(),
    };
    let mut w = WriteWriter::new(&mut dst);
    for o in s.at("ops").arr() {
        run(o, &mut |o| {
            let b = o.at("b").bytes();
            let r = match o.at("op").str() {
                "write" => w.write(b[0]),
                "wall" => w.write_all(&b),
                _ => w.as_writer().write_all(&b),
            };
            J::obj().with("res", res(&r)).with("data", J::from(data.borrow().as_slice()))
        });
    }
}

// ------------------------------------------------------------ seekable streams
trait Peek: std::io::Read + std::io::Write + std::io::Seek {
    fn peek(&mut self) -> (u64, Vec<u8>);
    fn jump(&mut self, p: u64);
    fn arm(&mut self, what: &str, on: bool);
}
impl Peek for std::io::Cursor<Vec<u8>> {
    fn peek(&mut self) -> (u64, Vec<u8>) {
        (self.position(), self.get_ref().clone())
    }
    fn jump(&mut self, p: u64) {
        self.set_position(p)
    }
    fn arm(&mut self, _: &str, _: bool) {}
}
impl Peek for FaultStream {
    fn peek(&mut self) -> (u64, Vec<u8>) {
        (self.inner.position(), self.inner.get_ref().clone())
    }
    fn jump(&mut self, p: u64) {
        self.inner.set_position(p)
    }
    fn arm(&mut self, what: &str, on: bool) {
        match what {
            "seek" => self.f_seek = on,
            "end" => self.f_end = on,
            "start" => self.f_start = on,
            "cur" => self.f_cur = on,
            "read" => self.f_read = on,
            _ => self.f_write = on,
        }
    }
}
impl Peek for FarStream {
    fn peek(&mut self) -> (u64, Vec<u8>) {
        (self.pos, self.data.clone())
    }
    fn jump(&mut self, p: u64) {
        self.pos = p
    }
    fn arm(&mut self, _: &str, _: bool) {}
}
impl Peek for std::fs::File {
    fn peek(&mut self) -> (u64, Vec<u8>) {
        use std::io::{Read, Seek, SeekFrom};
        let p = self.stream_position().unwrap();
        let mut v = vec![];
        std::io::Seek::seek(self, SeekFrom::Start(0)).unwrap();
        self.read_to_end(&mut v).unwrap();
        std::io::Seek::seek(self, SeekFrom::Start(p)).unwrap();
        (p, v)
    }
    fn jump(&mut self, p: u64) {
        std::io::Seek::seek(self, std::io::SeekFrom::Start(p)).unwrap();
    }
    fn arm(&mut self, _: &str, _: bool) {}
}
fn seek_run<S: Peek>(s: &J, mut c: S, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    for o in s.at("ops").arr() {
        run(o, &mut |o| {
            let none = || J::Arr(vec![]);
            let num = |x: il2_iltags::io::Result<u64>| match x {
                Ok(v) => (J::from("ok"), word(v)),
                Err(e) => (J::from(io_err(&e)), word(0)),
            };
            let z = word(0);
            let (r, b, v) = match o.at("op").str() {
                "len" => {
                    let (r, v) = num(c.len());
                    (r, none(), v)
                }
                "off" => {
                    let (r, v) = num(c.offset());
                    (r, none(), v)
                }
                "av" => {
                    let (r, v) = num(c.available());
                    (r, none(), v)
                }
                "empty" => {
                    let (r, v) = num(c.is_empty().map(|b| b as u64));
                    (r, none(), v)
                }
                "jump" => {
                    c.jump(n_of(o));
                    (J::from("ok"), none(), z)
                }
                "arm" => {
                    c.arm(o.at("what").str(), o.at("v").bool());
                    (J::from("ok"), none(), z)
                }
                "write" => {
                    let r = Writer::write(&mut c, o.at("b").bytes()[0]);
                    (res(&r), none(), z)
                }
                "wall" => {
                    let r = Writer::write_all(&mut c, &o.at("b").bytes());
                    (res(&r), none(), z)
                }
                "dyn" => {
                    let r = c.as_writer().write_all(&o.at("b").bytes());
                    (res(&r), none(), z)
                }
                _ => {
                    let (r, b) = read_op(&mut c, o);
                    (r, b, z)
                }
            };
            let (p, d) = c.peek();
            J::obj().with("res", r).with("rb", b).with("rv", v).with("pos", word(p)).with("data", J::from(d))
        });
    }
}
pub fn seek(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let d = s.at("init").bytes();
    match s.at("kind").str() {
        "cur" => seek_run(s, std::io::Cursor::new(d), run),
        "far" => seek_run(s, FarStream { data: d, zeros: s.at("zeros").word(), pos: 0 }, run),
        "file" => {
            use std::io::{Seek, SeekFrom, Write};
            let dir = std::env::var("ILV_SCRATCH").unwrap_or_else(|_| fatal("no scratch directory"));
            let p = format!("{dir}/f{}", std::process::id());
            let mut f = std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .create(true)
                .truncate(true)
                .open(&p)
                .unwrap_or_else(|e| fatal(&format!("{p}: {e}")));
            let _ = std::fs::remove_file(&p);
            Write::write_all(&mut f, &d).unwrap();
            Seek::seek(&mut f, SeekFrom::Start(0)).unwrap();
            seek_run(s, f, run)
        }
        k => {
            let f = FaultStream {
                inner: std::io::Cursor::new(d),
                chunk: if k == "chunk" { 2 } else { 0 },
                ..Default::default()
            };
            seek_run(s, f, run)
        }
    }
}
