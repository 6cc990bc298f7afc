//! Stateless operations: one op in, its observed results out.
use crate::json::*;
use crate::model::*;
use crate::readers::*;
use crate::with_reader;
use il2_iltags::ilint;
use il2_iltags::io::array::*;
use il2_iltags::io::data::*;
use il2_iltags::io::{LimitedReader, ReadReader, Reader, Writer, WriteWriter};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::raw::*;
use il2_iltags::tags::serialization::*;
use il2_iltags::tags::standard::explicit::deserialize_string_tag_from_value;
use il2_iltags::tags::standard::ILStandardTagFactory;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub fn dis(v: Vec<J>) -> J {
    let mut o: Vec<J> = vec![];
    for x in v {
        if !o.contains(&x) {
            o.push(x);
        }
    }
    J::Arr(o)
}
/// stands for an error where a byte string is reported
pub fn err_bytes() -> J {
    J::Arr(vec![J::Int(-1)])
}
#[allow(dead_code)]
fn err_small() -> J {
    J::obj().with("id", word(0)).with("off", J::Int(-1)).with("hdr", J::Int(-1)).with("val", J::Int(-1))
}
pub fn io_err(e: &il2_iltags::io::ErrorKind) -> &'static str {
    use il2_iltags::io::ErrorKind::*;
    match e {
        UnableToReadData => "read",
        UnableToWriteData => "write",
        CorruptedData => "corrupted",
        EndOfData => "eod",
        IOError(_) => "io",
        BoxedError(_) => "boxed",
    }
}
pub fn tag_err(e: &ErrorKind) -> String {
    match e {
        ErrorKind::UnknownTag => "unknown".into(),
        ErrorKind::UnsupportedTag => "unsupported".into(),
        ErrorKind::CorruptedData => "corrupted".into(),
        ErrorKind::TagTooLarge => "large".into(),
        ErrorKind::UnexpectedTagType => "type".into(),
        ErrorKind::UnableToSerialize => "unable".into(),
        ErrorKind::IOError(e) => format!("io-{}", io_err(e)),
        ErrorKind::Boxed(_) => "boxed".into(),
    }
}
/// outcome of a read: [ok, word, consumed]; failures are normalized
fn out(r: Option<u64>, n: usize) -> J {
    match r {
        Some(v) => J::obj().with("ok", true).with("v", word(v)).with("n", n),
        None => J::obj().with("ok", false).with("v", word(0)).with("n", 0usize),
    }
}
fn outb(r: Option<Vec<u8>>, n: usize) -> J {
    match r {
        Some(v) => J::obj().with("ok", true).with("b", J::from(v)).with("n", n),
        None => J::obj().with("ok", false).with("b", J::Arr(vec![])).with("n", 0usize),
    }
}

/// Every writing path: runs f on several destinations, all results distinct.
pub fn sinks(f: &dyn Fn(&mut dyn Writer) -> bool) -> Vec<J> {
    let mut o = vec![];
    let mut push = |ok: bool, b: Vec<u8>| o.push(if ok { J::from(b) } else { err_bytes() });
    let mut w = VecWriter::new();
    let ok = f(&mut w);
    let full: Vec<u8> = w.into();
    push(ok, full.clone());
    let mut w = VecWriter::default();
    let ok = f(w.as_writer());
    push(ok && w.get_offset() == w.vec().len(), w.as_slice().to_vec());
    let mut v = vec![9u8; 3];
    let ok = {
        let mut w = BorrowedVecWriter::with_offset(&mut v, 2);
        let ok = f(&mut w);
        ok && w.bytes_written() == full.len()
    };
    push(ok && v[..2] == [9, 9], if full.is_empty() { vec![] } else { v[2..].to_vec() });
    let mut a = vec![7u8; full.len()];
    let ok = f(&mut ByteArrayWriter::new(&mut a));
    push(ok, a);
    let mut w = CapOne { data: vec![], cap: usize::MAX };
    let ok = f(&mut w);
    push(ok, w.data);
    let d = Rc::new(RefCell::new(vec![]));
    let mut c = ChunkWrite { data: d.clone(), pat: vec![2, 0, 1, 0, 0, 7], turn: 0, cap: usize::MAX, zero: false };
    let ok = f(&mut WriteWriter::new(&mut c));
    let got = d.borrow().clone();
    push(ok, got);
    let mut c = std::io::Cursor::new(Vec::new());
    let ok = f(&mut c);
    push(ok && c.position() as usize == c.get_ref().len(), c.into_inner());
    // destinations without room for all of it: a failure, and nothing but a beginning of it written
    let n = full.len();
    for room in std::collections::BTreeSet::from([0, 1, n / 2, n.saturating_sub(1)]) {
        if room >= n || n > 2000 && room > 1 {
            continue;
        }
        let mut a = vec![7u8; room];
        let mut c = CapOne { data: vec![], cap: room };
        let d = Rc::new(RefCell::new(vec![]));
        let mut k = ChunkWrite { data: d.clone(), pat: vec![3, 1, 0], turn: 0, cap: room, zero: room % 2 == 0 };
        let mut ro = VecWriter::new();
        ro.set_read_only(true);
        if f(&mut ByteArrayWriter::new(&mut a)) | f(&mut c) | f(&mut WriteWriter::new(&mut k)) | f(&mut ro) {
            o.push(err_bytes());
        }
        if !full.starts_with(&c.data) || !full.starts_with(&d.borrow()) || !ro.as_slice().is_empty() {
            o.push(err_bytes());
        }
    }
    o
}
/// Whether f fails on arrays without room for its n bytes.
pub fn refused(n: usize, f: &dyn Fn(&mut ByteArrayWriter) -> bool) -> bool {
    [0, n / 2, n.saturating_sub(1)].iter().all(|room| *room >= n || !f(&mut ByteArrayWriter::new(&mut vec![0; *room])))
}

pub fn ilint_paths(b: &[u8]) -> Vec<J> {
    let mut l = vec![];
    if let Ok((v, n)) = ilint::decode_from_bytes(b) {
        l.push(out(Some(v), n));
    } else {
        l.push(out(None, 0));
    }
    for kind in READERS {
        macro_rules! go {
            ($e:expr, $r:ident) => {{
                let (x, n) = with_reader!(kind, b, $r, $e);
                l.push(out(x, n));
            }};
        }
        go!(ilint::decode(r).ok(), r);
        go!(read_ilint(r).ok(), r);
        go!(deserialize_ilint(r).ok(), r);
        go!(ILIntReader::read_ilint(r).ok(), r);
        go!(r.deserialize_ilint().ok(), r);
        go!(
            {
                let d: &mut dyn Reader = r;
                d.read_ilint().ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn Reader = r;
                d.deserialize_ilint().ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn ILIntReader = r;
                d.deserialize_ilint().ok()
            },
            r
        );
    }
    l
}
pub fn silint_paths(b: &[u8]) -> Vec<J> {
    let mut l = vec![];
    for kind in READERS {
        macro_rules! go {
            ($e:expr, $r:ident) => {{
                let (x, n) = with_reader!(kind, b, $r, $e);
                l.push(out(x.map(|v: i64| v as u64), n));
            }};
        }
        go!(ilint::signed_decode(r).ok(), r);
        go!(read_signed_ilint(r).ok(), r);
        go!(SignedILIntReader::read_signed_ilint(r).ok(), r);
        go!(r.deserialize_signed_ilint().ok(), r);
        go!(
            {
                let d: &mut dyn Reader = r;
                d.read_signed_ilint().ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn Reader = r;
                d.deserialize_signed_ilint().ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn SignedILIntReader = r;
                d.deserialize_signed_ilint().ok()
            },
            r
        );
    }
    l
}

fn op_ienc(o: &J) -> J {
    let v = o.at("v").word();
    let mut w = vec![];
    w.extend(sinks(&|d| ilint::encode(v, d).is_ok()));
    w.extend(sinks(&|d| write_ilint(v, d).is_ok()));
    w.extend(sinks(&|d| d.write_ilint(v).is_ok()));
    w.extend(sinks(&|d| serialize_ilint(v, d).is_ok()));
    w.extend(sinks(&|d| d.serialize_ilint(v).is_ok()));
    w.extend(sinks(&|d| {
        let mut t = VecWriter::new();
        let i: &mut dyn ILIntWriter = &mut t;
        i.serialize_ilint(v).is_ok()
            && refused(t.vec().len(), &|a| {
                let i: &mut dyn ILIntWriter = a;
                i.serialize_ilint(v).is_ok()
            })
            && d.write_all(t.as_slice()).is_ok()
    }));
    w.extend(sinks(&|d| {
        let mut t = VecWriter::new();
        ILIntWriter::write_ilint(&mut t, v).is_ok() && t.serialize_ilint(v).is_ok() && {
            let h = t.vec().len() / 2;
            refused(h, &|a| ILIntWriter::write_ilint(a, v).is_ok() || a.serialize_ilint(v).is_ok()) && t.as_slice()[..h] == t.as_slice()[h..] && d.write_all(&t.as_slice()[..h]).is_ok()
        }
    }));
    let mut e = VecWriter::new();
    let _ = ilint::encode(v, &mut e);
    let mut b: Vec<u8> = e.into();
    let n = b.len();
    b.extend(o.at("tail").bytes());
    let body = if n > 1 { out(ilint::decode_body(&b[1..n]).ok(), n) } else { out(Some(v), n) };
    J::obj()
        .with("enc", dis(w))
        .with("sz", ilint::encoded_size(v))
        .with("dec", dis(ilint_paths(&b)))
        .with("body", body)
        .with("hdr", ilint::decoded_size(b[0]))
}
fn op_isgn(o: &J) -> J {
    let v = o.at("v").word() as i64;
    let mut w = vec![];
    w.extend(sinks(&|d| ilint::signed_encode(v, d).is_ok()));
    w.extend(sinks(&|d| write_signed_ilint(v, d).is_ok()));
    w.extend(sinks(&|d| d.write_signed_ilint(v).is_ok()));
    w.extend(sinks(&|d| d.serialize_signed_ilint(v).is_ok()));
    w.extend(sinks(&|d| {
        let mut t = VecWriter::new();
        let i: &mut dyn SignedILIntWriter = &mut t;
        i.serialize_signed_ilint(v).is_ok()
            && refused(t.vec().len(), &|a| {
                let i: &mut dyn SignedILIntWriter = a;
                i.serialize_signed_ilint(v).is_ok()
            })
            && d.write_all(t.as_slice()).is_ok()
    }));
    w.extend(sinks(&|d| {
        let mut t = VecWriter::new();
        SignedILIntWriter::write_signed_ilint(&mut t, v).is_ok() && t.serialize_signed_ilint(v).is_ok() && {
            let h = t.vec().len() / 2;
            refused(h, &|a| SignedILIntWriter::write_signed_ilint(a, v).is_ok() || a.serialize_signed_ilint(v).is_ok()) && t.as_slice()[..h] == t.as_slice()[h..] && d.write_all(&t.as_slice()[..h]).is_ok()
        }
    }));
    let mut e = VecWriter::new();
    let _ = ilint::signed_encode(v, &mut e);
    let mut b: Vec<u8> = e.into();
    b.extend(o.at("tail").bytes());
    let u = ilint::encode_sign(v);
    J::obj()
        .with("enc", dis(w))
        .with("u", word(u))
        .with("back", word(ilint::decode_sign(u) as u64))
        .with("sz", ilint::signed_encoded_size(v))
        .with("dec", dis(silint_paths(&b)))
}

macro_rules! prim_impl {
    ($name:ident, $t:ty, $bits:ty, $rd:path, $wr:path, $to:expr, $from:expr) => {
        fn $name(b: &[u8], tail: &[u8]) -> (Vec<J>, Vec<J>) {
            let mut x = [0u8; std::mem::size_of::<$bits>()];
            let n = b.len().min(x.len());
            x[..n].copy_from_slice(&b[..n]);
            let mut bits: $bits = 0;
            for y in x {
                bits = ((bits as u128 * 256 + y as u128) & (<$bits>::MAX as u128)) as $bits;
            }
            let v: $t = $from(bits);
            let bits_of = |v: $t| -> u64 { ($to(v)) as u64 };
            let mut w = vec![];
            if b.len() == x.len() {
                w.extend(sinks(&|d| $wr(v, d).is_ok()));
                w.extend(sinks(&|d| d.write_value(v).is_ok()));
                w.extend(sinks(&|d| d.serialize_value(v).is_ok()));
                w.extend(sinks(&|d| {
                    let mut t = VecWriter::new();
                    let i: &mut dyn ValueWriter<$t> = &mut t;
                    i.serialize_value(v).is_ok()
            && refused(t.vec().len(), &|a| {
                let i: &mut dyn ValueWriter<$t> = a;
                i.serialize_value(v).is_ok()
            })
            && d.write_all(t.as_slice()).is_ok()
                }));
                w.extend(sinks(&|d| {
                    let mut t = VecWriter::new();
                    ValueWriter::<$t>::write_value(&mut t, v).is_ok()
                        && ValueSerializer::<$t>::serialize_value(&mut t, v).is_ok()
                        && {
                            let h = t.vec().len() / 2;
                            refused(h, &|a| ValueWriter::<$t>::write_value(a, v).is_ok() || ValueSerializer::<$t>::serialize_value(a, v).is_ok())
                                && t.as_slice()[..h] == t.as_slice()[h..] && d.write_all(&t.as_slice()[..h]).is_ok()
                        }
                }));
            }
            let mut all = b.to_vec();
            all.extend(tail);
            let mut l = vec![];
            for kind in READERS {
                macro_rules! go {
                    ($e:expr, $r:ident) => {{
                        let (x, n) = with_reader!(kind, &all, $r, {
                            let x: Option<$t> = $e;
                            x
                        });
                        l.push(out(x.map(bits_of), n));
                    }};
                }
                go!($rd(r).ok(), r);
                go!(ValueReader::<$t>::read_value(r).ok(), r);
                go!(ValueDeserializer::<$t>::deserialize_value(r).ok(), r);
                go!(
                    {
                        let d: &mut dyn Reader = r;
                        ValueReader::<$t>::read_value(d).ok()
                    },
                    r
                );
                go!(
                    {
                        let d: &mut dyn Reader = r;
                        ValueDeserializer::<$t>::deserialize_value(d).ok()
                    },
                    r
                );
                go!(
                    {
                        let d: &mut dyn ValueReader<$t> = r;
                        d.deserialize_value().ok()
                    },
                    r
                );
            }
            (w, l)
        }
    };
}
prim_impl!(p_u8, u8, u8, read_u8, write_u8, |v| v, |b| b);
prim_impl!(p_i8, i8, u8, read_i8, write_i8, |v| v as u8, |b| b as i8);
prim_impl!(p_u16, u16, u16, read_u16, write_u16, |v| v, |b| b);
prim_impl!(p_i16, i16, u16, read_i16, write_i16, |v| v as u16, |b| b as i16);
prim_impl!(p_u32, u32, u32, read_u32, write_u32, |v| v, |b| b);
prim_impl!(p_i32, i32, u32, read_i32, write_i32, |v| v as u32, |b| b as i32);
prim_impl!(p_u64, u64, u64, read_u64, write_u64, |v| v, |b| b);
prim_impl!(p_i64, i64, u64, read_i64, write_i64, |v| v as u64, |b| b as i64);
prim_impl!(p_f32, f32, u32, read_f32, write_f32, f32::to_bits, f32::from_bits);
prim_impl!(p_f64, f64, u64, read_f64, write_f64, f64::to_bits, f64::from_bits);

fn op_prim(o: &J) -> J {
    let b = o.at("b").bytes();
    let tail = o.at("tail").bytes();
    let f = match o.at("ty").str() {
        "u8" => p_u8,
        "i8" => p_i8,
        "u16" => p_u16,
        "i16" => p_i16,
        "u32" => p_u32,
        "i32" => p_i32,
        "u64" => p_u64,
        "i64" => p_i64,
        "f32" => p_f32,
        "f64" => p_f64,
        _ => fatal("bad prim"),
    };
    let (w, l) = f(&b, &tail);
    J::obj().with("enc", dis(w)).with("dec", dis(l))
}
fn op_str(o: &J) -> J {
    // strings and byte arrays: b written, then read back with n bytes
    let b = o.at("b").bytes();
    let n = o.at("n").us();
    let mut w = vec![];
    if let Ok(s) = std::str::from_utf8(&b) {
        w.extend(sinks(&|d| write_string(s, d).is_ok()));
        w.extend(sinks(&|d| d.write_value(s).is_ok()));
        w.extend(sinks(&|d| d.serialize_value(s).is_ok()));
        w.extend(sinks(&|d| {
            let mut t = VecWriter::new();
            let i: &mut dyn ValueWriter<&str> = &mut t;
            i.serialize_value(s).is_ok()
            && refused(t.vec().len(), &|a| {
                let i: &mut dyn ValueWriter<&str> = a;
                i.serialize_value(s).is_ok()
            })
            && d.write_all(t.as_slice()).is_ok()
        }));
        w.extend(sinks(&|d| {
            let mut t = VecWriter::new();
            ValueWriter::<&str>::write_value(&mut t, s).is_ok()
                && refused(s.len(), &|a| ValueWriter::<&str>::write_value(a, s).is_ok() || ValueSerializer::<&str>::serialize_value(a, s).is_ok())
                && d.write_all(t.as_slice()).is_ok()
        }));
    }
    let mut wb = vec![];
    wb.extend(sinks(&|d| serialize_bytes(&b, d).is_ok()));
    wb.extend(sinks(&|d| d.serialize_bytes(&b).is_ok()));
    wb.extend(sinks(&|d| {
        let mut t = VecWriter::new();
        ByteArraySerializer::serialize_bytes(&mut t, &b).is_ok()
            && refused(b.len(), &|a| ByteArraySerializer::serialize_bytes(a, &b).is_ok())
            && d.write_all(t.as_slice()).is_ok()
    }));
    #[allow(deprecated)]
    wb.extend(sinks(&|d| d.serialize_byte_vec(&b).is_ok()));
    let mut l = vec![];
    let mut lb = vec![];
    for kind in READERS {
        macro_rules! go {
            ($e:expr, $r:ident) => {{
                let (x, n) = with_reader!(kind, &b, $r, $e);
                l.push(outb(x.map(|s: String| s.into_bytes()), n));
            }};
        }
        macro_rules! gob {
            ($e:expr, $r:ident) => {{
                let (x, n) = with_reader!(kind, &b, $r, $e);
                lb.push(outb(x, n));
            }};
        }
        go!(read_string(r, n).ok(), r);
        go!(StringValueReader::read_string(r, n).ok(), r);
        go!(r.deserialize_string(n).ok(), r);
        go!(
            {
                let d: &mut dyn Reader = r;
                d.read_string(n).ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn Reader = r;
                d.deserialize_string(n).ok()
            },
            r
        );
        go!(
            {
                let d: &mut dyn StringValueReader = r;
                d.deserialize_string(n).ok()
            },
            r
        );
        gob!(deserialize_bytes(n, r).ok(), r);
        gob!(r.deserialize_bytes(n).ok(), r);
        gob!(
            {
                let d: &mut dyn Reader = r;
                d.deserialize_bytes(n).ok()
            },
            r
        );
        gob!(
            {
                let mut v = vec![1u8; 5];
                deserialize_bytes_into_vec(n, r, &mut v).ok().map(|_| v)
            },
            r
        );
        gob!(
            {
                let mut v = vec![1u8; n + 2];
                r.deserialize_bytes_into_vec(n, &mut v).ok().map(|_| v)
            },
            r
        );
        gob!(
            {
                let mut v = vec![1u8; n];
                r.deserialize_bytes_into_slice(&mut v).ok().map(|_| v)
            },
            r
        );
        gob!(
            {
                let mut v = vec![1u8; n];
                let d: &mut dyn Reader = r;
                d.deserialize_bytes_into_slice(&mut v).ok().map(|_| v)
            },
            r
        );
    }
    J::obj()
        .with("enc", dis(w))
        .with("encb", dis(wb))
        .with("dec", dis(l))
        .with("decb", dis(lb))
}

// ----------------------------------------------------------------- tags
fn op_strtag(o: &J) -> J {
    use il2_iltags::tags::standard::explicit::*;
    let b = o.at("b").bytes();
    let mut w = vec![];
    let mut sz = 0;
    if let Ok(s) = std::str::from_utf8(&b) {
        w.extend(sinks(&|d| serialize_string_tag_from_value(s, d).is_ok()));
        sz = string_tag_size_from_value(s) as usize;
    }
    let raw = o.at("raw").bytes();
    let mut l = vec![];
    for kind in READERS {
        let (x, n) = with_reader!(kind, &raw, r, deserialize_string_tag_from_value(r).ok());
        l.push(outb(x.map(|s| s.into_bytes()), n));
        let (x, n) = with_reader!(kind, &raw, r, {
            let mut s = String::from("before \u{e9}");
            deserialize_string_tag_from_value_into(r, &mut s).ok().map(|_| s)
        });
        l.push(outb(x.map(|s| s.into_bytes()), n));
    }
    J::obj().with("enc", dis(w)).with("sz", sz).with("dec", dis(l))
}
/// Constants and classifications of an id / a size.
fn op_ids(o: &J) -> J {
    let v = o.at("v").word();
    let (sok, sv) = match tag_size_to_usize(v) {
        Ok(x) => (true, x as u64),
        Err(ErrorKind::TagTooLarge) => (false, 0),
        Err(_) => (false, 1),
    };
    J::obj()
        .with("impl", is_implicit_tag(v))
        .with("resv", is_reserved_tag(v))
        .with("isz", il2_iltags::tags::standard::implicit::implicit_tag_size(v) as usize)
        .with("sok", sok)
        .with("sv", word(sv))
}
fn none_tag() -> J {
    rec("none", 0, J::Arr(vec![]), vec![], vec![], vec![])
}
pub fn outt(r: &std::result::Result<TBox, ErrorKind>, n: usize) -> J {
    match r {
        Ok(t) => J::obj().with("ok", true).with("t", observe(t.as_ref())).with("n", n),
        Err(_) => J::obj().with("ok", false).with("t", none_tag()).with("n", 0usize),
    }
}
fn op_ser(o: &J) -> J {
    let t = build(o.at("t"));
    let before = observe(t.as_ref());
    let mut w = vec![];
    w.push(t.to_bytes().map(J::from).unwrap_or(err_bytes()));
    w.extend(sinks(&|d| t.serialize(d).is_ok()));
    let v = sinks(&|d| t.serialize_value(d).is_ok());
    let mut n = vec![];
    nodes(t.as_ref(), &mut n);
    let after = observe(t.as_ref());
    J::obj()
        .with("obs", dis(vec![before, after]))
        .with("by", dis(w))
        .with("val", dis(v))
        .with("nodes", J::Arr(n))
        .with("impl", t.is_implicity())
        .with("resv", t.is_reserved())
}
fn op_dec(o: &J) -> J {
    let b = o.at("b").bytes();
    let f = factory(o.at("R"));
    let mut l = vec![];
    let mut errs = vec![];
    let mut hw = 0;
    for kind in READERS {
        let (r, n) = with_reader!(kind, &b, r, f.deserialize(r));
        l.push(outt(&r, n));
        if let Err(e) = &r {
            errs.push(J::from(tag_err(e)));
            if kind == "one" || kind == "chunk" || kind == "lim2" || kind == "arr" {
                hw = hw.max(n);
            }
        }
    }
    let fb = f.from_bytes(&b);
    let mut re = J::Arr(vec![]);
    if let Ok(t) = f.deserialize(&mut ByteArrayReader::new(&b)) {
        re = t.to_bytes().map(J::from).unwrap_or(err_bytes());
    }
    let fe = fb.as_ref().err().map(tag_err).unwrap_or_default();
    J::obj()
        .with("out", dis(l))
        .with("errs", dis(errs))
        .with("hw", hw)
        .with("fb", fb.is_ok())
        .with("fbt", outt(&fb, 0).at("t").clone())
        .with("fberr", fe)
        .with("re", re)
}
/// Strict prefixes of b that decode (with the lengths), on several readers.
fn op_trunc(o: &J) -> J {
    let b = o.at("b").bytes();
    let f = factory(o.at("R"));
    let mut bad = vec![];
    for k in 0..b.len() {
        for kind in READERS {
            let (r, _) = with_reader!(kind, &b[..k], r, f.deserialize(r));
            if r.is_ok() {
                bad.push(J::from(k));
            }
        }
        if f.from_bytes(&b[..k]).is_ok() {
            bad.push(J::from(k));
        }
    }
    let full = f.from_bytes(&b);
    let mut pads = vec![];
    for p in [vec![0u8], vec![0xff], vec![16, 0], b.clone()] {
        let mut x = b.clone();
        x.extend(p);
        pads.push(J::from(match f.from_bytes(&x) {
            Ok(_) => "ok".to_string(),
            Err(e) => tag_err(&e),
        }));
    }
    J::obj().with("okp", dis(bad)).with("full", full.is_ok()).with("pads", dis(pads))
}
/// Decodes tag after tag until an error; ends with the number left.
fn op_cat(o: &J) -> J {
    let b = o.at("b").bytes();
    let f = factory(o.at("R"));
    let m = o.at("m").us();
    let mut all = vec![];
    for kind in READERS {
        let (l, n) = with_reader!(kind, &b, r, {
            let mut l = vec![];
            let mut end = true;
            for _ in 0..m {
                match f.deserialize(r) {
                    Ok(t) => l.push(observe(t.as_ref())),
                    Err(_) => {
                        end = false;
                        break;
                    }
                }
            }
            (l, end)
        });
        all.push(J::obj().with("ts", J::Arr(l.0)).with("ok", l.1).with("n", if l.1 { n } else { 0 }));
    }
    J::obj().with("out", dis(all))
}
/// The size reported is that of what is written, whatever became of the tag.
fn sized(t: &dyn ILTag) -> bool {
    let n = t.size();
    let mut w = VecWriter::new();
    t.serialize(&mut w).is_ok() && w.vec().len() as u64 == n && t.size() == n && t.value_size() <= n
}
fn op_into(o: &J) -> J {
    let b = o.at("b").bytes();
    let f = factory(o.at("R"));
    let mut l = vec![];
    let mut errs = vec![];
    for kind in READERS {
        let mut t = build(o.at("t"));
        let mut sz = sized(t.as_ref());
        // earlier decodes into the same instance, possibly failing
        for p in o.at("pre").arr() {
            let _ = f.deserialize_into(&mut ByteArrayReader::new(&p.bytes()), t.as_mut());
            sz &= sized(t.as_ref());
        }
        let id = t.id();
        let kept = observe(t.as_ref());
        let (r, n) = with_reader!(kind, &b, r, f.deserialize_into(r, t.as_mut()));
        sz &= sized(t.as_ref());
        let e = r.as_ref().err().map(tag_err).unwrap_or_default();
        errs.push(J::from(e.clone()));
        let ok = r.is_ok();
        let now = if ok || e == "type" { observe(t.as_ref()) } else { none_tag() };
        l.push(
            J::obj()
                .with("ok", ok)
                .with("t", if ok { now.clone() } else { none_tag() })
                .with("n", if ok { n } else { 0 })
                .with("same", if e == "type" { now == kept } else { true })
                .with("id", word(t.id()))
                .with("id0", word(id))
                .with("sz", sz)
                .with("by", if ok { t.to_bytes().map(J::from).unwrap_or(err_bytes()) } else { J::Arr(vec![]) }),
        );
    }
    J::obj().with("out", dis(l)).with("errs", dis(errs))
}
/// Decoding just the value of n bytes into an existing tag, from a source that may
/// hold more or less.
fn op_val(o: &J) -> J {
    let b = o.at("b").bytes();
    let n = o.at("n").us();
    let f = factory(o.at("R"));
    let mut l = vec![];
    let mut hw = 0;
    for kind in READERS {
        let mut t = build(o.at("t"));
        let mut sz = sized(t.as_ref());
        let (r, used) = with_reader!(kind, &b, r, t.deserialize_value(&f, n, r));
        sz &= sized(t.as_ref());
        let ok = r.is_ok();
        if !ok && (kind == "one" || kind == "chunk" || kind == "lim2" || kind == "arr") {
            hw = hw.max(used);
        }
        l.push(
            J::obj()
                .with("ok", ok)
                .with("t", if ok { observe(t.as_ref()) } else { none_tag() })
                .with("n", if ok { used } else { 0 })
                .with("id", word(t.id()))
                .with("sz", sz)
                .with("by", if ok { t.to_bytes().map(J::from).unwrap_or(err_bytes()) } else { J::Arr(vec![]) }),
        );
    }
    J::obj().with("out", dis(l)).with("hw", hw)
}
/// Values followed by filling that is inside of the declared length; says which
/// lengths of filling were accepted.
fn op_pad(o: &J) -> J {
    use il2_iltags::tags::standard::*;
    let v = o.at("v").bytes();
    let id = o.at("id").word();
    let fill = o.at("fill").us() as u8;
    let f = factory(o.at("R"));
    let mut acc = vec![];
    for z in o.at("zs").arr() {
        let mut x = v.clone();
        x.resize(v.len() + z.us(), fill);
        let b = ILRawTag::with_value(id, &x).to_bytes().unwrap_or_default();
        let mut seq = ILTagSeqTag::new();
        seq.mut_value().push(Box::new(ILRawTag::with_value(id, &x)));
        let outer = seq.to_bytes().unwrap_or_default();
        let mut follow = b.clone();
        follow.extend([0, 0, 0]);
        let mut direct = match f.create_tag(id) {
            Some(t) => t,
            None => fatal("unknown id to pad"),
        };
        let mut follow_v = x.clone();
        follow_v.extend([0, 0, 0]);
        let oks = [
            f.from_bytes(&b).is_ok(),
            f.from_bytes(&outer).is_ok(),
            f.deserialize(&mut ByteArrayReader::new(&follow)).is_ok(),
            f.deserialize(&mut std::io::Cursor::new(&follow)).is_ok(),
            direct.deserialize_value(&f, x.len(), &mut ByteArrayReader::new(&follow_v)).is_ok(),
        ];
        acc.push(J::Arr(oks.iter().map(|x| J::from(*x)).collect()));
    }
    J::obj().with("acc", J::Arr(acc))
}
/// A value that claims to have any size, whatever it writes.
struct Claim {
    id: u64,
    n: u64,
    b: Vec<u8>,
}
impl ILTag for Claim {
    fn id(&self) -> u64 {
        self.id
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn value_size(&self) -> u64 {
        self.n
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> Result<()> {
        Ok(w.write_all(&self.b)?)
    }
    fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
}
#[derive(Default)]
struct ClaimPayload(usize, Vec<u8>);
impl ILTagPayload for ClaimPayload {
    fn serialized_size(&self) -> usize {
        self.0
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        Ok(w.write_all(&self.1)?)
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> {
        Err(ErrorKind::UnsupportedTag)
    }
}
/// An application type that fails or panics whenever it is asked to do something.
#[derive(Default)]
struct Broken {
    id: u64,
    panics: bool,
}
impl Broken {
    fn act(&self) -> Result<()> {
        if self.panics {
            panic!("broken application type")
        }
        Err(ErrorKind::UnsupportedTag)
    }
}
impl DefaultWithId for Broken {
    fn default_with_id(id: u64) -> Self {
        if id % 2 == 1 {
            panic!("broken application type")
        }
        Broken { id, panics: id % 4 == 0 }
    }
}
impl ILTag for Broken {
    fn id(&self) -> u64 {
        self.id
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn value_size(&self) -> u64 {
        0
    }
    fn serialize_value(&self, _w: &mut dyn Writer) -> Result<()> {
        self.act()
    }
    fn deserialize_value(&mut self, _f: &dyn ILTagFactory, _n: usize, _r: &mut dyn Reader) -> Result<()> {
        self.act()
    }
}
fn build_claim(t: &J) -> TBox {
    use il2_iltags::tags::standard::*;
    let id = t.at("id").word();
    match t.at("k").str() {
        "claim" => Box::new(Claim { id, n: t.at("w").words()[0], b: t.at("b").bytes() }),
        "fail" | "boom" => Box::new(Broken { id, panics: t.at("k").str() == "boom" }),
        "cpay" => {
            let mut x = ILGenericPayloadTag::<ClaimPayload>::new(id);
            x.mut_payload().0 = t.at("w").words()[0] as usize;
            x.mut_payload().1 = t.at("b").bytes();
            Box::new(x)
        }
        "seq" => {
            let mut x = ILTagSeqTag::with_id(id);
            t.at("c").arr().iter().for_each(|c| x.mut_value().push(build_claim(c)));
            Box::new(x)
        }
        "arr" => {
            let mut x = ILTagArrayTag::with_id(id);
            t.at("c").arr().iter().for_each(|c| x.mut_value().push(build_claim(c)));
            Box::new(x)
        }
        "dict" => {
            let mut x = ILDictTag::with_id(id);
            for (s, c) in t.at("s").arr().iter().zip(t.at("c").arr()) {
                x.insert(std::str::from_utf8(&s.bytes()).unwrap(), build_claim(c));
            }
            Box::new(x)
        }
        _ => build(t),
    }
}
/// Sizes and headers around values of claimed sizes.
fn op_huge(o: &J) -> J {
    let t = build_claim(o.at("t"));
    let w: Vec<J> = sinks(&|d| t.serialize(d).is_ok());
    J::obj().with("size", word(t.size())).with("vsize", word(t.value_size())).with("by", dis(w))
}
/// Cloning and comparing tags that do not write what they declare.
fn op_lie(o: &J) -> J {
    let a = build_claim(o.at("t"));
    let b = build_claim(o.at("u"));
    let (x, y) = (a.as_ref(), b.as_ref());
    let f = factory(o.at("R"));
    let std = iltag_clone(x);
    let own = iltag_clone_with_factory(&f, x);
    let bytes = |r: &Result<TBox>| match r {
        Ok(c) => c.to_bytes().map(J::from).unwrap_or(err_bytes()),
        Err(_) => J::Arr(vec![]),
    };
    J::obj()
        .with("by", dis(sinks(&|d| x.serialize(d).is_ok())))
        .with("std", outt(&std, 0))
        .with("own", outt(&own, 0))
        .with("stdb", bytes(&std))
        .with("ownb", bytes(&own))
        .with("ab", iltag_are_equal(x, y))
        .with("ba", iltag_are_equal(y, x))
        .with("aa", iltag_are_equal(x, x))
        .with("bb", iltag_are_equal(y, y))
}
/// Operations that an application type makes fail or panic, then the same
/// operations with ordinary tags on the same objects.
fn op_broken(o: &J) -> J {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    let a = build_claim(o.at("t"));
    let b = build_claim(o.at("u"));
    let (x, y) = (a.as_ref(), b.as_ref());
    let mut f = factory(o.at("R"));
    let bid = o.at("id").word();
    f.engine().register(bid, Box::new(ILDefaultWithIdTagCreator::<Broken>::default()));
    let bad = o.at("bad").bytes();
    let good = o.at("good").bytes();
    let mut seq = il2_iltags::tags::standard::ILTagSeqTag::new();
    let mut broke = vec![];
    let mut tell = |r: std::thread::Result<bool>| {
        broke.push(J::from(match r {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        }))
    };
    for w in o.at("do").arr() {
        tell(catch_unwind(AssertUnwindSafe(|| match w.str() {
            "ser" => x.to_bytes().is_ok(),
            "clone" => iltag_clone(x).is_ok(),
            "clonef" => iltag_clone_with_factory(&f, x).is_ok(),
            "eq" => {
                let (a, b, c) = (iltag_are_equal(x, y), iltag_are_equal(y, x), iltag_are_equal(x, x));
                a || b || c
            }
            "create" => f.create_tag(bid).is_some(),
            "dec" => f.from_bytes(&bad).is_ok(),
            "into" => f.deserialize_into(&mut ByteArrayReader::new(&bad), &mut seq).is_ok(),
            _ => fatal("what to break"),
        })));
    }
    let after = f.from_bytes(&good);
    let (clone, eq) = match &after {
        Ok(t) => (
            outt(&iltag_clone_with_factory(&f, t.as_ref()), 0),
            iltag_are_equal(t.as_ref(), t.as_ref()),
        ),
        Err(_) => (outt(&after, 0), true),
    };
    let std = iltag_clone(y);
    let into = match f.deserialize_into(&mut ByteArrayReader::new(o.at("seq").bytes().as_slice()), &mut seq) {
        Ok(()) => outt(&Ok(Box::new(seq)), 0),
        Err(_) => outt(&Err(ErrorKind::UnsupportedTag), 0),
    };
    J::obj()
        .with("broke", J::Arr(broke))
        .with("after", outt(&after, 0))
        .with("clone", clone)
        .with("eq", eq)
        .with("std", outt(&std, 0))
        .with("into", into)
}
fn op_eq(o: &J) -> J {
    let a = build(o.at("a"));
    let b = build(o.at("b"));
    let (x, y) = (a.as_ref(), b.as_ref());
    J::obj()
        .with("ab", iltag_are_equal(x, y))
        .with("ba", iltag_are_equal(y, x))
        .with("aa", iltag_are_equal(x, x))
        .with("bb", iltag_are_equal(y, y))
}
/// A large tag of n elements of a pattern, changed at the places d.
fn pattern(x: &J) -> TBox {
    use il2_iltags::tags::standard::*;
    let n = x.at("n").us();
    let id = x.at("id").word();
    let d: Vec<usize> = x.at("d").arr().iter().map(|i| i.us()).collect();
    let mut v: Vec<u8> = (0..n).map(|i| 32 + ((i * 7 + i / 251) % 90) as u8).collect();
    d.iter().for_each(|i| v[*i] ^= 1);
    let leaf = |b: u8| -> TBox { Box::new(ILUInt8Tag::with_value(b)) };
    match x.at("k").str() {
        "raw" => Box::new(ILRawTag::with_value(id, &v)),
        "bytes" => Box::new(ILByteArrayTag::with_value(&v)),
        "str" => Box::new(ILStringTag::with_id_value(id, std::str::from_utf8(&v).unwrap())),
        "pay" => {
            let mut t = PayTag::new(id);
            t.mut_payload().0 = v;
            Box::new(t)
        }
        "seqof" => {
            let mut t = ILTagSeqTag::with_id(id);
            t.mut_value().push(Box::new(ILByteArrayTag::with_value(&v)));
            t.mut_value().push(leaf(1));
            Box::new(t)
        }
        "ilarr" => {
            let w: Vec<u64> =
                v.iter().enumerate().map(|(i, b)| (*b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (i % 50)).collect();
            Box::new(ILILIntArrayTag::with_id_value(id, &w))
        }
        "arr" => {
            let mut t = ILTagArrayTag::with_id(id);
            v.iter().for_each(|b| t.mut_value().push(leaf(*b)));
            Box::new(t)
        }
        "seq" => {
            let mut t = ILTagSeqTag::with_id(id);
            v.iter().for_each(|b| t.mut_value().push(leaf(*b)));
            Box::new(t)
        }
        "dict" => {
            let mut t = ILDictTag::with_id(id);
            v.iter().enumerate().for_each(|(i, b)| {
                t.insert(&format!("k{i}"), leaf(*b));
            });
            Box::new(t)
        }
        k => bad(&format!("no pattern {k}")),
    }
}
fn op_eqbig(o: &J) -> J {
    use il2_iltags::tags::standard::*;
    let a = pattern(o.at("x"));
    let b = pattern(o.at("y"));
    let (x, y) = (a.as_ref(), b.as_ref());
    let mut f = ILStandardTagFactory::new(false);
    f.engine().register(1000, Box::new(ILDefaultWithIdTagCreator::<PayTag>::default()));
    for (k, id) in [("ilarr", 120), ("arr", 121), ("seq", 122), ("dict", 130), ("pay", 1100)] {
        f.engine().register(id, creator(k, ""));
    }
    let mut clones = vec![];
    let mut back = vec![];
    for t in [x, y] {
        let c = iltag_clone_with_factory(&f, t);
        clones.push(J::from(matches!(&c, Ok(c) if iltag_are_equal(c.as_ref(), t) && iltag_are_equal(t, c.as_ref()))));
        // compared without the library
        back.push(J::from(matches!(&c, Ok(c) if same_value(c.as_ref(), t))));
    }
    J::obj()
        .with("ab", iltag_are_equal(x, y))
        .with("ba", iltag_are_equal(y, x))
        .with("aa", iltag_are_equal(x, x))
        .with("bb", iltag_are_equal(y, y))
        .with("clone", dis(clones))
        .with("back", dis(back))
}
/// The same id and contents, through the getters.
fn same_value(a: &dyn ILTag, b: &dyn ILTag) -> bool {
    let f = |t| {
        let mut o = observe(t);
        if matches!(o.at("k").str(), "raw" | "bytes" | "str") {
            o.set("k", J::from("blob"));
        }
        o.to_string()
    };
    f(a) == f(b)
}
fn op_clone(o: &J) -> J {
    let mut t = build(o.at("t"));
    let before = observe(t.as_ref());
    let r = if o.at("std").bool() {
        iltag_clone(t.as_ref())
    } else {
        iltag_clone_with_factory(&factory(o.at("R")), t.as_ref())
    };
    let first = outt(&r, 0);
    let eq = match &r {
        Ok(c) => iltag_are_equal(c.as_ref(), t.as_ref()),
        Err(_) => false,
    };
    let by = match &r {
        Ok(c) => c.to_bytes().map(J::from).unwrap_or(err_bytes()),
        Err(_) => J::Arr(vec![]),
    };
    // change the original, then the clone: neither affects the other
    let mut indep = observe(t.as_ref()) == before;
    if let Ok(mut c) = r {
        let cv = observe(c.as_ref());
        disturb(t.as_mut());
        indep = indep && observe(c.as_ref()) == cv;
        let tv = observe(t.as_ref());
        disturb(c.as_mut());
        indep = indep && observe(t.as_ref()) == tv;
    }
    J::obj().with("out", first).with("eq", eq).with("by", by).with("indep", indep)
}
/// Any change of the value that can be made on the type.
pub fn disturb(t: &mut dyn ILTag) {
    use il2_iltags::tags::standard::*;
    if let Some(x) = tag_downcast_mut::<ILTagSeqTag>(t) {
        x.mut_value().iter_mut().for_each(|c| disturb(c.as_mut()));
        x.mut_value().push(Box::new(ILNullTag::new()));
    } else if let Some(x) = tag_downcast_mut::<ILTagArrayTag>(t) {
        x.mut_value().iter_mut().for_each(|c| disturb(c.as_mut()));
        x.mut_value().push(Box::new(ILNullTag::new()));
    } else if let Some(x) = tag_downcast_mut::<ILDictTag>(t) {
        x.mut_value().values_mut().for_each(|c| disturb(c.as_mut()));
        x.insert("disturbed", Box::new(ILNullTag::new()));
    } else if let Some(x) = tag_downcast_mut::<ILStrDictTag>(t) {
        x.mut_value().values_mut().for_each(|c| c.push('!'));
        x.insert("disturbed", "");
    } else if let Some(x) = tag_downcast_mut::<ILRawTag>(t) {
        x.mut_value().push(1);
    } else if let Some(x) = tag_downcast_mut::<ILByteArrayTag>(t) {
        x.mut_value().push(1);
    } else if let Some(x) = tag_downcast_mut::<ILBigIntTag>(t) {
        x.mut_value().push(1);
    } else if let Some(x) = tag_downcast_mut::<ILBigDecTag>(t) {
        x.mut_value().push(1);
    } else if let Some(x) = tag_downcast_mut::<ILStringTag>(t) {
        x.mut_value().push('!');
    } else if let Some(x) = tag_downcast_mut::<ILILIntArrayTag>(t) {
        x.mut_value().push(7);
    } else if let Some(x) = tag_downcast_mut::<ILOIDTag>(t) {
        x.mut_value().push(7);
    } else if let Some(x) = tag_downcast_mut::<ILUInt64Tag>(t) {
        let v = x.value();
        x.set_value(!v);
    } else if let Some(x) = tag_downcast_mut::<ILILInt64Tag>(t) {
        let v = x.value();
        x.set_value(!v);
    } else if let Some(x) = tag_downcast_mut::<PayTag>(t) {
        x.mut_payload().0.push(1);
    }
}

/// What a slicing call selects, or the mark of a call that refuses (panics: the bytes are not there).
fn slice_or_refused<'a>(f: impl Fn() -> &'a [u8]) -> J {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(l) => J::from(l),
        Err(_) => err_bytes(),
    }
}
fn extent(x: &RawTagOffset, b: &[u8]) -> J {
    J::obj()
        .with("id", word(x.id()))
        .with("off", word(x.offset()))
        .with("hdr", word(x.value_offset() - x.offset()))
        .with("val", word(x.value_size()))
        .with("size", word(x.size()))
        .with("next", word(x.next_tag_offset()))
        .with("vs", word(x.value_start() as u64))
        .with("ve", word(x.value_end() as u64))
        .with("ts", word(x.tag_start() as u64))
        .with("te", word(x.tag_end() as u64))
        .with("tb", slice_or_refused(|| x.tag_slice(b)))
        .with("vb", slice_or_refused(|| x.value_slice(b)))
}
/// Scans until an error (or m tags); `want` gives ids for next_tag_if_id.
fn op_scan(o: &J) -> J {
    let b = o.at("b").bytes();
    let m = o.at("m").us();
    let want = o.at("want").words();
    let mut all = vec![];
    for kind in READERS {
        let (l, n) = with_reader!(kind, &b, r, {
            let mut s = RawTagScanner::new(r);
            let mut l = vec![];
            let mut other = vec![];
            let mut end = "more".to_string();
            for i in 0..m {
                let x = if want.is_empty() { s.next_tag() } else { s.next_tag_if_id(want[i % want.len()]) };
                match x {
                    Ok(Some(t)) => l.push(extent(&t, &b)),
                    Ok(None) => {
                        end = "none".into();
                        break;
                    }
                    Err(e) if tag_err(&e) == "type" => other.push(J::from(i + 1)),
                    Err(_) => {
                        end = "error".into();
                        break;
                    }
                }
            }
            (l, other, end)
        });
        let ok = l.2 != "error";
        all.push(
            J::obj()
                .with("x", J::Arr(l.0))
                .with("other", J::Arr(l.1))
                .with("end", l.2)
                .with("n", if ok { n } else { 0 }),
        );
    }
    J::obj().with("out", dis(all))
}
fn rto(j: &J) -> RawTagOffset {
    RawTagOffset::new(j.at("id").word(), j.at("off").word(), j.at("hdr").word(), j.at("val").word())
}
pub fn small(x: &RawTagOffset) -> J {
    J::obj()
        .with("id", word(x.id()))
        .with("off", word(x.offset()))
        .with("hdr", word(x.value_offset() - x.offset()))
        .with("val", word(x.value_size()))
}
/// Derived positions, and mapping x through the chain of parents (innermost first).
fn op_ext(o: &J) -> J {
    let b = o.at("b").bytes();
    let x = rto(o.at("x"));
    let mut cur = x;
    let mut maps = vec![];
    let mut err = String::new();
    for p in o.at("par").arr() {
        match cur.map_to_parent_space(&rto(p)) {
            Ok(c) => {
                cur = c;
                maps.push(small(&cur));
            }
            Err(e) => {
                err = tag_err(&e);
                break;
            }
        }
    }
    let d = RawTagOffset::default();
    J::obj()
        .with("e", extent(&x, &b))
        .with("maps", J::Arr(maps))
        .with("err", err)
        .with("dflt", small(&d))
        .with("copy", x == rto(o.at("x")))
}
/// Scan a nested tree of containers in b: path of child indices; the extent of
/// the innermost one mapped to the outermost space and its bytes.
fn op_nest(o: &J) -> J {
    let b = o.at("b").bytes();
    let mut chain: Vec<RawTagOffset> = vec![];
    let mut cur: Vec<u8> = b.clone();
    let mut local: Vec<J> = vec![];
    for (lvl, step) in o.at("path").arr().iter().enumerate() {
        // skip: bytes before the first child inside the value (element count)
        let skip = step.arr()[0].us();
        let idx = step.arr()[1].us();
        let mut rd = ByteArrayReader::new(&cur[skip..]);
        let mut s = RawTagScanner::new(&mut rd);
        let mut hit = None;
        for _ in 0..=idx {
            match s.next_tag() {
                Ok(Some(t)) => hit = Some(t),
                _ => return J::obj().with("err", format!("scan failed at level {lvl}")),
            }
        }
        let h = hit.unwrap();
        // position relative to the parent's value
        let h = RawTagOffset::new(h.id(), h.offset() + skip as u64, h.value_offset() - h.offset(), h.value_size());
        local.push(small(&h));
        chain.push(h);
        cur = h.value_slice(&cur).to_vec();
    }
    let mut x = *chain.last().unwrap();
    for p in chain.iter().rev().skip(1) {
        x = match x.map_to_parent_space(p) {
            Ok(x) => x,
            Err(e) => return J::obj().with("err", tag_err(&e)),
        };
    }
    J::obj().with("err", "").with("local", J::Arr(local)).with("x", extent(&x, &b)).with("inner", J::from(cur))
}

/// Serialization into writers that fail after k bytes.
fn op_fault(o: &J) -> J {
    let t = build(o.at("t"));
    let before = observe(t.as_ref());
    let full = t.to_bytes().unwrap_or_default();
    let ks: Vec<usize> = if o.at("ks").arr().is_empty() {
        (0..=full.len() + 1).collect()
    } else {
        o.at("ks").arr().iter().map(|x| x.us().min(full.len() + 1)).collect()
    };
    let mut rows = vec![];
    for k in ks {
        let mut res = |ok: bool, data: &[u8]| {
            rows.push(J::Arr(vec![
                J::from(k),
                J::from(ok),
                J::from(data.len()),
                J::from(full.starts_with(data)),
            ]))
        };
        for partial in [false, true] {
            let mut w = CapWriter { data: vec![], cap: k, partial };
            let ok = t.serialize(&mut w).is_ok();
            res(ok, &w.data);
        }
        let mut w = CapOne { data: vec![], cap: k };
        let ok = t.serialize(w.as_writer()).is_ok();
        res(ok, &w.data);
        let mut a = vec![0u8; k];
        let (ok, n) = {
            let mut w = ByteArrayWriter::new(&mut a);
            let ok = t.serialize(&mut w).is_ok();
            (ok, w.get_offset())
        };
        res(ok, &a[..n]);
        for zero in [false, true] {
            let d = Rc::new(RefCell::new(vec![]));
            let mut c = ChunkWrite { data: d.clone(), pat: vec![3, 0, 1], turn: 0, cap: k, zero };
            let ok = t.serialize(&mut WriteWriter::new(&mut c)).is_ok();
            res(ok, &d.borrow());
        }
        let mut a = vec![0u8; k];
        let (ok, n) = {
            let mut c = std::io::Cursor::new(&mut a[..]);
            let ok = t.serialize(&mut c).is_ok();
            (ok, c.position() as usize)
        };
        res(ok, &a[..n]);
        // fails once at byte k, would accept everything afterwards
        let mut w = OnceWriter { data: vec![], at: k, done: false };
        let ok = t.serialize(&mut w).is_ok();
        let n = w.data.len();
        res(ok, if ok { &w.data } else { &w.data[..n.min(k)] });
    }
    // read-only destination
    let mut w = VecWriter::new();
    w.set_read_only(true);
    let ro = t.serialize(&mut w).is_ok() || !w.as_slice().is_empty();
    let again = t.to_bytes().unwrap_or_default();
    J::obj()
        .with("rows", dis(rows))
        .with("ro", ro)
        .with("by", dis(vec![J::from(full), J::from(again)]))
        .with("obs", dis(vec![before, observe(t.as_ref())]))
}

// ----------------------------------------------------------------- work
pub static C_SIZE: AtomicUsize = AtomicUsize::new(0);
pub static C_SER: AtomicUsize = AtomicUsize::new(0);
pub static C_DEC: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 200_000;
fn tick(c: &AtomicUsize) {
    if c.fetch_add(1, SeqCst) > CAP {
        panic!("work limit exceeded");
    }
}
/// Leaf payload that counts its evaluations.
#[derive(Default)]
pub struct PayCount(Vec<u8>);
impl ILTagPayload for PayCount {
    fn serialized_size(&self) -> usize {
        tick(&C_SIZE);
        self.0.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        tick(&C_SER);
        writer.write_all(&self.0)?;
        Ok(())
    }
    fn deserialize(&mut self, _f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        tick(&C_DEC);
        let mut v = vec![0; n];
        r.read_all(&mut v)?;
        // a value that ends in 99 is refused
        if v.last() == Some(&99) {
            return Err(ErrorKind::CorruptedData);
        }
        self.0 = v;
        Ok(())
    }
}
type CountTag = ILGenericPayloadTag<PayCount>;
/// Source that counts the bytes handed out.
struct Visits<'a> {
    d: &'a [u8],
    p: usize,
    n: Rc<RefCell<usize>>,
}
impl<'a> Reader for Visits<'a> {
    fn read(&mut self) -> il2_iltags::io::Result<u8> {
        if self.p >= self.d.len() {
            return Err(il2_iltags::io::ErrorKind::EndOfData);
        }
        self.p += 1;
        *self.n.borrow_mut() += 1;
        Ok(self.d[self.p - 1])
    }
}
/// Chain of containers (kinds innermost first) around a counting leaf, with
/// `wide` extra null children per level.
fn chain(kinds: &[J], wide: usize, at: usize) -> TBox {
    use il2_iltags::tags::standard::*;
    let mut leaf = CountTag::new(1000);
    leaf.mut_payload().0 = vec![5; 3];
    let mut t: TBox = Box::new(leaf);
    for k in kinds {
        match k.str() {
            "seq" => {
                let mut x = ILTagSeqTag::new();
                (0..wide).for_each(|_| x.mut_value().push(Box::new(ILNullTag::new())));
                x.mut_value().insert(at.min(wide), t);
                t = Box::new(x);
            }
            "arr" => {
                let mut x = ILTagArrayTag::new();
                (0..wide).for_each(|_| x.mut_value().push(Box::new(ILNullTag::new())));
                x.mut_value().insert(at.min(wide), t);
                t = Box::new(x);
            }
            _ => {
                let mut x = ILDictTag::new();
                x.insert(if at == 0 { "k" } else { "z" }, t);
                (0..wide).for_each(|i| {
                    x.insert(&format!("w{i}"), Box::new(ILNullTag::new()));
                });
                t = Box::new(x);
            }
        }
    }
    t
}
fn op_work(o: &J) -> J {
    let kinds = o.at("kinds").arr();
    let wide = o.at("wide").us();
    let mut f = factory(o.at("R"));
    f.engine().register(1000, Box::new(ILDefaultWithIdTagCreator::<CountTag>::default()));
    let t = chain(kinds, wide, o.at("at").us());
    let reset = || {
        C_SIZE.store(0, SeqCst);
        C_SER.store(0, SeqCst);
        C_DEC.store(0, SeqCst);
    };
    let get = || {
        J::Arr(vec![
            J::from(C_SIZE.load(SeqCst)),
            J::from(C_SER.load(SeqCst)),
            J::from(C_DEC.load(SeqCst)),
        ])
    };
    let mut e = J::obj();
    reset();
    let sz = t.size() as usize;
    e.set("size", get());
    reset();
    let b = t.to_bytes().unwrap_or_default();
    e.set("ser", get());
    reset();
    let mut w = CapOne { data: vec![], cap: usize::MAX };
    let _ = t.serialize(&mut w);
    e.set("ser2", get());
    reset();
    let eq = iltag_are_equal(t.as_ref(), t.as_ref());
    e.set("eq", get());
    reset();
    let c = iltag_clone_with_factory(&f, t.as_ref());
    e.set("clone", get());
    reset();
    let n = Rc::new(RefCell::new(0));
    let mut v = Visits { d: &b, p: 0, n: n.clone() };
    let d = f.deserialize(&mut v);
    e.set("dec", get());
    let visits = *n.borrow();
    // decoding into an instance, after a failed attempt too
    let mut again = false;
    if let Ok(mut c) = c.as_ref().map_err(|_| ()).and_then(|c| f.from_bytes(&c.to_bytes().unwrap_or_default()).map_err(|_| ())) {
        let _ = f.deserialize_into(&mut ByteArrayReader::new(&b[..b.len() - 1]), c.as_mut());
        reset();
        again = f.deserialize_into(&mut ByteArrayReader::new(&b), c.as_mut()).is_ok();
        e.set("into", get());
        reset();
        again = again && f.from_bytes(&b).is_ok();
        e.set("from", get());
    } else {
        e.set("into", J::Arr(vec![]));
        e.set("from", J::Arr(vec![]));
    }
    // malformed at the innermost place: cut off, an unknown tag, a length beyond
    // the room, a refused value; and at the outermost: bytes left
    let mut bad = vec![];
    let at = b.windows(7).position(|x| x == [249, 2, 240, 3, 5, 5, 5]).unwrap_or_else(|| fatal("no leaf"));
    for how in 0..5 {
        let mut m = b.clone();
        match how {
            0 => m.truncate(at + 6),
            1 => m[at..at + 7].copy_from_slice(&[15; 7]),
            2 => m[at + 3] = 240,
            3 => m[at + 6] = 99,
            _ => m.push(0),
        }
        reset();
        let n = Rc::new(RefCell::new(0));
        let ok = if how == 4 {
            f.from_bytes(&m).is_ok()
        } else {
            let mut v = Visits { d: &m, p: 0, n: n.clone() };
            f.deserialize(&mut v).is_ok()
        };
        let n = *n.borrow();
        bad.push(J::obj().with("ok", ok).with("c", get()).with("visits", n));
    }
    e.with("visits", visits)
        .with("again", again)
        .with("bad", bad)
        .with("len", b.len())
        .with("sz", sz)
        .with("good", eq && c.is_ok() && d.is_ok() && w.data == b)
}

// ----------------------------------------------------------------- memory
fn op_mem(o: &J) -> J {
    let head = o.at("b").bytes();
    let zeros = o.at("zeros").us() as u64;
    let f = factory(o.at("R"));
    let (r, n, peak) = if zeros > 0 {
        let mut s = SparseReader { head, zeros, pos: 0 };
        let a = crate::alloc::start();
        let r = f.deserialize(&mut s);
        (r, s.pos as usize, crate::alloc::peak(a))
    } else {
        let mut s = ByteArrayReader::new(&head);
        let a = crate::alloc::start();
        let r = f.deserialize(&mut s);
        let p = crate::alloc::peak(a);
        (r, s.offset(), p)
    };
    let err = r.as_ref().err().map(tag_err).unwrap_or_default();
    let vs = r.as_ref().map(|t| t.value_size() as usize).unwrap_or(0);
    J::obj()
        .with("ok", r.is_ok())
        .with("err", err)
        .with("n", n)
        .with("vs", vs)
        .with("kib", (peak + 1023) / 1024)
}

// ----------------------------------------------------------------- greedy
thread_local! {
    static LEAK: RefCell<Vec<String>> = RefCell::new(vec![]);
}
/// Payload that reads its value and then tries to read on, every way.
#[derive(Default)]
pub struct PayGreedy(Vec<u8>);
impl ILTagPayload for PayGreedy {
    fn serialized_size(&self) -> usize {
        self.0.len()
    }
    fn serialize(&self, w: &mut dyn Writer) -> Result<()> {
        w.write_all(&self.0)?;
        Ok(())
    }
    fn deserialize(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> Result<()> {
        let leak = |s: &str| LEAK.with(|l| l.borrow_mut().push(s.to_string()));
        // more than the value at once
        let mut big = vec![0; n + 1];
        if r.read_all(&mut big).is_ok() {
            leak("bulk");
        }
        if r.skip(n + 1).is_ok() {
            leak("skip");
        }
        let mut v = vec![0; n];
        r.read_all(&mut v)?;
        self.0 = v;
        if r.read().is_ok() {
            leak("read");
        }
        let mut b3 = [0u8; 3];
        if r.read_all(&mut b3).is_ok() {
            leak("read_all");
        }
        if r.skip(1).is_ok() || r.skip(600).is_ok() || r.skip_u64(1).is_ok() || r.skip_u64(u64::MAX).is_ok() {
            leak("skip after");
        }
        if f.deserialize(r).is_ok() {
            leak("tag");
        }
        Ok(())
    }
}
type GreedyTag = ILGenericPayloadTag<PayGreedy>;
fn op_greedy(o: &J) -> J {
    let b = o.at("b").bytes();
    let mut f = factory(o.at("R"));
    f.engine().register(o.at("gid").word(), Box::new(ILDefaultWithIdTagCreator::<GreedyTag>::new()));
    let mut outs = vec![];
    LEAK.with(|l| l.borrow_mut().clear());
    for kind in READERS {
        let (r, n) = with_reader!(kind, &b, r, f.deserialize(r));
        let by = match &r {
            Ok(t) => t.to_bytes().map(J::from).unwrap_or(err_bytes()),
            Err(_) => J::Arr(vec![]),
        };
        outs.push(J::obj().with("ok", r.is_ok()).with("by", by).with("n", if r.is_ok() { n } else { 0 }));
    }
    let leaks = LEAK.with(|l| l.borrow().iter().map(|s| J::from(s.as_str())).collect::<Vec<_>>());
    J::obj().with("out", dis(outs)).with("leaks", dis(leaks))
}

// ----------------------------------------------------------------- big values
fn op_big(o: &J) -> J {
    use il2_iltags::tags::standard::*;
    // one tag of kind k around n patterned bytes; header, length and contents
    let k = o.at("k").str();
    let id = o.at("id").word();
    let n = o.at("n").us();
    let pat: Vec<u8> = if k == "strm" {
        // characters of several bytes, at an offset
        let mut x = "z".repeat(n % 7);
        let mut i = 0;
        while x.len() < n {
            let c = ['\u{e9}', '\u{20ac}', '\u{1f600}', 'a'][(i * 5 + i / 11) % 4];
            x.push(if x.len() + c.len_utf8() <= n { c } else { 'b' });
            i += 1;
        }
        x.truncate(n);
        x.into_bytes()
    } else {
        (0..n).map(|i| 32 + ((i * 7 + i / 251) % 90) as u8).collect()
    };
    let text = std::str::from_utf8(&pat).unwrap();
    let mut suf = 0;
    let make = |pat: &[u8], text: &str| -> TBox {
        match k {
            "raw" => Box::new(ILRawTag::with_value(id, pat)),
            "bytes" => Box::new(ILByteArrayTag::with_value(pat)),
            "bint" => Box::new(ILBigIntTag::with_value(pat)),
            "bdec" => Box::new(ILBigDecTag::with_id_value(id, 7, pat)),
            "str" | "strm" => Box::new(ILStringTag::with_id_value(id, text)),
            "seq" => {
                let mut t = ILTagSeqTag::with_id(id);
                t.mut_value().push(Box::new(ILByteArrayTag::with_value(pat)));
                Box::new(t)
            }
            "arr" => {
                let mut t = ILTagArrayTag::with_id(id);
                t.mut_value().push(Box::new(ILStringTag::with_value(text)));
                Box::new(t)
            }
            "dict" => {
                let mut t = ILDictTag::with_id(id);
                t.insert("k", Box::new(ILStringTag::with_value(text)));
                Box::new(t)
            }
            "dkey" => {
                let mut t = ILDictTag::with_id(id);
                t.insert(text, Box::new(ILNullTag::new()));
                Box::new(t)
            }
            "sdict" => {
                let mut t = ILStrDictTag::with_id(id);
                t.insert("k", text);
                Box::new(t)
            }
            "skey" => {
                let mut t = ILStrDictTag::with_id(id);
                t.insert(text, "");
                Box::new(t)
            }
            _ => fatal("bad big kind"),
        }
    };
    if k == "dkey" {
        suf = 1
    } else if k == "skey" {
        suf = 2
    }
    let t = make(&pat, text);
    let b = t.to_bytes().unwrap_or_default();
    let hl = b.len().saturating_sub(n + suf);
    let f = factory(o.at("R"));
    let mut two = b.clone();
    two.extend([0, 1, 1]);
    let good = |d: &dyn ILTag| d.to_bytes().map(|x| x == b).unwrap_or(false) && d.id() == id;
    let mut used = vec![];
    let mut back = true;
    for kind in READERS {
        let (d, u) = with_reader!(kind, &two, r, f.deserialize(r));
        back = back && d.map(|d| good(d.as_ref())).unwrap_or(false);
        used.push(u);
    }
    used.dedup();
    // into one that held something else, and as a clone
    let mut other = make(b"other", "other");
    back = back && f.deserialize_into(&mut ByteArrayReader::new(&two), other.as_mut()).is_ok() && good(other.as_ref());
    back = back && iltag_clone_with_factory(&f, t.as_ref()).map(|c| good(c.as_ref())).unwrap_or(false);
    let cut = f.from_bytes(&b[..b.len() - 1]).is_err();
    let mut srd = ByteArrayReader::new(&two);
    let sc = match RawTagScanner::new(&mut srd).next_tag() {
        Ok(Some(x)) => small(&x),
        _ => err_small(),
    };
    J::obj()
        .with("hdr", J::from(&b[..hl.min(64)]))
        .with("len", b.len())
        .with("intact", b[..b.len() - suf].ends_with(&pat))
        .with("suf", J::from(&b[b.len() - suf..]))
        .with("size", t.size() as usize)
        .with("vsize", t.value_size() as usize)
        .with("back", back)
        .with("used", J::from(used.into_iter().map(J::from).collect::<Vec<J>>()))
        .with("cut", cut)
        .with("scan", sc)
}
/// The i-th of many elements: a byte that varies, and a key of eight digits.
fn many_byte(i: usize) -> u8 {
    ((i * 7 + i / 251) % 200) as u8
}
fn many_key(i: usize) -> String {
    format!("{i:08}")
}
/// A container of n elements.
fn op_many(o: &J) -> J {
    use il2_iltags::tags::standard::*;
    let k = o.at("k").str();
    let id = o.at("id").word();
    let n = o.at("n").us();
    let u8tag = |i: usize| -> TBox { Box::new(ILUInt8Tag::with_value(many_byte(i))) };
    let t: TBox = match k {
        "arr" => {
            let mut t = ILTagArrayTag::with_id(id);
            (0..n).for_each(|i| t.mut_value().push(u8tag(i)));
            Box::new(t)
        }
        "seq" => {
            let mut t = ILTagSeqTag::with_id(id);
            (0..n).for_each(|i| t.mut_value().push(u8tag(i)));
            Box::new(t)
        }
        "ilarr" | "oid" => {
            let v: Vec<u64> = (0..n).map(|i| many_byte(i) as u64).collect();
            if k == "oid" {
                Box::new(ILOIDTag::with_id_value(id, &v))
            } else {
                Box::new(ILILIntArrayTag::with_id_value(id, &v))
            }
        }
        "dict" => {
            let mut t = ILDictTag::with_id(id);
            (0..n).rev().for_each(|i| {
                t.insert(&many_key(i), u8tag(i));
            });
            Box::new(t)
        }
        "sdict" => {
            let mut t = ILStrDictTag::with_id(id);
            (0..n).rev().for_each(|i| {
                t.insert(&many_key(i), &((32 + many_byte(i) % 90) as char).to_string());
            });
            Box::new(t)
        }
        _ => fatal("bad kind of many"),
    };
    let b = t.to_bytes().unwrap_or_default();
    let f = factory(o.at("R"));
    let mut two = b.clone();
    two.extend([0, 1, 1]);
    let mut rd = ByteArrayReader::new(&two);
    let d = f.deserialize(&mut rd);
    let used = rd.offset();
    let back = match &d {
        Ok(t1) => t1.to_bytes().map(|x| x == b).unwrap_or(false) && same_value(t1.as_ref(), t.as_ref()),
        _ => false,
    };
    let cut = b.is_empty() || f.from_bytes(&b[..b.len() - 1]).is_err();
    let mut srd = ByteArrayReader::new(&two);
    let sc = match RawTagScanner::new(&mut srd).next_tag() {
        Ok(Some(x)) => small(&x),
        _ => err_small(),
    };
    // elements counted from the end
    let (at, es) = (o.at("at").arr(), o.at("es").us());
    let els: Vec<J> = at
        .iter()
        .map(|i| {
            let from_end = (n - i.us()) * es;
            if from_end <= b.len() && es <= from_end {
                J::from(&b[b.len() - from_end..b.len() - from_end + es])
            } else {
                err_bytes()
            }
        })
        .collect();
    // another count for the same elements
    let wrong: Vec<J> = o
        .at("wrong")
        .arr()
        .iter()
        .map(|w| J::from(f.from_bytes(&w.bytes().into_iter().chain(b[b.len().saturating_sub(n * es)..].iter().cloned()).collect::<Vec<u8>>()).is_ok()))
        .collect();
    let clone = match iltag_clone_with_factory(&f, t.as_ref()) {
        Ok(c) => iltag_are_equal(c.as_ref(), t.as_ref()) && same_value(c.as_ref(), t.as_ref()),
        _ => false,
    };
    J::obj()
        .with("head", J::from(&b[..b.len().saturating_sub(n * es).min(40)]))
        .with("len", b.len())
        .with("size", t.size() as usize)
        .with("vsize", t.value_size() as usize)
        .with("ok", d.is_ok())
        .with("back", back)
        .with("used", used)
        .with("cut", cut)
        .with("scan", sc)
        .with("els", J::Arr(els))
        .with("acc", J::Arr(wrong))
        .with("clone", clone)
}
fn op_skipbig(o: &J) -> J {
    // scanning tags with large (virtual) values of zeros
    let segs: Vec<(Vec<u8>, u64)> = o.at("segs").arr().iter().map(|x| (x.at("b").bytes(), x.at("z").word())).collect();
    let total: u64 = segs.iter().map(|x| x.0.len() as u64 + x.1).sum();
    let new = || SegReader { segs: segs.clone(), pos: 0 };
    fn scan<R: Reader>(r: &mut R, m: usize) -> (Vec<J>, bool) {
        let mut s = RawTagScanner::new(r);
        let mut l = vec![];
        for _ in 0..m {
            match s.next_tag() {
                Ok(Some(x)) => l.push(small(&x)),
                _ => return (l, false),
            }
        }
        (l, true)
    }
    let m = segs.len();
    let mut all = vec![];
    let mut put = |r: (Vec<J>, bool), n: u64| {
        all.push(J::obj().with("x", J::Arr(r.0)).with("ok", r.1).with("n", word(if r.1 { n } else { 0 })))
    };
    let mut s = JumpReader(new());
    let r = scan(&mut s, m);
    put(r, s.0.pos);
    let mut s = JumpReader(new());
    let r = scan(&mut LimitedReader::new(&mut s, total as usize), m);
    put(r, s.0.pos);
    if total < 1 << 31 {
        let mut s = new();
        let r = scan(&mut s, m);
        put(r, s.pos);
    }
    J::obj().with("out", dis(all))
}

/// Nesting depth, on a thread with the usual 8 MiB of stack.
fn op_depth(o: &J) -> J {
    let text = o.to_string();
    let h = std::thread::Builder::new()
        .stack_size(o.get("st").map_or(8192, |s| s.us()) << 10)
        .spawn(move || depth_on_thread(&parse(&text)).to_string())
        .unwrap_or_else(|e| fatal(&format!("thread: {e}")));
    match h.join() {
        Ok(s) => parse(&s),
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn depth_on_thread(o: &J) -> J {
    let d = o.at("d").us();
    let k = o.at("k").str();
    let f = factory(o.at("R"));
    // leaf: null; each level one child
    let mut b: Vec<u8> = vec![0];
    let mut rev: Vec<Vec<u8>> = vec![];
    let mut len = 1usize;
    for _ in 0..d {
        let mut h = VecWriter::new();
        let inner: &[u8] = match k {
            "seq" => &[],
            "arr" => &[1],
            _ => &[1, 17, 1, 97],
        };
        let id = match k {
            "seq" => 22,
            "arr" => 21,
            _ => 30,
        };
        let _ = h.write(id);
        let _ = h.write_ilint((len + inner.len()) as u64);
        let _ = h.write_all(inner);
        len += h.vec().len();
        rev.push(h.into());
    }
    rev.reverse();
    let mut full: Vec<u8> = rev.concat();
    full.append(&mut b);
    if o.at("m").str() == "drop" {
        let mut t: Box<dyn ILTag> = Box::new(il2_iltags::tags::standard::ILNullTag::default());
        for _ in 0..d {
            let mut s = il2_iltags::tags::standard::ILTagSeqTag::new();
            s.mut_value().push(t);
            t = Box::new(s);
        }
        drop(t);
        return J::obj().with("ok", true).with("err", "").with("same", true).with("size", len).with("len", full.len());
    }
    let t = match f.deserialize(&mut ByteArrayReader::new(&full)) {
        Ok(t) => t,
        Err(e) => return J::obj().with("ok", false).with("err", tag_err(&e)).with("same", false).with("size", 0usize).with("len", full.len()),
    };
    let size = t.size() as usize;
    let by = t.to_bytes().unwrap_or_default();
    let c = iltag_clone_with_factory(&f, t.as_ref()).is_ok();
    let e = iltag_are_equal(t.as_ref(), t.as_ref());
    drop(t);
    J::obj().with("ok", c && e).with("err", "").with("same", by == full).with("size", size).with("len", full.len())
}

/// One round of calls whose results do not matter.
fn noise(f: &ILStandardTagFactory, bs: &[Vec<u8>]) {
    let mut none = ILStandardTagFactory::new(true);
    for i in 0..32 {
        none.engine().deregister(i);
    }
    for b in bs {
        let _ = ilint::decode_from_bytes(b);
        let _ = ilint::decode(&mut ByteArrayReader::new(b));
        let mut m = ByteArrayReader::new(b);
        let mut l = LimitedReader::new(&mut m, b.len() / 2);
        let _ = f.deserialize(&mut l);
        let mut io: &[u8] = b;
        let _ = f.deserialize(&mut ReadReader::new(&mut io));
        let mut m = ByteArrayReader::new(b);
        let mut sc = RawTagScanner::new(&mut m);
        while let Ok(Some(_)) = sc.next_tag() {}
        let mut m = ByteArrayReader::new(b);
        let _ = m.read_string(b.len());
        let _ = deserialize_string_tag_from_value(&mut ByteArrayReader::new(b));
        if let Ok(mut t) = f.from_bytes(b) {
            let n = t.size() as usize;
            let mut room = vec![0u8; n.saturating_sub(1)];
            let _ = t.serialize(&mut ByteArrayWriter::new(&mut room));
            let _ = iltag_are_equal(t.as_ref(), t.as_ref());
            let _ = iltag_clone_with_factory(f, t.as_ref());
            let _ = f.deserialize_into(&mut ByteArrayReader::new(&b[..b.len() - 1]), t.as_mut());
            let _ = f.deserialize_into(&mut ByteArrayReader::new(&[23, 3, 9, 0, 1]), t.as_mut());
            let _ = f.deserialize_into(&mut ByteArrayReader::new(&[248]), t.as_mut());
            let _ = t.deserialize_value(f, b.len() / 2, &mut ByteArrayReader::new(b));
            let _ = iltag_clone_with_factory(&none, t.as_ref());
            let mut few: &mut [u8] = &mut room;
            let _ = t.serialize(&mut WriteWriter::new(&mut few));
        }
    }
}
/// Operations repeated among many other calls (n rounds of noise) on th threads:
/// the distinct results of each.
fn op_rep(o: &J) -> J {
    let ops = o.at("ops").arr();
    let bs: Vec<Vec<u8>> = o.at("noise").arr().iter().map(|b| b.bytes()).collect();
    let (n, th, times) = (o.at("n").us(), o.at("th").us(), o.at("times").us());
    let fs = ILStandardTagFactory::new(false);
    let go = |me: usize| -> Vec<Vec<J>> {
        let mut outs: Vec<Vec<J>> = vec![vec![]; ops.len()];
        for k in 0..times {
            for x in 0..ops.len() {
                let i = if k % 2 == 0 { x } else { ops.len() - 1 - x };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&ops[i])));
                let r = match r {
                    Ok(r) => r.with("panic", ""),
                    Err(_) => J::obj().with("panic", "panicked"),
                };
                if !outs[i].contains(&r) {
                    outs[i].push(r);
                }
            }
            let own = ILStandardTagFactory::new(k % 2 == 1);
            for j in 0..n {
                noise(if (j + me) % 2 == 0 { &fs } else { &own }, &bs);
            }
        }
        for i in 0..ops.len() {
            for _ in 0..o.at("again").us() {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&ops[i])));
                let r = match r {
                    Ok(r) => r.with("panic", ""),
                    Err(_) => J::obj().with("panic", "panicked"),
                };
                if !outs[i].contains(&r) {
                    outs[i].push(r);
                }
            }
        }
        outs
    };
    let all: Vec<Vec<Vec<J>>> = if th == 1 {
        vec![go(0)]
    } else {
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..th).map(|me| sc.spawn(move || go(me))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fatal("a thread died"))).collect()
        })
    };
    let outs = (0..ops.len())
        .map(|i| dis(all.iter().flat_map(|a| a[i].iter().cloned()).collect()))
        .collect();
    J::obj().with("outs", J::Arr(outs))
}

pub fn run(o: &J) -> J {
    match o.at("op").str() {
        "ienc" => op_ienc(o),
        "isgn" => op_isgn(o),
        "idec" => J::obj().with("out", dis(ilint_paths(&o.at("b").bytes()))),
        "sdec" => J::obj().with("out", dis(silint_paths(&o.at("b").bytes()))),
        "ibody" => {
            let b = o.at("b").bytes();
            J::obj().with("out", out(ilint::decode_body(&b).ok(), 0))
        }
        "ihdr" => J::obj().with("n", ilint::decoded_size(o.at("h").us() as u8)),
        "iuns" => {
            let s = ilint::decode_sign(o.at("v").word());
            J::obj().with("s", word(s as u64)).with("back", word(ilint::encode_sign(s)))
        }
        "prim" => op_prim(o),
        "str" => op_str(o),
        "strtag" => op_strtag(o),
        "ids" => op_ids(o),
        "ser" => op_ser(o),
        "dec" => op_dec(o),
        "trunc" => op_trunc(o),
        "cat" => op_cat(o),
        "into" => op_into(o),
        "val" => op_val(o),
        "pad" => op_pad(o),
        "huge" => op_huge(o),
        "lie" => op_lie(o),
        "broken" => op_broken(o),
        "eq" => op_eq(o),
        "clone" => op_clone(o),
        "scan" => op_scan(o),
        "ext" => op_ext(o),
        "nest" => op_nest(o),
        "fault" => op_fault(o),
        "work" => op_work(o),
        "mem" => op_mem(o),
        "eqbig" => op_eqbig(o),
        "greedy" => op_greedy(o),
        "big" => op_big(o),
        "skipbig" => op_skipbig(o),
        "depth" => op_depth(o),
        "rep" => op_rep(o),
        "many" => op_many(o),
        "inter" => crate::inter::op_inter(o),
        x => fatal(&format!("unknown op {x}")),
    }
}
