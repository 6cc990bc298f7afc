//! Conversion between the specification's tag records and real tags.
use crate::json::*;
use il2_iltags::io::{Reader, Writer};
use il2_iltags::tags::payload::*;
use il2_iltags::tags::standard::*;
use il2_iltags::tags::*;
use std::ops::DerefMut;

/// A panic that ends up in the event of the operation.
pub fn bad(m: &str) -> ! {
    panic!("{}", m)
}
pub type TBox = Box<dyn ILTag>;

/// Custom payload: an opaque byte string.
#[derive(Default)]
pub struct PayBlob(pub Vec<u8>);
impl ILTagPayload for PayBlob {
    fn serialized_size(&self) -> usize {
        self.0.len()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        // byte by byte, so that a destination can refuse anywhere
        for b in &self.0 {
            writer.write(*b)?;
        }
        Ok(())
    }
    fn deserialize(
        &mut self,
        _factory: &dyn ILTagFactory,
        value_size: usize,
        reader: &mut dyn Reader,
    ) -> Result<()> {
        let mut v = Vec::new();
        for _ in 0..value_size {
            v.push(reader.read()?);
        }
        self.0 = v;
        Ok(())
    }
}
pub type PayTag = ILGenericPayloadTag<PayBlob>;

/// Payload that holds tags of its own and decodes them with the factory it is given.
#[derive(Default)]
pub struct Envelope(pub Vec<TBox>);
impl ILTagPayload for Envelope {
    fn serialized_size(&self) -> usize {
        self.0.iter().map(|t| t.size() as usize).sum()
    }
    fn serialize(&self, writer: &mut dyn Writer) -> Result<()> {
        self.0.iter().try_for_each(|t| t.serialize(writer))
    }
    fn deserialize(&mut self, factory: &dyn ILTagFactory, n: usize, reader: &mut dyn Reader) -> Result<()> {
        self.0.clear();
        let mut room = il2_iltags::io::LimitedReader::new(reader, n);
        while !room.empty() {
            self.0.push(factory.deserialize(&mut room)?);
        }
        Ok(())
    }
}
pub type EnvTag = ILGenericPayloadTag<Envelope>;

pub fn rec(k: &str, id: u64, b: J, w: Vec<u64>, c: Vec<J>, s: Vec<J>) -> J {
    J::obj()
        .with("k", k)
        .with("id", word(id))
        .with("b", b)
        .with("w", J::Arr(w.iter().map(|x| word(*x)).collect()))
        .with("c", J::Arr(c))
        .with("s", J::Arr(s))
}
fn nob() -> J {
    J::Arr(vec![])
}

macro_rules! scalars {
    ($m:ident) => {
        $m!("i8", ILInt8Tag, i8);
        $m!("u8", ILUInt8Tag, u8);
        $m!("i16", ILInt16Tag, i16);
        $m!("u16", ILUInt16Tag, u16);
        $m!("i32", ILInt32Tag, i32);
        $m!("u32", ILUInt32Tag, u32);
        $m!("i64", ILInt64Tag, i64);
        $m!("u64", ILUInt64Tag, u64);
        $m!("f32", ILBin32Tag, f32);
        $m!("f64", ILBin64Tag, f64);
    };
}
fn arr_of<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut a = [0u8; N];
    if b.len() != N {
        bad("bad scalar width");
    }
    a.copy_from_slice(b);
    a
}
fn utf8(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap_or_else(|_| bad("generator made bad utf8"))
}
fn i32s(b: &[u8]) -> [i32; 4] {
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = i32::from_be_bytes(arr_of(&b[4 * i..4 * i + 4]));
    }
    r
}

/// Builds the tag through the public constructors.
pub fn build(t: &J) -> TBox {
    let k = t.at("k").str().to_string();
    let id = t.at("id").word();
    let b = t.at("b").bytes();
    let w = t.at("w").words();
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if k == $n {
                return Box::new(<$t>::with_id_value(id, <$p>::from_be_bytes(arr_of(&b))));
            }
        };
    }
    scalars!(m);
    match k.as_str() {
        "null" => Box::new(ILNullTag::with_id(id)),
        "bool" => Box::new(ILBoolTag::with_id_value(id, b[0] == 1)),
        "b128" => Box::new(ILBin128Tag::with_id_value(id, &arr_of(&b))),
        "ilint" => Box::new(ILILInt64Tag::with_id_value(id, w[0])),
        "silint" => Box::new(ILSignedILInt64Tag::with_id_value(id, w[0] as i64)),
        "raw" => Box::new(ILRawTag::with_value(id, &b)),
        "bytes" if id == 16 => Box::new(ILByteArrayTag::with_value(&b)),
        "bint" if id == 18 => Box::new(ILBigIntTag::with_value(&b)),
        "str" => Box::new(ILStringTag::with_id_value(id, &utf8(&b))),
        "bdec" => {
            let sc = t.at("s").arr()[0].bytes();
            Box::new(ILBigDecTag::with_id_value(id, i32::from_be_bytes(arr_of(&sc)), &b))
        }
        "ilarr" => Box::new(ILILIntArrayTag::with_id_value(id, &w)),
        "oid" => Box::new(ILOIDTag::with_id_value(id, &w)),
        "range" => Box::new(ILRangeTag::with_id_value(id, w[0], u16::from_be_bytes(arr_of(&b)))),
        "ver" => Box::new(ILVersionTag::with_id_value_from_slice(id, &i32s(&b))),
        "seq" => {
            let mut x = ILTagSeqTag::with_id(id);
            for c in t.at("c").arr() {
                x.mut_value().push(build(c));
            }
            Box::new(x)
        }
        "arr" => {
            let mut x = ILTagArrayTag::with_id(id);
            for c in t.at("c").arr() {
                x.mut_value().push(build(c));
            }
            Box::new(x)
        }
        "dict" => {
            let mut x = ILDictTag::with_id(id);
            for (s, c) in t.at("s").arr().iter().zip(t.at("c").arr()) {
                x.insert(&utf8(&s.bytes()), build(c));
            }
            Box::new(x)
        }
        "sdict" => {
            let mut x = ILStrDictTag::with_id(id);
            for p in t.at("s").arr().chunks(2) {
                x.insert(&utf8(&p[0].bytes()), &utf8(&p[1].bytes()));
            }
            Box::new(x)
        }
        "pay" => {
            let mut x = PayTag::new(id);
            x.mut_payload().0 = b;
            Box::new(x)
        }
        "env" => {
            let mut x = EnvTag::new(id);
            t.at("c").arr().iter().for_each(|c| x.mut_payload().0.push(build(c)));
            Box::new(x)
        }
        _ => bad(&format!("cannot build {t}")),
    }
}

/// Reads a tag through its public getters. Getters that disagree give the
/// impossible kind "INCONSISTENT".
pub fn observe(t: &dyn ILTag) -> J {
    let id = t.id();
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if let Some(x) = tag_downcast_ref::<$t>(t) {
                return rec($n, id, J::from(&x.value().to_be_bytes()[..]), vec![], vec![], vec![]);
            }
        };
    }
    scalars!(m);
    macro_rules! is {
        ($t:ty) => {
            tag_downcast_ref::<$t>(t)
        };
    }
    let bad = || rec("INCONSISTENT", id, nob(), vec![], vec![], vec![]);
    if is!(ILNullTag).is_some() {
        return rec("null", id, nob(), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILBoolTag) {
        return rec("bool", id, J::from(vec![x.value() as u8]), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILBin128Tag) {
        return rec("b128", id, J::from(&x.value()[..]), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILILInt64Tag) {
        return rec("ilint", id, nob(), vec![x.value()], vec![], vec![]);
    }
    if let Some(x) = is!(ILSignedILInt64Tag) {
        return rec("silint", id, nob(), vec![x.value() as u64], vec![], vec![]);
    }
    if let Some(x) = is!(ILRawTag) {
        return rec("raw", id, J::from(&x.value()[..]), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILByteArrayTag) {
        return rec("bytes", id, J::from(&x.value()[..]), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILBigIntTag) {
        return rec("bint", id, J::from(&x.value()[..]), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILStringTag) {
        return rec("str", id, J::from(x.value().as_bytes()), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILBigDecTag) {
        let sc = J::from(&x.scale().to_be_bytes()[..]);
        return rec("bdec", id, J::from(&x.value()[..]), vec![], vec![], vec![sc]);
    }
    if let Some(x) = is!(ILILIntArrayTag) {
        return rec("ilarr", id, nob(), x.value().clone(), vec![], vec![]);
    }
    if let Some(x) = is!(ILOIDTag) {
        return rec("oid", id, nob(), x.value().clone(), vec![], vec![]);
    }
    if let Some(x) = is!(ILRangeTag) {
        let b = J::from(&x.count().to_be_bytes()[..]);
        return rec("range", id, b, vec![x.start()], vec![], vec![]);
    }
    if let Some(x) = is!(ILVersionTag) {
        let v = *x.value();
        if v != [x.major(), x.minor(), x.revision(), x.build()] {
            return bad();
        }
        let b: Vec<u8> = v.iter().flat_map(|i| i.to_be_bytes()).collect();
        return rec("ver", id, J::from(b), vec![], vec![], vec![]);
    }
    if let Some(x) = is!(ILTagSeqTag) {
        let c = x.value().iter().map(|c| observe(c.as_ref())).collect();
        return rec("seq", id, nob(), vec![], c, vec![]);
    }
    if let Some(x) = is!(ILTagArrayTag) {
        let c = x.value().iter().map(|c| observe(c.as_ref())).collect();
        return rec("arr", id, nob(), vec![], c, vec![]);
    }
    if let Some(x) = is!(ILDictTag) {
        let mut ks: Vec<&String> = x.value().keys().collect();
        ks.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
        if x.len() != ks.len() || x.is_empty() != ks.is_empty() {
            return bad();
        }
        let mut s = vec![];
        let mut c = vec![];
        for k in ks {
            let v = x.value()[k].as_ref();
            match x.get(k) {
                Some(g) if std::ptr::eq(g as *const dyn ILTag as *const u8, v as *const dyn ILTag as *const u8) => {}
                _ => return bad(),
            }
            s.push(J::from(k.as_bytes()));
            c.push(observe(v));
        }
        return rec("dict", id, nob(), vec![], c, s);
    }
    if let Some(x) = is!(ILStrDictTag) {
        let mut ks: Vec<&String> = x.value().keys().collect();
        ks.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
        if x.len() != ks.len() || x.is_empty() != ks.is_empty() {
            return bad();
        }
        let mut s = vec![];
        for k in ks {
            if x.get(k) != Some(x.value()[k].as_str()) {
                return bad();
            }
            s.push(J::from(k.as_bytes()));
            s.push(J::from(x.value()[k].as_bytes()));
        }
        return rec("sdict", id, nob(), vec![], vec![], s);
    }
    if let Some(x) = is!(EnvTag) {
        let c = x.payload().0.iter().map(|c| observe(c.as_ref())).collect();
        return rec("env", id, nob(), vec![], c, vec![]);
    }
    if let Some(x) = is!(PayTag) {
        if x.payload().0 != std::ops::Deref::deref(x).0 {
            return bad();
        }
        return rec("pay", id, J::from(&x.payload().0[..]), vec![], vec![], vec![]);
    }
    rec("OTHER", id, nob(), vec![], vec![], vec![])
}

/// Sizes of every node in preorder (dictionary values in key order).
/// A failed decode may leave a value of the claimed length; these are not worth
/// keeping (the value is not specified then).
pub fn shrink(t: &mut dyn ILTag) {
    if t.value_size() <= 4096 {
        return;
    }
    if let Some(x) = tag_downcast_mut::<ILRawTag>(t) {
        x.mut_value().clear();
    } else if let Some(x) = tag_downcast_mut::<ILByteArrayTag>(t) {
        x.mut_value().clear();
    } else if let Some(x) = tag_downcast_mut::<ILBigIntTag>(t) {
        x.mut_value().clear();
    } else if let Some(x) = tag_downcast_mut::<ILBigDecTag>(t) {
        x.mut_value().clear();
    } else if let Some(x) = tag_downcast_mut::<PayTag>(t) {
        x.mut_payload().0.clear();
    }
}
pub fn nodes(t: &dyn ILTag, out: &mut Vec<J>) {
    out.push(J::Arr(vec![J::from(t.size() as usize), J::from(t.value_size() as usize)]));
    if let Some(x) = tag_downcast_ref::<ILTagSeqTag>(t) {
        x.value().iter().for_each(|c| nodes(c.as_ref(), out));
    }
    if let Some(x) = tag_downcast_ref::<ILTagArrayTag>(t) {
        x.value().iter().for_each(|c| nodes(c.as_ref(), out));
    }
    if let Some(x) = tag_downcast_ref::<EnvTag>(t) {
        x.payload().0.iter().for_each(|c| nodes(c.as_ref(), out));
    }
    if let Some(x) = tag_downcast_ref::<ILDictTag>(t) {
        let mut ks: Vec<&String> = x.value().keys().collect();
        ks.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
        ks.iter().for_each(|k| nodes(x.value()[*k].as_ref(), out));
    }
}

/// A creator for tags of kind k; "how" selects the creator implementation.
pub fn creator(k: &str, how: &str) -> Box<dyn ILTagCreator> {
    macro_rules! mk {
        ($t:ty) => {
            if how == "default" {
                Box::new(ILDefaultTagCreator::<$t>::new())
            } else {
                Box::new(ILDefaultWithIdTagCreator::<$t>::default())
            }
        };
    }
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if k == $n {
                return mk!($t);
            }
        };
    }
    scalars!(m);
    match k {
        "null" => mk!(ILNullTag),
        "bool" => mk!(ILBoolTag),
        "b128" => mk!(ILBin128Tag),
        "ilint" => mk!(ILILInt64Tag),
        "silint" => mk!(ILSignedILInt64Tag),
        "raw" => Box::new(ILDefaultWithIdTagCreator::<ILRawTag>::new()),
        "bytes" => Box::new(ILDefaultTagCreator::<ILByteArrayTag>::default()),
        "bint" => Box::new(ILDefaultTagCreator::<ILBigIntTag>::default()),
        "str" => mk!(ILStringTag),
        "bdec" => mk!(ILBigDecTag),
        "ilarr" => mk!(ILILIntArrayTag),
        "oid" => mk!(ILOIDTag),
        "range" => mk!(ILRangeTag),
        "ver" => mk!(ILVersionTag),
        "seq" => mk!(ILTagSeqTag),
        "arr" => mk!(ILTagArrayTag),
        "dict" => mk!(ILDictTag),
        "sdict" => mk!(ILStrDictTag),
        "pay" => Box::new(ILDefaultWithIdTagCreator::<PayTag>::new()),
        "env" => Box::new(ILDefaultWithIdTagCreator::<EnvTag>::new()),
        _ => bad(&format!("no creator for {k}")),
    }
}

/// Factory for a registry [base, strict, x].
pub fn factory(r: &J) -> ILStandardTagFactory {
    let mut f = ILStandardTagFactory::new(r.at("strict").bool());
    if r.at("base").str() == "empty" {
        *f.engine() = ILTagCreatorEngine::new(r.at("strict").bool());
    }
    for e in r.at("x").arr() {
        let id = e.arr()[0].word();
        match e.arr()[1].str() {
            "none" => {
                f.engine().deregister(id);
            }
            k => {
                f.engine().register(id, creator(k, "withid"));
            }
        }
    }
    f
}

pub fn kind_of_creator(c: Option<Box<dyn ILTagCreator>>, id: u64) -> String {
    match c {
        None => "none".to_string(),
        Some(c) => observe(c.create_empty_tag(id).as_ref()).at("k").str().to_string(),
    }
}

/// New tag of kind k made by constructor `how` (empty value).
pub fn construct(k: &str, how: &str, id: u64) -> TBox {
    macro_rules! mk {
        ($t:ty) => {
            match how {
                "new" => Box::new(<$t>::new()) as TBox,
                "default" => Box::new(<$t>::default()) as TBox,
                "with_id" => Box::new(<$t>::with_id(id)) as TBox,
                "default_with_id" => Box::new(<$t as DefaultWithId>::default_with_id(id)) as TBox,
                _ => bad("bad constructor"),
            }
        };
    }
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if k == $n {
                return mk!($t);
            }
        };
    }
    scalars!(m);
    match k {
        "null" => mk!(ILNullTag),
        "bool" => mk!(ILBoolTag),
        "b128" => mk!(ILBin128Tag),
        "ilint" => mk!(ILILInt64Tag),
        "silint" => mk!(ILSignedILInt64Tag),
        "raw" => match how {
            "default_with_id" => Box::new(ILRawTag::default_with_id(id)),
            "with_capacity" => Box::new(ILRawTag::with_capacity(id, 10)),
            _ => Box::new(ILRawTag::new(id)),
        },
        "bytes" => match how {
            "default" => Box::new(ILByteArrayTag::default()),
            "with_capacity" => Box::new(ILByteArrayTag::with_capacity(10)),
            _ => Box::new(ILByteArrayTag::new()),
        },
        "bint" => match how {
            "default" => Box::new(ILBigIntTag::default()),
            _ => Box::new(ILBigIntTag::new()),
        },
        "str" => mk!(ILStringTag),
        "bdec" => mk!(ILBigDecTag),
        "ilarr" => mk!(ILILIntArrayTag),
        "oid" => mk!(ILOIDTag),
        "range" => mk!(ILRangeTag),
        "ver" => mk!(ILVersionTag),
        "seq" => mk!(ILTagSeqTag),
        "arr" => mk!(ILTagArrayTag),
        "dict" => mk!(ILDictTag),
        "sdict" => mk!(ILStrDictTag),
        "pay" => match how {
            "default_with_id" => Box::new(PayTag::default_with_id(id)),
            _ => Box::new(PayTag::new(id)),
        },
        "env" => match how {
            "default_with_id" => Box::new(EnvTag::default_with_id(id)),
            _ => Box::new(EnvTag::new(id)),
        },
        _ => bad("bad kind"),
    }
}

/// New tag with the standard id and a value (constructors without id).
pub fn construct_value(t: &J) -> TBox {
    let k = t.at("k").str().to_string();
    let b = t.at("b").bytes();
    let w = t.at("w").words();
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if k == $n {
                return Box::new(<$t>::with_value(<$p>::from_be_bytes(arr_of(&b))));
            }
        };
    }
    scalars!(m);
    match k.as_str() {
        "null" => Box::new(ILNullTag::default()),
        "bool" => Box::new(ILBoolTag::with_value(b[0] == 1)),
        "b128" => Box::new(ILBin128Tag::with_value(&arr_of(&b))),
        "ilint" => Box::new(ILILInt64Tag::with_value(w[0])),
        "silint" => Box::new(ILSignedILInt64Tag::with_value(w[0] as i64)),
        "bytes" => Box::new(ILByteArrayTag::with_value(&b)),
        "bint" => Box::new(ILBigIntTag::with_value(&b)),
        "str" => Box::new(ILStringTag::with_value(&utf8(&b))),
        "bdec" => {
            let sc = t.at("s").arr()[0].bytes();
            Box::new(ILBigDecTag::with_value(i32::from_be_bytes(arr_of(&sc)), &b))
        }
        "ilarr" => Box::new(ILILIntArrayTag::with_value(&w)),
        "oid" => Box::new(ILOIDTag::with_value(&w)),
        "range" => Box::new(ILRangeTag::with_value(w[0], u16::from_be_bytes(arr_of(&b)))),
        "ver" => {
            let v = i32s(&b);
            if b[15] % 2 == 0 {
                Box::new(ILVersionTag::with_value(v[0], v[1], v[2], v[3]))
            } else {
                Box::new(ILVersionTag::with_value_from_slice(&v))
            }
        }
        _ => build(t),
    }
}

/// Setter or mutable accessor `f` on an existing tag; the argument is a record
/// of the same shape from which the setter takes the components it sets.
/// Results of map operations are returned.
pub fn set(tag: &mut dyn ILTag, f: &str, a: &J) -> J {
    let b = a.at("b").bytes();
    let w = a.at("w").words();
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if let Some(x) = tag_downcast_mut::<$t>(tag) {
                x.set_value(<$p>::from_be_bytes(arr_of(&b)));
                return J::Null;
            }
        };
    }
    scalars!(m);
    macro_rules! is {
        ($t:ty, $x:ident, $body:block) => {
            if let Some($x) = tag_downcast_mut::<$t>(tag) {
                $body
                return J::Null;
            }
        };
    }
    is!(ILNullTag, _x, {});
    is!(ILBoolTag, x, { x.set_value(b[0] == 1) });
    is!(ILBin128Tag, x, { x.set_value(&arr_of(&b)) });
    is!(ILILInt64Tag, x, { x.set_value(w[0]) });
    is!(ILSignedILInt64Tag, x, { x.set_value(w[0] as i64) });
    is!(ILRawTag, x, {
        if f == "mut" {
            *x.mut_value() = b;
        } else {
            x.set_value(&b);
        }
    });
    is!(ILByteArrayTag, x, { *x.mut_value() = b });
    is!(ILBigIntTag, x, { *x.mut_value() = b });
    is!(ILStringTag, x, {
        if f == "mut" {
            *x.mut_value() = utf8(&b);
        } else {
            x.set_value(&utf8(&b));
        }
    });
    is!(ILBigDecTag, x, {
        if f == "scale" {
            x.set_scale(i32::from_be_bytes(arr_of(&a.at("s").arr()[0].bytes())));
        } else {
            *x.mut_value() = b;
        }
    });
    is!(ILILIntArrayTag, x, {
        if f == "mut" {
            *x.mut_value() = w;
        } else {
            x.set_value(&w);
        }
    });
    is!(ILOIDTag, x, {
        if f == "mut" {
            *x.mut_value() = w;
        } else {
            x.set_value(&w);
        }
    });
    is!(ILRangeTag, x, {
        match f {
            "start" => x.set_start(w[0]),
            "count" => x.set_count(u16::from_be_bytes(arr_of(&b))),
            _ => x.set_value(w[0], u16::from_be_bytes(arr_of(&b))),
        }
    });
    is!(ILVersionTag, x, {
        let v = i32s(&b);
        match f {
            "major" => x.set_major(v[0]),
            "minor" => x.set_minor(v[1]),
            "revision" => x.set_revision(v[2]),
            "build" => x.set_build(v[3]),
            "slice" => x.set_value_from_slice(&v),
            _ => x.set_value(v[0], v[1], v[2], v[3]),
        }
    });
    if let Some(x) = tag_downcast_mut::<ILTagSeqTag>(tag) {
        return set_list(x.mut_value(), f, a);
    }
    if let Some(x) = tag_downcast_mut::<ILTagArrayTag>(tag) {
        return set_list(x.mut_value(), f, a);
    }
    if let Some(x) = tag_downcast_mut::<EnvTag>(tag) {
        return set_list(&mut x.mut_payload().0, f, a);
    }
    is!(PayTag, x, {
        if f == "deref" {
            x.deref_mut().0 = b;
        } else {
            x.mut_payload().0 = b;
        }
    });
    if let Some(x) = tag_downcast_mut::<ILDictTag>(tag) {
        let keys: Vec<String> = a.at("s").arr().iter().map(|s| utf8(&s.bytes())).collect();
        match f {
            "insert" => {
                let old = x.insert(&keys[0], build(&a.at("c").arr()[0]));
                return old.map_or(J::Arr(vec![]), |t| J::Arr(vec![observe(t.as_ref())]));
            }
            "remove" => {
                let old = x.mut_value().remove(&keys[0]);
                return old.map_or(J::Arr(vec![]), |t| J::Arr(vec![observe(t.as_ref())]));
            }
            "get" => {
                return x.get(&keys[0]).map_or(J::Arr(vec![]), |t| J::Arr(vec![observe(t)]));
            }
            "len" => return J::from(x.len()),
            "empty" => return J::from(x.is_empty()),
            _ => {
                x.mut_value().clear();
                return J::Null;
            }
        }
    }
    if let Some(x) = tag_downcast_mut::<ILStrDictTag>(tag) {
        let keys: Vec<String> = a.at("s").arr().iter().map(|s| utf8(&s.bytes())).collect();
        let opt = |o: Option<String>| o.map_or(J::Arr(vec![]), |t| J::Arr(vec![J::from(t.as_bytes())]));
        match f {
            "insert" => return opt(x.insert(&keys[0], &keys[1])),
            "remove" => return opt(x.mut_value().remove(&keys[0])),
            "get" => return opt(x.get(&keys[0]).map(|s| s.to_string())),
            "len" => return J::from(x.len()),
            "empty" => return J::from(x.is_empty()),
            _ => {
                x.mut_value().clear();
                return J::Null;
            }
        }
    }
    bad("cannot set")
}

fn set_list(v: &mut Vec<TBox>, f: &str, a: &J) -> J {
    match f {
        "push" => a.at("c").arr().iter().for_each(|c| v.push(build(c))),
        "pop" => {
            v.pop();
        }
        "clear" => v.clear(),
        _ => {
            v.clear();
            a.at("c").arr().iter().for_each(|c| v.push(build(c)));
        }
    }
    J::Null
}

/// Results of every downcast helper for the concrete type of kind k.
pub fn downcasts(tag: &mut dyn ILTag, k: &str, id: u64) -> J {
    fn go<T: ILTag>(tag: &mut dyn ILTag, id: u64) -> J {
        let u = |e: Result<()>| match e {
            Ok(()) => "ok",
            Err(ErrorKind::UnexpectedTagType) => "type",
            Err(ErrorKind::UnsupportedTag) => "custom",
            Err(_) => "other",
        };
        J::Arr(vec![
            J::from(tag_downcast_ref::<T>(tag).is_some()),
            J::from(tag_downcast_mut::<T>(tag).is_some()),
            J::from(tag_downcast_ref_with_id::<T>(id, tag).is_some()),
            J::from(tag_downcast_mut_with_id::<T>(id, tag).is_some()),
            J::from(u(tag_id_downcast_ref::<T>(id, tag).map(|_| ()))),
            J::from(u(tag_id_downcast_mut::<T>(id, tag).map(|_| ()))),
            J::from(u(assert_tag_id_and_type::<T>(id, tag))),
            J::from(u(assert_tag_id_and_type_or_error::<T>(id, tag, ErrorKind::UnsupportedTag))),
        ])
    }
    macro_rules! m {
        ($n:expr, $t:ty, $p:ty) => {
            if k == $n {
                return go::<$t>(tag, id);
            }
        };
    }
    scalars!(m);
    match k {
        "null" => go::<ILNullTag>(tag, id),
        "bool" => go::<ILBoolTag>(tag, id),
        "b128" => go::<ILBin128Tag>(tag, id),
        "ilint" => go::<ILILInt64Tag>(tag, id),
        "silint" => go::<ILSignedILInt64Tag>(tag, id),
        "raw" => go::<ILRawTag>(tag, id),
        "bytes" => go::<ILByteArrayTag>(tag, id),
        "bint" => go::<ILBigIntTag>(tag, id),
        "str" => go::<ILStringTag>(tag, id),
        "bdec" => go::<ILBigDecTag>(tag, id),
        "ilarr" => go::<ILILIntArrayTag>(tag, id),
        "oid" => go::<ILOIDTag>(tag, id),
        "range" => go::<ILRangeTag>(tag, id),
        "ver" => go::<ILVersionTag>(tag, id),
        "seq" => go::<ILTagSeqTag>(tag, id),
        "arr" => go::<ILTagArrayTag>(tag, id),
        "dict" => go::<ILDictTag>(tag, id),
        "sdict" => go::<ILStrDictTag>(tag, id),
        "pay" => go::<PayTag>(tag, id),
        "env" => go::<EnvTag>(tag, id),
        _ => bad("bad kind"),
    }
}
