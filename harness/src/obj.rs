//! Sessions on stateful objects: factories and tags.
use crate::json::*;
use crate::model::*;
use crate::pure::*;
use il2_iltags::io::array::*;
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct St {
    f: BTreeMap<i64, il2_iltags::tags::standard::ILStandardTagFactory>,
    t: BTreeMap<i64, TBox>,
}
fn obs(t: &dyn ILTag) -> J {
    observe(t)
}
impl St {
    fn fac(&mut self, o: &J) -> &mut il2_iltags::tags::standard::ILStandardTagFactory {
        self.f.get_mut(&o.at("f").int()).unwrap_or_else(|| bad("no factory"))
    }
    pub fn run(&mut self, o: &J) -> J {
        let slot = o.get("s").map(|x| x.int()).unwrap_or(0);
        match o.at("op").str() {
            // factories
            "fnew" => {
                let f = factory(&J::obj().with("strict", o.at("strict").bool()).with("base", o.at("base").str()).with("x", J::Arr(vec![])));
                self.f.insert(o.at("f").int(), f);
                J::obj()
            }
            "freg" => {
                let id = o.at("id").word();
                let c = creator(o.at("k").str(), o.at("how").str());
                let old = self.fac(o).engine().register(id, c);
                J::obj().with("old", kind_of_creator(old, id))
            }
            "fdereg" => {
                let id = o.at("id").word();
                let old = self.fac(o).engine().deregister(id);
                J::obj().with("old", kind_of_creator(old, id))
            }
            "fcreate" => {
                let id = o.at("id").word();
                let a = self.fac(o).create_tag(id).map(|t| obs(t.as_ref()));
                let b = self.fac(o).engine().create_tag(id).map(|t| obs(t.as_ref()));
                let strict = self.fac(o).engine().strict();
                let w = |x: Option<J>| x.map_or(J::Arr(vec![]), |t| J::Arr(vec![t]));
                J::obj().with("t", dis(vec![w(a), w(b)])).with("strict", strict)
            }
            "fdec" => {
                let b = o.at("b").bytes();
                let mut r = ByteArrayReader::new(&b);
                let x = self.fac(o).deserialize(&mut r);
                let n = r.offset();
                let err = x.as_ref().err().map(tag_err).unwrap_or_default();
                let out = outt(&x, n);
                if let (Ok(t), true) = (x, slot > 0) {
                    self.t.insert(slot, t);
                }
                J::obj().with("out", out).with("err", err)
            }
            // tags
            "tnew" => {
                let t = match o.at("how").str() {
                    "value" => construct_value(o.at("t0")),
                    "id_value" => build(o.at("t0")),
                    h => construct(o.at("t0").at("k").str(), h, o.at("t0").at("id").word()),
                };
                let v = obs(t.as_ref());
                let r = J::obj().with("t", v).with("impl", t.is_implicity()).with("resv", t.is_reserved());
                self.t.insert(slot, t);
                r
            }
            "tset" => {
                let t = self.t.get_mut(&slot).unwrap_or_else(|| bad("no tag"));
                let r = set(t.as_mut(), o.at("how").str(), o.at("a"));
                let r = if r == J::Null { J::Arr(vec![]) } else { r };
                J::obj().with("ret", r).with("t", obs(t.as_ref()))
            }
            "tobs" => {
                let t = self.t.get(&slot).unwrap_or_else(|| bad("no tag"));
                J::obj().with("t", obs(t.as_ref())).with("impl", t.is_implicity()).with("resv", t.is_reserved())
            }
            "tser" => {
                let t = self.t.get(&slot).unwrap_or_else(|| bad("no tag"));
                J::obj()
                    .with("by", t.to_bytes().map(J::from).unwrap_or(err_bytes()))
                    .with("size", t.size() as usize)
                    .with("vsize", t.value_size() as usize)
            }
            "tinto" => {
                let b = o.at("b").bytes();
                let mut r = ByteArrayReader::new(&b);
                let f = self.f.get(&o.at("f").int()).unwrap_or_else(|| bad("no factory"));
                let t = self.t.get_mut(&slot).unwrap_or_else(|| bad("no tag"));
                let x = f.deserialize_into(&mut r, t.as_mut());
                let err = x.as_ref().err().map(tag_err).unwrap_or_default();
                if x.is_err() {
                    shrink(t.as_mut());
                }
                J::obj().with("ok", x.is_ok()).with("err", err).with("n", r.offset()).with("t", obs(t.as_ref()))
            }
            "tclone" => {
                let t = self.t.get(&slot).unwrap_or_else(|| bad("no tag"));
                let x = match o.at("f").int() {
                    0 => iltag_clone(t.as_ref()),
                    f => iltag_clone_with_factory(self.f.get(&f).unwrap_or_else(|| bad("no factory")), t.as_ref()),
                };
                let r = outt(&x, 0);
                if let Ok(c) = x {
                    self.t.insert(o.at("d").int(), c);
                }
                J::obj().with("out", r)
            }
            "teq" => {
                let g = |s: i64| self.t.get(&s).unwrap_or_else(|| bad("no tag")).as_ref();
                let (a, b) = (g(slot), g(o.at("d").int()));
                J::obj().with("ab", iltag_are_equal(a, b)).with("ba", iltag_are_equal(b, a))
            }
            "tdown" => {
                let t = self.t.get_mut(&slot).unwrap_or_else(|| bad("no tag"));
                J::obj().with("r", downcasts(t.as_mut(), o.at("k").str(), o.at("id").word()))
            }
            "tmove" => {
                // to another thread and back, observed there, shared by two threads
                let t = self.t.remove(&slot).unwrap_or_else(|| bad("no tag"));
                let (t, a) = std::thread::spawn(move || {
                    let a = obs(t.as_ref());
                    (t, a)
                })
                .join()
                .unwrap();
                let r: &dyn ILTag = t.as_ref();
                let both = std::thread::scope(|s| {
                    let h1 = s.spawn(|| obs(r));
                    let h2 = s.spawn(|| r.to_bytes().map(J::from).unwrap_or(err_bytes()));
                    (h1.join().unwrap(), h2.join().unwrap())
                });
                self.t.insert(slot, t);
                J::obj().with("t", dis(vec![a, both.0])).with("by", both.1)
            }
            "pure" => run(o.at("o")),
            x => bad(&format!("unknown obj op {x}")),
        }
    }
}
