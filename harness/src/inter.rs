//! Two or more operations running interleaved, call by call: every call of a reader,
//! a writer or a tag given to the library is a point where another one goes on.
//!  mode "threads": each on its own thread, one at a time, in the order of a schedule;
//!  mode "nest": the others run inside of the n-th such call of the first.
use crate::json::*;
use crate::model::*;
use crate::pure::*;
use il2_iltags::io::{ErrorKind, Reader, Result, Writer};
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use il2_iltags::tags::raw::RawTagScanner;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static HOOK: RefCell<Option<Rc<dyn Fn()>>> = RefCell::new(None);
}
fn hooked<T>(h: Option<Rc<dyn Fn()>>, f: impl FnOnce() -> T) -> T {
    let old = HOOK.with(|x| x.replace(h));
    let r = f();
    HOOK.with(|x| x.replace(old));
    r
}
fn tick() {
    let h = HOOK.with(|x| x.borrow().clone());
    if let Some(h) = h {
        h();
    }
}

struct TickReader<'a>(&'a [u8], usize);
impl<'a> Reader for TickReader<'a> {
    fn read(&mut self) -> Result<u8> {
        tick();
        if self.1 >= self.0.len() {
            return Err(ErrorKind::EndOfData);
        }
        self.1 += 1;
        Ok(self.0[self.1 - 1])
    }
}
struct TickWriter(Vec<u8>);
impl Writer for TickWriter {
    fn write(&mut self, v: u8) -> Result<()> {
        tick();
        self.0.push(v);
        Ok(())
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// A tag of someone else's type, around another one.
struct TickTag(TBox);
impl ILTag for TickTag {
    fn id(&self) -> u64 {
        self.0.id()
    }
    fn value_size(&self) -> u64 {
        tick();
        self.0.value_size()
    }
    fn serialize_value(&self, w: &mut dyn Writer) -> il2_iltags::tags::Result<()> {
        tick();
        self.0.serialize_value(w)?;
        tick();
        Ok(())
    }
    fn deserialize_value(&mut self, f: &dyn ILTagFactory, n: usize, r: &mut dyn Reader) -> il2_iltags::tags::Result<()> {
        self.0.deserialize_value(f, n, r)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_mut_any(&mut self) -> &mut dyn Any {
        self
    }
}

/// One operation; what it gives is what the model says for it alone.
fn job(j: &J, tags: &[TickTag], f: &dyn ILTagFactory) -> J {
    let tag = |k: &str| &tags[j.at(k).us()];
    match j.at("k").str() {
        "dec" => {
            let b = j.at("b").bytes();
            let mut r = TickReader(&b, 0);
            let x = f.deserialize(&mut r);
            outt(&x, r.1)
        }
        "into" => {
            let b = j.at("b").bytes();
            let mut t = build(j.at("t"));
            let mut r = TickReader(&b, 0);
            let ok = f.deserialize_into(&mut r, t.as_mut()).is_ok();
            let n = r.1;
            if ok {
                J::obj().with("ok", true).with("t", observe(t.as_ref())).with("n", n)
            } else {
                outt(&Err(il2_iltags::tags::ErrorKind::CorruptedData), 0)
            }
        }
        "ser" => {
            let mut w = TickWriter(vec![]);
            let ok = tag("i").serialize(&mut w).is_ok();
            J::obj().with("ok", ok).with("b", J::from(w.0.as_slice())).with("n", tag("i").size() as usize)
        }
        "clone" => outt(&iltag_clone_with_factory(f, tag("i")), 0),
        "eq" => J::obj().with("eq", iltag_are_equal(tag("i"), tag("j"))),
        "scan" => {
            let b = j.at("b").bytes();
            let mut r = TickReader(&b, 0);
            let mut s = RawTagScanner::new(&mut r);
            let mut l = vec![];
            while l.len() < 8 {
                match s.next_tag() {
                    Ok(Some(x)) => l.push(small(&x)),
                    _ => break,
                }
            }
            J::obj().with("x", J::Arr(l))
        }
        x => fatal(&format!("unknown job {x}")),
    }
}
fn guard(f: impl FnOnce() -> J) -> J {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| J::obj().with("panicked", true))
}

struct Turns {
    m: Mutex<(Vec<usize>, usize, Vec<bool>, Option<usize>)>, // order, next, finished, running
    c: Condvar,
    free: AtomicBool,
}
static GIVE_UP: AtomicBool = AtomicBool::new(false);
impl Turns {
    /// Lets another one run, and waits for the next turn of this one.
    fn turn(&self, me: usize, first: bool, done: bool) {
        let start = Instant::now();
        let mut g = self.m.lock().unwrap();
        if g.3 == Some(me) && !first {
            g.3 = None;
        }
        if done {
            g.2[me] = true;
        }
        loop {
            if g.3.is_none() {
                while g.1 < g.0.len() && g.2[g.0[g.1]] {
                    g.1 += 1;
                }
                g.3 = if g.1 < g.0.len() {
                    g.1 += 1;
                    Some(g.0[g.1 - 1])
                } else {
                    g.2.iter().position(|d| !d)
                };
                self.c.notify_all();
            }
            if done || g.3 == Some(me) || self.free.load(Ordering::SeqCst) {
                return;
            }
            let (h, _) = self.c.wait_timeout(g, Duration::from_millis(100)).unwrap();
            g = h;
            let limit = if GIVE_UP.load(Ordering::SeqCst) { 20 } else { 2000 };
            if start.elapsed() > Duration::from_millis(limit) {
                // the one whose turn it is waits for something one of the others holds
                GIVE_UP.store(true, Ordering::SeqCst);
                self.free.store(true, Ordering::SeqCst);
                self.c.notify_all();
            }
        }
    }
}

pub fn op_inter(o: &J) -> J {
    let f = factory(o.at("R"));
    let fr: &dyn ILTagFactory = &f;
    let tags: Vec<TickTag> = o.at("tags").arr().iter().map(|t| TickTag(build(t))).collect();
    let jobs = o.at("jobs").arr();
    let res: Vec<J> = if o.at("mode").str() == "nest" {
        let at = o.at("at").us();
        let inner: Rc<RefCell<Vec<J>>> = Rc::new(RefCell::new(vec![]));
        let seen = Rc::new(Cell::new(0usize));
        let rest = |inner: &Rc<RefCell<Vec<J>>>| {
            if inner.borrow().is_empty() {
                let v: Vec<J> = jobs[1..].iter().map(|j| hooked(None, || guard(|| job(j, &tags, fr)))).collect();
                *inner.borrow_mut() = v;
            }
        };
        let first = {
            // the hook lives on this stack only; it is removed before it goes
            let h: Box<dyn Fn() + '_> = {
                let (inner, seen) = (inner.clone(), seen.clone());
                Box::new(move || {
                    seen.set(seen.get() + 1);
                    if seen.get() == at {
                        rest(&inner);
                    }
                })
            };
            let h: Box<dyn Fn() + 'static> = unsafe { std::mem::transmute(h) };
            hooked(Some(Rc::from(h)), || guard(|| job(&jobs[0], &tags, fr)))
        };
        if inner.borrow().is_empty() {
            let v: Vec<J> = jobs[1..].iter().map(|j| guard(|| job(j, &tags, fr))).collect();
            *inner.borrow_mut() = v;
        }
        let mut all = vec![first];
        all.extend(inner.borrow().iter().cloned());
        all
    } else {
        let order: Vec<usize> = o.at("sched").arr().iter().map(|x| x.us()).collect();
        let turns = Turns {
            m: Mutex::new((order, 0, vec![false; jobs.len()], None)),
            c: Condvar::new(),
            free: AtomicBool::new(false),
        };
        let (tr, tg) = (&turns, &tags);
        let r = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .iter()
                .enumerate()
                .map(|(me, j)| {
                    sc.spawn(move || {
                        tr.turn(me, true, false);
                        // the scheduler outlives the thread
                        let p = tr as *const Turns as usize;
                        let h: Rc<dyn Fn()> = Rc::new(move || unsafe { (*(p as *const Turns)).turn(me, false, false) });
                        let r = hooked(Some(h), || guard(|| job(j, tg, fr)));
                        tr.turn(me, false, true);
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fatal("a thread died"))).collect::<Vec<J>>()
        });
        r
    };
    // what is shared is as it was
    let same = tags.iter().zip(o.at("tags").arr()).all(|(t, j)| observe(t.0.as_ref()) == observe(build(j).as_ref()));
    J::obj().with("res", J::Arr(res)).with("same", same)
}
