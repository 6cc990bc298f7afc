//! Threads sharing one factory under a given schedule.
use crate::json::*;
use crate::model::*;
use crate::pure::*;
use il2_iltags::io::array::VecWriter;
use il2_iltags::io::{ErrorKind, Reader, Result, Writer};
use il2_iltags::tags::util::*;
use il2_iltags::tags::*;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Sched {
    m: Mutex<(Vec<usize>, usize, Vec<bool>, bool)>, // order, next, finished, free running
    c: Condvar,
}
impl Sched {
    /// Waits for this thread's turn; every turn is one step of the schedule.
    fn turn(&self, me: usize) {
        let start = Instant::now();
        let mut g = self.m.lock().unwrap();
        loop {
            while g.1 < g.0.len() && g.2[g.0[g.1]] {
                g.1 += 1;
            }
            if g.3 || g.1 >= g.0.len() {
                return;
            }
            if g.0[g.1] == me {
                g.1 += 1;
                self.c.notify_all();
                return;
            }
            let (h, _) = self.c.wait_timeout(g, Duration::from_millis(200)).unwrap();
            g = h;
            if start.elapsed() > Duration::from_secs(3) {
                // the expected thread is blocked outside our control: run freely
                g.3 = true;
                self.c.notify_all();
            }
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.2[me] = true;
        self.c.notify_all();
    }
}
struct TurnReader<'a> {
    d: &'a [u8],
    p: usize,
    s: &'a Sched,
    me: usize,
}
impl<'a> Reader for TurnReader<'a> {
    fn read(&mut self) -> Result<u8> {
        self.s.turn(self.me);
        if self.p >= self.d.len() {
            return Err(ErrorKind::EndOfData);
        }
        self.p += 1;
        Ok(self.d[self.p - 1])
    }
}
struct TurnWriter<'a> {
    w: VecWriter,
    s: &'a Sched,
    me: usize,
}
impl<'a> Writer for TurnWriter<'a> {
    fn write(&mut self, v: u8) -> Result<()> {
        self.s.turn(self.me);
        self.w.write(v)
    }
    fn as_writer(&mut self) -> &mut dyn Writer {
        self
    }
}
/// jobs: each thread decodes b (with the shared factory), serializes what it got,
/// clones it with the shared factory.
pub fn threads(s: &J, run: &mut dyn FnMut(&J, &mut dyn FnMut(&J) -> J)) {
    let f = factory(s.at("R"));
    let jobs: Vec<Vec<Vec<u8>>> = s
        .at("jobs")
        .arr()
        .iter()
        .map(|j| j.arr().iter().map(|b| b.bytes()).collect())
        .collect();
    let order: Vec<usize> = s.at("order").arr().iter().map(|x| x.us()).collect();
    let sched = Arc::new(Sched {
        m: Mutex::new((order, 0, vec![false; jobs.len()], false)),
        c: Condvar::new(),
    });
    let fr = &f;
    let results: Vec<Vec<J>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .enumerate()
            .map(|(me, list)| {
                let sched = sched.clone();
                sc.spawn(move || {
                    let mut o = vec![];
                    for b in list {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let mut rd = TurnReader { d: b, p: 0, s: &sched, me };
                            let r = fr.deserialize(&mut rd);
                            let e = outt(&r, rd.p);
                            let mut by = J::Arr(vec![]);
                            let mut cl = true;
                            if let Ok(t) = &r {
                                let mut w = TurnWriter { w: VecWriter::new(), s: &sched, me };
                                let ok = t.serialize(&mut w).is_ok();
                                by = if ok { J::from(w.w.as_slice()) } else { err_bytes() };
                                cl = match iltag_clone_with_factory(fr, t.as_ref()) {
                                    Ok(c) => iltag_are_equal(c.as_ref(), t.as_ref()),
                                    Err(_) => false,
                                };
                            }
                            e.with("by", by).with("cl", cl)
                        }));
                        o.push(r.unwrap_or_else(|_| J::from("panic")));
                    }
                    sched.done(me);
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (me, list) in results.into_iter().enumerate() {
        for (i, r) in list.into_iter().enumerate() {
            let o = J::obj().with("op", "job").with("me", me).with("i", i);
            let panicked = r == J::from("panic");
            run(&o, &mut |_| {
                if panicked {
                    panic!("a thread panicked");
                }
                J::obj().with("out", r.clone())
            });
        }
    }
}
