//! Executes sessions of operations against il2_iltags and reports what happened.
//! Input: one JSON session per line; output: one JSON line of events per session.
//! The executor takes no decision on what is right.
mod alloc;
mod inter;
mod ioops;
mod json;
mod model;
mod obj;
mod pure;
mod readers;
mod thr;
use json::*;
use std::io::{BufRead, Write};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

thread_local! {
    static MSG: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn guarded(o: &J, f: &mut dyn FnMut(&J) -> J) -> J {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(o)));
    let mut e = o.clone();
    match r {
        Ok(J::Obj(fields)) => {
            for (k, v) in fields {
                if k == "err" && e.get("err").is_some() {
                    continue;
                }
                e.set(&k, v);
            }
            e.set("panic", J::from(""));
        }
        Ok(_) => fatal("op result is not an object"),
        Err(_) => e.set("panic", J::from(MSG.with(|m| m.borrow().clone() + " "))),
    }
    e
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(e) => fatal(&format!("stdin: {e}")),
        };
        if line.trim().is_empty() {
            continue;
        }
        let s = parse(&line);
        let mut ev: Vec<J> = vec![];
        {
            let mut run = |o: &J, f: &mut dyn FnMut(&J) -> J| ev.push(guarded(o, f));
            match s.at("su").str() {
                "pure" => s.at("ops").arr().iter().for_each(|o| run(o, &mut |o| pure::run(o))),
                "obj" => {
                    let mut st = obj::St::default();
                    s.at("ops").arr().iter().for_each(|o| run(o, &mut |o| st.run(o)));
                }
                "mr" => ioops::memrd(&s, &mut run),
                "mw" => ioops::memwr(&s, &mut run),
                "lim" => ioops::limited(&s, &mut run),
                "rr" => ioops::stdrd(&s, &mut run),
                "ww" => ioops::stdwr(&s, &mut run),
                "seek" => ioops::seek(&s, &mut run),
                "thr" => thr::threads(&s, &mut run),
                x => fatal(&format!("unknown suite {x}")),
            }
        }
        let mut o = stdout.lock();
        let text = J::obj().with("ev", J::Arr(ev)).to_string();
        if writeln!(o, "{text}").and_then(|_| o.flush()).is_err() {
            std::process::exit(2);
        }
    }
}
