//! vexec: a dumb executor. It reads sessions (one JSON object per line: {"sid":n,"steps":[..]})
//! from a plan file, performs each step on the real osmpbf crate through its public API and
//! prints one JSON line per step with what was observed. It contains no oracle: the recorded
//! observations are judged by TLC against the TLA+ specification.
//!
//! A panic inside the library is an observation ({"t":"panic"}) and ends the session.

mod block;
mod par;
mod proj;
mod src;
mod stream;

use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Counting allocator: the peak number of live bytes during a step is an observation.
struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(c, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(c, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n >= l.size() {
                let c = CUR.fetch_add(n - l.size(), Relaxed) + n - l.size();
                PEAK.fetch_max(c, Relaxed);
            } else {
                CUR.fetch_sub(l.size() - n, Relaxed);
            }
        }
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

#[derive(Default)]
pub struct Session {
    pub stream: stream::Handles,
    pub block: block::Handles,
}

fn step(s: &mut Session, st: &Value) -> Value {
    let op = st["op"].as_str().unwrap();
    if let Some(v) = stream::step(&mut s.stream, &mut s.block, op, st) {
        return v;
    }
    if let Some(v) = block::step(&mut s.block, op, st) {
        return v;
    }
    if let Some(v) = par::step(op, st) {
        return v;
    }
    panic!("vexec: unknown op {op}")
}

fn main() {
    let plan = std::env::args().nth(1).expect("plan file");
    let skip: usize = std::env::args().nth(2).map_or(0, |s| s.parse().unwrap());
    let f = std::io::BufReader::new(std::fs::File::open(plan).unwrap());
    let stdout = std::io::stdout();
    std::panic::set_hook(Box::new(|_| {}));
    for (n, line) in f.lines().enumerate() {
        if n < skip {
            continue;
        }
        let sess: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let sid = &sess["sid"];
        let mut s = Session::default();
        for (i, st) in sess["steps"].as_array().unwrap().iter().enumerate() {
            let before = CUR.load(Relaxed);
            PEAK.store(before, Relaxed);
            let r = catch_unwind(AssertUnwindSafe(|| step(&mut s, st)));
            let peak = PEAK.load(Relaxed).saturating_sub(before);
            let (mut out, stop) = match r {
                Ok(v) => (v, false),
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                        .unwrap_or_default();
                    if m.starts_with("vexec:") {
                        eprintln!("{m} in session {sid} step {i}: {st}");
                        std::process::exit(7);
                    }
                    (json!({"t": "panic", "msg": m}), true)
                }
            };
            out["fired"] = json!(src::fired());
            out["fon"] = json!(src::last());
            if src::fired() > 0 {
                out["fpos"] = proj::lu(src::pos());
            }
            out["ios"] = json!(src::ios());
            out["seeks"] = json!(src::seeks());
            src::disarm();
            let mut o = stdout.lock();
            write!(o, "{{\"n\":{n},\"i\":{i},\"out\":").unwrap();
            serde_json::to_writer(&mut o, &out).unwrap();
            // The observation itself is not memory of the library.
            let with = CUR.load(Relaxed);
            drop(out);
            let mem = peak.saturating_sub(with.saturating_sub(CUR.load(Relaxed))) / 1024;
            writeln!(o, ",\"mem\":{mem}}}").unwrap();
            o.flush().unwrap();
            if stop {
                // Do not touch a state a panic went through again.
                std::mem::forget(std::mem::take(&mut s));
                break;
            }
        }
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &json!({"n": n, "end": true})).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
