//! Parallel map/reduce with traced tokens: every value the library sees is a token with a unique
//! number, and every closure call is logged in one global order (under one lock).

use crate::proj::{brief, err};
use crate::src::{arm, Src};
use crate::stream::{blast, Bomb};
use osmpbf::*;
use serde_json::{json, Value};
use std::io::BufReader;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

struct Tok(usize);

struct Log {
    ev: Vec<Value>,
    next: usize,
    rng: u64,
}

fn rnd(g: &mut Log) -> u64 {
    g.rng ^= g.rng << 13;
    g.rng ^= g.rng >> 7;
    g.rng ^= g.rng << 17;
    g.rng
}

fn pause(x: u64) {
    match x % 8 {
        0..=3 => {}
        4 | 5 => std::thread::yield_now(),
        6 => std::thread::sleep(std::time::Duration::from_micros(x >> 8 & 63)),
        _ => {
            for _ in 0..(x >> 8 & 1023) {
                std::hint::spin_loop();
            }
        }
    }
}

/// Map/reduce into a list; for blocks that are too big for a trace of every closure call.
fn list(st: &Value) -> Value {
    arm(st);
    let threads = st["threads"].as_u64().unwrap_or(4) as usize;
    let map = |e: Element| vec![brief(&e)];
    let ident = Vec::new;
    let reduce = |mut a: Vec<Value>, mut b: Vec<Value>| {
        a.append(&mut b);
        a
    };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("vexec: pool");
    let r = pool.install(|| match st["via"].as_str().unwrap() {
        "path" => match ElementReader::from_path(st["path"].as_str().unwrap()) {
            Ok(r) => r.par_map_reduce(map, ident, reduce),
            Err(e) => Err(e),
        },
        "bufnew" => ElementReader::new(BufReader::new(Src::open(st))).par_map_reduce(map, ident, reduce),
        _ => ElementReader::new(Src::open(st)).par_map_reduce(map, ident, reduce),
    });
    match r {
        Ok(els) => json!({"t":"parlist","els":els,"res":{"t":"ok"}}),
        Err(e) => json!({"t":"parlist","els":[],"res":err(e)}),
    }
}

pub fn step(op: &str, st: &Value) -> Option<Value> {
    if op == "parlist" {
        return Some(list(st));
    }
    if op != "par" {
        return None;
    }
    arm(st);
    let threads = st["threads"].as_u64().unwrap_or(4) as usize;
    let seed = st["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let log = Mutex::new(Log { ev: vec![], next: 1, rng: seed });
    // "bomb": n panics in the n-th call of the map closure.
    let bomb = st["bomb"].as_u64().unwrap_or(0);
    let maps = AtomicU64::new(0);
    let map = |e: Element| {
        blast(maps.fetch_add(1, Relaxed) + 1 == bomb);
        let b = brief(&e);
        let mut g = log.lock().unwrap();
        let t = g.next;
        g.next += 1;
        g.ev.push(json!({"a":"map","x":0,"y":0,"t":t,"el":b}));
        let p = rnd(&mut g);
        drop(g);
        pause(p);
        Tok(t)
    };
    let ident = || {
        let mut g = log.lock().unwrap();
        let t = g.next;
        g.next += 1;
        g.ev.push(json!({"a":"id","x":0,"y":0,"t":t,"el":[]}));
        Tok(t)
    };
    let reduce = |a: Tok, b: Tok| {
        let mut g = log.lock().unwrap();
        let t = g.next;
        g.next += 1;
        g.ev.push(json!({"a":"red","x":a.0,"y":b.0,"t":t,"el":[]}));
        let p = rnd(&mut g);
        drop(g);
        pause(p);
        Tok(t)
    };
    let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("vexec: pool");
    let run = || pool.install(|| match st["via"].as_str().unwrap() {
        "path" => match ElementReader::from_path(st["path"].as_str().unwrap()) {
            Ok(r) => r.par_map_reduce(map, ident, reduce),
            Err(e) => Err(e),
        },
        "bufnew" => ElementReader::new(BufReader::new(Src::open(st))).par_map_reduce(map, ident, reduce),
        _ => ElementReader::new(Src::open(st)).par_map_reduce(map, ident, reduce),
    });
    let res = match catch_unwind(AssertUnwindSafe(run)) {
        Ok(Ok(t)) => json!({"t":"ok","tok":t.0}),
        Ok(Err(e)) => err(e),
        Err(e) if e.is::<Bomb>() => json!({"t":"bomb"}),
        Err(e) => resume_unwind(e),
    };
    drop(pool);
    let g = log.into_inner().unwrap();
    Some(json!({"t":"par","ev":g.ev,"res":res}))
}
