//! Blob-level operations: buffered and memory mapped blob readers, element reader, indexed reader.

use crate::block;
use crate::proj::{brief, bytes, element, err, header, l, lu, opt, sl, ul, walk};
use crate::src::{arm, Src};
use osmpbf::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufReader, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Rd {
    Src(BlobReader<Src>),
    Buf(BlobReader<BufReader<Src>>),
    File(BlobReader<BufReader<File>>),
    Mmap(MmapBlobReader<'static>),
}

enum Ix {
    Src(IndexedReader<Src>),
    File(IndexedReader<File>),
}

#[derive(Clone)]
enum Kb {
    Blob(Blob),
    Mmap(MmapBlob<'static>),
}

#[derive(Default)]
pub struct Handles {
    rd: HashMap<String, Rd>,
    ix: HashMap<String, Ix>,
    kb: HashMap<String, Kb>,
}

/// Keeps a blob if the step asks for it.
fn hold(kb: &mut HashMap<String, Kb>, st: &Value, b: Kb) {
    if let Some(k) = st["keepb"].as_str() {
        kb.insert(k.to_string(), b);
    }
}

macro_rules! with {
    ($h:expr, $r:ident => $e:expr, $m:ident => $me:expr) => {
        match $h {
            Rd::Src($r) => $e,
            Rd::Buf($r) => $e,
            Rd::File($r) => $e,
            Rd::Mmap($m) => $me,
        }
    };
}

fn decoded(r: Result<BlobDecode>, st: &Value, bl: &mut block::Handles) -> Value {
    match r {
        Err(e) => err(e),
        Ok(BlobDecode::OsmHeader(h)) => json!({"t":"hdr","h":header(&h)}),
        Ok(BlobDecode::Unknown(x)) => json!({"t":"unk","ty":bytes(x)}),
        Ok(BlobDecode::OsmData(b)) => data(b, st, bl),
    }
}

fn data(b: PrimitiveBlock, st: &Value, bl: &mut block::Handles) -> Value {
    let mut els: Vec<Value> = Vec::new();
    match st["dec"].as_str().unwrap_or("no") {
        "full" => b.for_each_element(|e| els.push(element(&e))),
        "walk" => b.elements().for_each(|e| els.push(walk(&e))),
        "keep" => {
            bl.keep(st["keep"].as_str().unwrap(), b);
            return json!({"t":"kept"});
        }
        "count" => {
            let mut n = 0;
            b.for_each_element(|_| n += 1);
            return json!({"t":"count","n":n});
        }
        _ => b.for_each_element(|e| els.push(brief(&e))),
    }
    json!({"t":"data","els":els})
}

fn ty(t: BlobType) -> Value {
    bytes(t.as_str())
}

/// The type as enum variant: H, D or U.
fn tyk(t: &BlobType) -> &'static str {
    match t {
        BlobType::OsmHeader => "H",
        BlobType::OsmData => "D",
        BlobType::Unknown(_) => "U",
    }
}

fn blob(b: &Blob, st: &Value, bl: &mut block::Handles) -> Value {
    let dec = match st["dec"].as_str().unwrap_or("no") {
        "no" => json!({"t":"no"}),
        _ => {
            match st["as"].as_str() {
                // decode under a fixed interpretation, whatever the type says
                Some("header") => match b.to_headerblock() {
                    Ok(h) => json!({"t":"hdr","h":header(&h)}),
                    Err(e) => err(e),
                },
                Some("data") => match b.to_primitiveblock() {
                    Ok(x) => data(x, st, bl),
                    Err(e) => err(e),
                },
                _ => decoded(b.decode(), st, bl),
            }
        }
    };
    json!({"t":"blob","ty":ty(b.get_type()),"tk":tyk(&b.get_type()),
        "off":opt(b.offset(), |o| lu(o.0)),"dec":dec})
}

fn mblob(b: &MmapBlob<'static>, st: &Value, bl: &mut block::Handles) -> Value {
    let dec = match st["dec"].as_str().unwrap_or("no") {
        "no" => json!({"t":"no"}),
        _ => decoded(b.decode(), st, bl),
    };
    json!({"t":"blob","ty":ty(b.get_type()),"tk":tyk(&b.get_type()),
        "off":[lu(b.offset().0)],"dec":dec})
}

fn item(r: Option<Result<Blob>>, st: &Value, bl: &mut block::Handles, kb: &mut HashMap<String, Kb>) -> Value {
    match r {
        None => json!({"t":"none"}),
        Some(Err(e)) => err(e),
        Some(Ok(b)) => {
            let v = blob(&b, st, bl);
            hold(kb, st, Kb::Blob(b));
            v
        }
    }
}

fn mitem(r: Option<Result<MmapBlob<'static>>>, st: &Value, bl: &mut block::Handles, kb: &mut HashMap<String, Kb>) -> Value {
    match r {
        None => json!({"t":"none"}),
        Some(Err(e)) => err(e),
        Some(Ok(b)) => {
            let v = mblob(&b, st, bl);
            hold(kb, st, Kb::Mmap(b));
            v
        }
    }
}

/// Operations on kept blobs.
fn kept(hs: &mut Handles, bl: &mut block::Handles, op: &str, st: &Value) -> Value {
    if op == "bdecpar" {
        return kept_par(hs, st);
    }
    let Some(b) = hs.kb.get(name(st, "b")) else {
        return json!({"t":"gone"});
    };
    if op == "bclone" {
        let c = b.clone();
        hs.kb.insert(name(st, "to").to_string(), c);
        return json!({"t":"ok"});
    }
    match b {
        Kb::Blob(b) => blob(b, st, bl),
        Kb::Mmap(b) => mblob(b, st, bl),
    }
}

/// The blobs "bs" decoded by several threads at once, each thread starting with another one.
fn kept_par(hs: &Handles, st: &Value) -> Value {
    let names: Vec<&str> = st["bs"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    let bs: Vec<&Kb> = names.iter().filter_map(|n| hs.kb.get(*n)).collect();
    if bs.len() < names.len() {
        return json!({"t":"gone"});
    }
    let n = st["threads"].as_u64().unwrap_or(3) as usize;
    let gate = std::sync::Barrier::new(n);
    let all: Vec<Value> = std::thread::scope(|s| {
        let (bs, gate) = (&bs, &gate);
        let ts: Vec<_> = (0..n)
            .map(|t| {
                s.spawn(move || {
                    gate.wait();
                    let mut out = Vec::new();
                    for k in 0..bs.len() {
                        let i = (k + t) % bs.len();
                        let mut mine = block::Handles::default();
                        let v = catch_unwind(AssertUnwindSafe(|| match bs[i] {
                            Kb::Blob(b) => blob(b, st, &mut mine),
                            Kb::Mmap(b) => mblob(b, st, &mut mine),
                        }));
                        out.push(json!({"i": i + 1, "o": v.unwrap_or(json!({"t":"panic"}))}));
                    }
                    out
                })
            })
            .collect();
        ts.into_iter().flat_map(|t| t.join().unwrap()).collect()
    });
    json!({"t":"blobs","all":all})
}

fn hitem(r: Option<Result<(BlobHeader, Option<ByteOffset>)>>) -> Value {
    match r {
        None => json!({"t":"none"}),
        Some(Err(e)) => err(e),
        Some(Ok((h, off))) => json!({"t":"hdr","ty":ty(h.blob_type()),"tk":tyk(&h.blob_type()),
            "size":l(h.get_blob_size() as i64),"off":opt(off, |o| lu(o.0))}),
    }
}

/// What a caller's closure panics with.
pub struct Bomb;

pub fn blast(now: bool) {
    if now {
        std::panic::panic_any(Bomb);
    }
}

/// The outcome of a call, which may be the panic of a closure of the caller.
fn caught(call: impl FnOnce() -> Result<()>) -> Value {
    match catch_unwind(AssertUnwindSafe(call)) {
        Ok(r) => unit(r),
        Err(e) if e.is::<Bomb>() => json!({"t":"bomb"}),
        Err(e) => std::panic::resume_unwind(e),
    }
}

fn unit(r: Result<()>) -> Value {
    match r {
        Ok(()) => json!({"t":"ok"}),
        Err(e) => err(e),
    }
}

fn name<'a>(st: &'a Value, k: &str) -> &'a str {
    st[k].as_str().unwrap_or_else(|| panic!("vexec: field {k}"))
}

fn mmap(st: &Value) -> Result<&'static Mmap> {
    // The map has to outlive the session; sessions are short.
    unsafe { Mmap::from_path(name(st, "path")) }.map(|m| &*Box::leak(Box::new(m)))
}

fn mmap_file(st: &Value) -> Result<&'static Mmap> {
    let f = File::open(name(st, "path"))?;
    unsafe { Mmap::from_file(&f) }.map(|m| &*Box::leak(Box::new(m)))
}

fn open(hs: &mut Handles, st: &Value) -> Value {
    let r = match name(st, "via") {
        "new" => Ok(Rd::Src(BlobReader::new(Src::open(st)))),
        "bufnew" => Ok(Rd::Buf(BlobReader::new(BufReader::with_capacity(
            st["cap"].as_u64().unwrap_or(8192) as usize,
            Src::open(st),
        )))),
        "seekable" => BlobReader::new_seekable(Src::open(st)).map(Rd::Src),
        "bufseekable" => {
            let b = BufReader::with_capacity(st["cap"].as_u64().unwrap_or(8192) as usize, Src::open(st));
            BlobReader::new_seekable(b).map(Rd::Buf)
        }
        "path" => BlobReader::from_path(name(st, "path")).map(Rd::File),
        "seekpath" => BlobReader::seekable_from_path(name(st, "path")).map(Rd::File),
        "mmap" => mmap(st).map(|m| Rd::Mmap(MmapBlobReader::new(m))),
        "mmapfile" => mmap_file(st).map(|m| Rd::Mmap(m.blob_iter())),
        x => panic!("vexec: via {x}"),
    };
    match r {
        Ok(r) => {
            hs.rd.insert(name(st, "h").to_string(), r);
            json!({"t":"ok"})
        }
        Err(e) => err(e),
    }
}

fn foreach(st: &Value) -> Value {
    let mut els: Vec<Value> = Vec::new();
    let full = st["full"].as_bool().unwrap_or(false);
    let cb = |e: Element| els.push(if full { element(&e) } else { brief(&e) });
    let r = match name(st, "via") {
        "path" => match ElementReader::from_path(name(st, "path")) {
            Ok(r) => r.for_each(cb),
            Err(e) => Err(e),
        },
        "bufnew" => ElementReader::new(BufReader::new(Src::open(st))).for_each(cb),
        _ => ElementReader::new(Src::open(st)).for_each(cb),
    };
    let res = unit(r);
    json!({"t":"fe","els":els,"res":res})
}

fn indexed(hs: &mut Handles, op: &str, st: &Value) -> Value {
    let full = st["full"].as_bool().unwrap_or(false);
    let p = |e: &Element| if full { element(e) } else { brief(e) };
    if op == "xopen" {
        let r = match name(st, "via") {
            "path" => IndexedReader::from_path(name(st, "path")).map(Ix::File),
            _ => IndexedReader::new(Src::open(st)).map(Ix::Src),
        };
        return match r {
            Ok(r) => {
                hs.ix.insert(name(st, "h").to_string(), r);
                json!({"t":"ok"})
            }
            Err(e) => err(e),
        };
    }
    let Some(h) = hs.ix.get_mut(name(st, "h")) else {
        return json!({"t":"gone"});
    };
    arm(st);
    // "bomb": n panics in the n-th call of the element callback, "fbomb" in the one of the filter.
    let (bomb, fbomb) = (st["bomb"].as_u64().unwrap_or(0), st["fbomb"].as_u64().unwrap_or(0));
    let mut els: Vec<Value> = Vec::new();
    let mut offered: Vec<Value> = Vec::new();
    match op {
        "xcreate" => {
            let r = match h {
                Ix::Src(r) => r.create_index(),
                Ix::File(r) => r.create_index(),
            };
            json!({"t":"x","els":els,"offered":offered,"res":unit(r)})
        }
        "xnodes" => {
            let cb = |e: Element| {
                els.push(p(&e));
                blast(els.len() as u64 == bomb);
            };
            let res = caught(|| match h {
                Ix::Src(r) => r.for_each_node(cb),
                Ix::File(r) => r.for_each_node(cb),
            });
            json!({"t":"x","els":els,"offered":offered,"res":res})
        }
        "xways" => {
            // "acc": ids of accepted ways, or "every": n accepts every n-th offered way
            let acc: Vec<i64> = st["acc"].as_array().map_or(vec![], |a| a.iter().map(sl).collect());
            let every = st["every"].as_u64().unwrap_or(0);
            let mut n = 0u64;
            let filter = |w: &Way| {
                offered.push(l(w.id()));
                n += 1;
                blast(n == fbomb);
                if every > 0 {
                    n % every == 0
                } else {
                    acc.contains(&w.id())
                }
            };
            let cb = |e: &Element| {
                els.push(p(e));
                blast(els.len() as u64 == bomb);
            };
            let res = caught(|| match h {
                Ix::Src(r) => r.read_ways_and_deps(filter, cb),
                Ix::File(r) => r.read_ways_and_deps(filter, cb),
            });
            json!({"t":"x","els":els,"offered":offered,"res":res})
        }
        _ => panic!("vexec: op {op}"),
    }
}

pub fn step(hs: &mut Handles, bl: &mut block::Handles, op: &str, st: &Value) -> Option<Value> {
    match op {
        "open" => {
            arm(st);
            return Some(open(hs, st));
        }
        "foreach" => {
            arm(st);
            return Some(foreach(st));
        }
        "xopen" | "xcreate" | "xnodes" | "xways" => {
            if op == "xopen" {
                arm(st);
            }
            return Some(indexed(hs, op, st));
        }
        "bdec" | "bdecpar" | "bclone" => return Some(kept(hs, bl, op, st)),
        "drop" => {
            hs.rd.remove(name(st, "h"));
            return Some(json!({"t":"ok"}));
        }
        "next" | "hdr" | "seek" | "seekraw" | "from" | "clone" => {}
        _ => return None,
    }
    let kb = &mut hs.kb;
    let Some(h) = hs.rd.get_mut(name(st, "h")) else {
        return Some(json!({"t":"gone"}));
    };
    if op == "clone" {
        let c = match h {
            Rd::Src(s) => Rd::Src(s.clone()),
            Rd::Mmap(m) => Rd::Mmap(m.clone()),
            _ => panic!("vexec: clone of file reader"),
        };
        hs.rd.insert(name(st, "to").to_string(), c);
        return Some(json!({"t":"ok"}));
    }
    arm(st);
    Some(match op {
        "next" => with!(h, r => {
            let x = r.next();
            item(x, st, bl, kb)
        }, m => {
            let x = m.next();
            mitem(x, st, bl, kb)
        }),
        "hdr" => with!(h, r => hitem(r.next_header_skip_blob()), _m => panic!("vexec: hdr of mmap")),
        "seek" => with!(h, r => unit(r.seek(ByteOffset(ul(&st["to"])))), m => {
            m.seek(ByteOffset(ul(&st["to"])));
            json!({"t":"ok"})
        }),
        "seekraw" => {
            let d = &st["d"];
            let to = match name(st, "from") {
                "start" => SeekFrom::Start(ul(d)),
                "end" => SeekFrom::End(sl(d)),
                _ => SeekFrom::Current(sl(d)),
            };
            with!(h, r => match r.seek_raw(to) {
                Ok(p) => json!({"t":"pos","pos":lu(p)}),
                Err(e) => err(e),
            }, _m => panic!("vexec: seekraw of mmap"))
        }
        "from" => with!(h, r => match r.blob_from_offset(ByteOffset(ul(&st["to"]))) {
            Ok(b) => item(Some(Ok(b)), st, bl, kb),
            Err(e) => err(e),
        }, _m => panic!("vexec: from of mmap")),
        _ => unreachable!(),
    })
}
