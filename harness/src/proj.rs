//! Projections of library values to JSON observations.

use osmpbf::*;
use serde_json::{json, Value};

/// 64-bit integers as five base-2^15 limbs, least significant first; the last one carries the
/// sign (TLC integers have 32 bits). The representation is unique, so TLC compares with "=".
pub fn l(v: i64) -> Value {
    let m = 0x7fff;
    json!([v & m, (v >> 15) & m, (v >> 30) & m, (v >> 45) & m, v >> 60])
}

pub fn lu(v: u64) -> Value {
    let m = 0x7fff;
    json!([v & m, (v >> 15) & m, (v >> 30) & m, (v >> 45) & m, v >> 60])
}

/// The inverse of `lu`.
pub fn ul(v: &Value) -> u64 {
    let a = v.as_array().expect("vexec: limbs");
    (0..5).fold(0u64, |s, i| s | (a[i].as_i64().unwrap() as u64) << (15 * i as u32))
}

/// The inverse of `l`.
pub fn sl(v: &Value) -> i64 {
    ul(v) as i64
}

/// Degrees, scaled back to nanodegrees.
fn deg(v: f64) -> Value {
    let r = (v * 1e9).round();
    if r.abs() < 9e18 {
        l(r as i64)
    } else {
        json!([0, 0, 0, 0, 99])
    }
}

pub fn opt<T>(o: Option<T>, f: impl Fn(T) -> Value) -> Value {
    match o {
        None => json!([]),
        Some(x) => json!([f(x)]),
    }
}

pub fn bytes(s: &str) -> Value {
    json!(s.as_bytes())
}

/// Kind, detail (kind of the I/O error or place of the protobuf error) and size or index.
fn kind(k: &ErrorKind) -> Value {
    match k {
        ErrorKind::Io(e) => json!({"k":"io","d":format!("{:?}", e.kind()),"sz":[]}),
        ErrorKind::Protobuf { location, .. } => json!({"k":"proto","d":location,"sz":[]}),
        ErrorKind::StringtableUtf8 { index, .. } => json!({"k":"utf8","d":"","sz":[lu(*index as u64)]}),
        ErrorKind::StringtableIndexOutOfBounds { index } => json!({"k":"oob","d":"","sz":[lu(*index as u64)]}),
        ErrorKind::Blob(BlobError::InvalidHeaderSize) => json!({"k":"hsize","d":"","sz":[]}),
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) => json!({"k":"hbig","d":"","sz":[lu(*size)]}),
        ErrorKind::Blob(BlobError::MessageTooBig { size }) => json!({"k":"mbig","d":"","sz":[lu(*size)]}),
        ErrorKind::Blob(BlobError::Empty) => json!({"k":"empty","d":"","sz":[]}),
        _ => json!({"k":"other","d":"","sz":[]}),
    }
}

/// The numbers in the text of an error.
fn numbers(s: &str) -> Vec<Value> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse::<u64>().ok()).map(lu).collect()
}

/// An error: its kind, whether it has a cause, the numbers its text mentions, and what is left of it
/// after a conversion to an `io::Error` and back ("back": kind, "kept": the text is the same).
pub fn err(e: Error) -> Value {
    let v = kind(e.kind());
    let text = e.to_string();
    let (inner, os) = match e.kind() {
        ErrorKind::Io(x) => (x.to_string(), x.raw_os_error().unwrap_or(0)),
        ErrorKind::Protobuf { err, .. } => (err.to_string(), 0),
        ErrorKind::StringtableUtf8 { err, .. } => (err.to_string(), 0),
        _ => (String::new(), 0),
    };
    #[allow(deprecated)]
    let (cause, right) = match std::error::Error::cause(&e) {
        None => (false, true),
        Some(c) => (true, c.to_string() == inner && text.contains(&inner)),
    };
    #[allow(deprecated)]
    let desc = !std::error::Error::description(&e).is_empty();
    let io = std::io::Error::from(e);
    let kept = io.to_string() == text;
    let again = json!({"k":"io","d":format!("{:?}", io.kind()),"sz":[]});
    let back = match io.into_inner().map(|x| x.downcast::<Error>()) {
        Some(Ok(e)) => kind(&e.into_kind()),
        _ => again,
    };
    json!({"t":"err","k":v["k"],"d":v["d"],"sz":v["sz"],"cause":cause,"right":right,"os":os,"desc":desc,"nums":numbers(&text),"text":!text.is_empty(),
        "back":back,"kept":kept})
}

/// A string resolution: {"ok":true,"s":bytes} or {"ok":false,"k":kind,"i":index,"e":[the error]}
pub fn sres(r: Result<&str>) -> Value {
    match r {
        Ok(s) => json!({"ok":true,"s":bytes(s),"k":"","i":[],"e":[]}),
        Err(e) => {
            let v = err(e);
            json!({"ok":false,"s":[],"k":v["k"],"i":v["sz"],"e":[v]})
        }
    }
}

fn pairs<'a>(it: impl Iterator<Item = (&'a str, &'a str)>) -> Value {
    it.map(|(k, v)| json!([bytes(k), bytes(v)])).collect()
}

fn hint(h: (usize, Option<usize>)) -> Value {
    json!([h.0.min(1 << 30), h.1.map_or(-1, |x| x.min(1 << 30) as i64)])
}

pub fn size_hint(h: (usize, Option<usize>)) -> Value {
    hint(h)
}

fn info(i: &Info) -> Value {
    json!([{
        "ver": opt(i.version(), |x| l(x as i64)),
        "ts": opt(i.milli_timestamp(), l),
        "cs": opt(i.changeset(), l),
        "uid": opt(i.uid(), |x| l(x as i64)),
        "user": opt(i.user(), sres),
        "vis": i.visible(),
        "del": i.deleted(),
    }])
}

fn dinfo(i: &DenseNodeInfo) -> Value {
    json!([{
        "ver": [l(i.version() as i64)],
        "ts": [l(i.milli_timestamp())],
        "cs": [l(i.changeset())],
        "uid": [l(i.uid() as i64)],
        "user": [sres(i.user())],
        "vis": i.visible(),
        "del": i.deleted(),
    }])
}

pub fn node(n: &Node) -> Value {
    json!({"k":"node","id":l(n.id()),
        "nlat":l(n.nano_lat()),"nlon":l(n.nano_lon()),
        "dlat":l(n.decimicro_lat() as i64),"dlon":l(n.decimicro_lon() as i64),
        "flat":deg(n.lat()),"flon":deg(n.lon()),
        "tags":pairs(n.tags()),
        "raw":n.raw_tags().map(|(k,v)| json!([l(k as i64),l(v as i64)])).collect::<Value>(),
        "tl":hint(n.tags().size_hint()),"rl":hint(n.raw_tags().size_hint()),
        "nst":n.raw_stringtable().len(),
        "info":info(&n.info())})
}

pub fn dense(n: &DenseNode) -> Value {
    json!({"k":"dense","id":l(n.id()),"id2":l(n.id),
        "nlat":l(n.nano_lat()),"nlon":l(n.nano_lon()),
        "dlat":l(n.decimicro_lat() as i64),"dlon":l(n.decimicro_lon() as i64),
        "flat":deg(n.lat()),"flon":deg(n.lon()),
        "tags":pairs(n.tags()),
        "raw":n.raw_tags().map(|(k,v)| json!([l(k as i64),l(v as i64)])).collect::<Value>(),
        "tl":hint(n.tags().size_hint()),"rl":hint(n.raw_tags().size_hint()),
        "info": n.info().map_or(json!([]), dinfo)})
}

pub fn loc(n: &WayNodeLocation) -> Value {
    json!({"nlat":l(n.nano_lat()),"nlon":l(n.nano_lon()),
        "dlat":l(n.decimicro_lat() as i64),"dlon":l(n.decimicro_lon() as i64),
        "flat":deg(n.lat()),"flon":deg(n.lon())})
}

pub fn way(w: &Way) -> Value {
    json!({"k":"way","id":l(w.id()),
        "tags":pairs(w.tags()),
        "raw":w.raw_tags().map(|(k,v)| json!([l(k as i64),l(v as i64)])).collect::<Value>(),
        "tl":hint(w.tags().size_hint()),"rl":hint(w.raw_tags().size_hint()),
        "refs":w.refs().map(l).collect::<Value>(),
        "fl":hint(w.refs().size_hint()),
        "rrefs":w.raw_refs().iter().map(|x| l(*x)).collect::<Value>(),
        "locs":w.node_locations().map(|x| loc(&x)).collect::<Value>(),
        "ll":hint(w.node_locations().size_hint()),
        "nst":w.raw_stringtable().len(),
        "info":info(&w.info())})
}

pub fn member(m: &RelMember) -> Value {
    let t = match m.member_type {
        RelMemberType::Node => 0,
        RelMemberType::Way => 1,
        RelMemberType::Relation => 2,
    };
    json!({"id":l(m.member_id),"ty":t,"sid":l(m.role_sid as i64),"role":sres(m.role())})
}

pub fn rel(r: &Relation) -> Value {
    json!({"k":"rel","id":l(r.id()),
        "tags":pairs(r.tags()),
        "raw":r.raw_tags().map(|(k,v)| json!([l(k as i64),l(v as i64)])).collect::<Value>(),
        "tl":hint(r.tags().size_hint()),"rl":hint(r.raw_tags().size_hint()),
        "mems":r.members().map(|x| member(&x)).collect::<Value>(),
        "ml":hint(r.members().size_hint()),
        "nst":r.raw_stringtable().len(),
        "info":info(&r.info())})
}

pub fn element(e: &Element) -> Value {
    match e {
        Element::Node(n) => node(n),
        Element::DenseNode(n) => dense(n),
        Element::Way(w) => way(w),
        Element::Relation(r) => rel(r),
    }
}

/// Visits all there is and keeps only the kind and the id.
pub fn walk(e: &Element) -> Value {
    let mut n = 0usize;
    let mut count = |k: usize| n = n.wrapping_add(k);
    match e {
        Element::Node(x) => {
            x.tags().for_each(|t| count(t.0.len()));
            x.raw_tags().for_each(|t| count(t.0 as usize));
            count(x.info().user().map_or(0, |u| u.map_or(0, str::len)));
        }
        Element::DenseNode(x) => {
            x.tags().for_each(|t| count(t.0.len()));
            x.raw_tags().for_each(|t| count(t.0 as usize));
            count(x.info().map_or(0, |i| i.user().map_or(0, str::len)));
        }
        Element::Way(x) => {
            x.tags().for_each(|t| count(t.0.len()));
            x.raw_tags().for_each(|t| count(t.0 as usize));
            x.refs().for_each(|r| count(r as usize));
            x.node_locations().for_each(|r| count(r.nano_lat() as usize));
            count(x.info().user().map_or(0, |u| u.map_or(0, str::len)));
        }
        Element::Relation(x) => {
            x.tags().for_each(|t| count(t.0.len()));
            x.raw_tags().for_each(|t| count(t.0 as usize));
            x.members().for_each(|m| count(m.role().map_or(0, str::len)));
            count(x.info().user().map_or(0, |u| u.map_or(0, str::len)));
        }
    }
    std::hint::black_box(n);
    brief(e)
}

/// Kind and id only.
pub fn brief(e: &Element) -> Value {
    match e {
        Element::Node(n) => json!(["node", l(n.id())]),
        Element::DenseNode(n) => json!(["dense", l(n.id())]),
        Element::Way(w) => json!(["way", l(w.id())]),
        Element::Relation(r) => json!(["rel", l(r.id())]),
    }
}

pub fn header(h: &HeaderBlock) -> Value {
    json!({
        "bbox": opt(h.bbox(), |b| json!([deg(b.left),deg(b.right),deg(b.top),deg(b.bottom)])),
        "req": h.required_features().iter().map(|s| bytes(s)).collect::<Value>(),
        "optf": h.optional_features().iter().map(|s| bytes(s)).collect::<Value>(),
        "prog": opt(h.writing_program(), bytes),
        "source": opt(h.source(), bytes),
        "rts": opt(h.osmosis_replication_timestamp(), l),
        "rseq": opt(h.osmosis_replication_sequence_number(), l),
        "rurl": opt(h.osmosis_replication_base_url(), bytes),
    })
}
