//! Block-level operations: iterators over groups, elements and their parts.

use crate::proj::*;
use osmpbf::*;
use serde_json::{json, Value};
use std::collections::HashMap;

type B = PrimitiveBlock;

#[derive(Clone)]
enum It {
    Groups(GroupIter<'static>),
    Elements(BlockElementsIter<'static>),
    Nodes(GroupNodeIter<'static>),
    Dense(DenseNodeIter<'static>),
    Ways(GroupWayIter<'static>),
    Rels(GroupRelationIter<'static>),
    Tags(TagIter<'static>),
    DTags(DenseTagIter<'static>),
    Raw(RawTagIter<'static>),
    DRaw(DenseRawTagIter<'static>),
    Refs(WayRefIter<'static>),
    Locs(WayNodeLocationsIter<'static>),
    Mems(RelMemberIter<'static>),
}

#[derive(Clone)]
enum Item {
    Group(PrimitiveGroup<'static>),
    El(Element<'static>),
    Val(Value),
}

impl Item {
    fn view(&self) -> Value {
        match self {
            Item::Group(_) => json!({"k":"group"}),
            Item::El(e) => element(e),
            Item::Val(v) => v.clone(),
        }
    }
}

#[derive(Default)]
pub struct Handles {
    blocks: HashMap<String, &'static B>,
    its: HashMap<String, It>,
    items: HashMap<String, Item>,
}

impl Handles {
    pub fn keep(&mut self, name: &str, b: PrimitiveBlock) {
        self.blocks.insert(name.to_string(), Box::leak(Box::new(b)));
    }
}

fn tag((k, v): (&str, &str)) -> Item {
    Item::Val(json!({"k":"tag","t":[bytes(k), bytes(v)]}))
}
fn raw((k, v): (u32, u32)) -> Item {
    Item::Val(json!({"k":"raw","t":[l(k as i64), l(v as i64)]}))
}
fn draw((k, v): (i32, i32)) -> Item {
    Item::Val(json!({"k":"raw","t":[l(k as i64), l(v as i64)]}))
}
fn rf(x: i64) -> Item {
    Item::Val(json!({"k":"ref","t":l(x)}))
}
fn lc(x: WayNodeLocation) -> Item {
    Item::Val(json!({"k":"loc","t":loc(&x)}))
}
fn mb(x: RelMember<'static>) -> Item {
    Item::Val(json!({"k":"mem","t":member(&x)}))
}
fn nd(x: Node<'static>) -> Item {
    Item::El(Element::Node(x))
}
fn dn(x: DenseNode<'static>) -> Item {
    Item::El(Element::DenseNode(x))
}
fn wy(x: Way<'static>) -> Item {
    Item::El(Element::Way(x))
}
fn rl(x: Relation<'static>) -> Item {
    Item::El(Element::Relation(x))
}

macro_rules! with {
    ($it:expr, $i:ident, $f:ident => $e:expr) => {
        match $it {
            It::Groups($i) => { let $f = Item::Group; $e }
            It::Elements($i) => { let $f = Item::El; $e }
            It::Nodes($i) => { let $f = nd; $e }
            It::Dense($i) => { let $f = dn; $e }
            It::Ways($i) => { let $f = wy; $e }
            It::Rels($i) => { let $f = rl; $e }
            It::Tags($i) => { let $f = tag; $e }
            It::DTags($i) => { let $f = tag; $e }
            It::Raw($i) => { let $f = raw; $e }
            It::DRaw($i) => { let $f = draw; $e }
            It::Refs($i) => { let $f = rf; $e }
            It::Locs($i) => { let $f = lc; $e }
            It::Mems($i) => { let $f = mb; $e }
        }
    };
}

macro_rules! exact {
    ($it:expr, $i:ident => $e:expr) => {
        match $it {
            It::Groups($i) => Some($e),
            It::Elements(_) => None,
            It::Nodes($i) => Some($e),
            It::Dense($i) => Some($e),
            It::Ways($i) => Some($e),
            It::Rels($i) => Some($e),
            It::Tags($i) => Some($e),
            It::DTags($i) => Some($e),
            It::Raw($i) => Some($e),
            It::DRaw($i) => Some($e),
            It::Refs($i) => Some($e),
            It::Locs($i) => Some($e),
            It::Mems($i) => Some($e),
        }
    };
}

fn name<'a>(st: &'a Value, k: &str) -> &'a str {
    st[k].as_str().unwrap_or_else(|| panic!("vexec: field {k}"))
}

fn make(hs: &Handles, st: &Value) -> Option<It> {
    let src = name(st, "src");
    let what = name(st, "what");
    if let Some(b) = hs.blocks.get(src) {
        return match what {
            "groups" => Some(It::Groups(b.groups())),
            "elements" => Some(It::Elements(b.elements())),
            _ => None,
        };
    }
    Some(match hs.items.get(src) {
        Some(Item::Group(g)) => match what {
            "nodes" => It::Nodes(g.nodes()),
            "dense" => It::Dense(g.dense_nodes()),
            "ways" => It::Ways(g.ways()),
            "rels" => It::Rels(g.relations()),
            _ => return None,
        },
        Some(Item::El(e)) => match (e, what) {
            (Element::Node(n), "tags") => It::Tags(n.tags()),
            (Element::Node(n), "raw") => It::Raw(n.raw_tags()),
            (Element::DenseNode(n), "tags") => It::DTags(n.tags()),
            (Element::DenseNode(n), "raw") => It::DRaw(n.raw_tags()),
            (Element::Way(n), "tags") => It::Tags(n.tags()),
            (Element::Way(n), "raw") => It::Raw(n.raw_tags()),
            (Element::Way(n), "refs") => It::Refs(n.refs()),
            (Element::Way(n), "locs") => It::Locs(n.node_locations()),
            (Element::Relation(n), "tags") => It::Tags(n.tags()),
            (Element::Relation(n), "raw") => It::Raw(n.raw_tags()),
            (Element::Relation(n), "mems") => It::Mems(n.members()),
            _ => return None,
        },
        _ => return None,
    })
}

fn one(hs: &mut Handles, st: &Value, x: Option<Item>) -> Value {
    match x {
        None => json!({"t":"none"}),
        Some(i) => {
            let v = i.view();
            if let Some(k) = st["keep"].as_str() {
                hs.items.insert(k.to_string(), i);
            }
            json!({"t":"item","v":v})
        }
    }
}

fn gone() -> Value {
    json!({"t":"gone"})
}

pub fn step(hs: &mut Handles, op: &str, st: &Value) -> Option<Value> {
    Some(match op {
        "iter" => {
            let Some(it) = make(hs, st) else {
                return Some(gone());
            };
            hs.its.insert(name(st, "to").to_string(), it);
            json!({"t":"ok"})
        }
        "inext" => {
            let x = {
                let Some(it) = hs.its.get_mut(name(st, "it")) else {
                    return Some(gone());
                };
                with!(it, i, f => i.next().map(f))
            };
            one(hs, st, x)
        }
        "inth" => {
            let n = st["n"].as_u64().unwrap() as usize;
            let x = {
                let Some(it) = hs.its.get_mut(name(st, "it")) else {
                    return Some(gone());
                };
                with!(it, i, f => i.nth(n).map(f))
            };
            one(hs, st, x)
        }
        "ilast" => {
            let Some(it) = hs.its.get(name(st, "it")).cloned() else {
                return Some(gone());
            };
            let x = with!(it, i, f => i.last().map(f));
            one(hs, st, x)
        }
        "icount" => {
            let Some(it) = hs.its.get(name(st, "it")).cloned() else {
                return Some(gone());
            };
            let n = with!(it, i, _f => i.count());
            json!({"t":"n","n":n})
        }
        "ilen" => {
            let Some(it) = hs.its.get(name(st, "it")) else {
                return Some(gone());
            };
            let h = with!(it, i, _f => i.size_hint());
            let n = exact!(it, i => if h.1 == Some(h.0) { i.len() as i64 } else { -2 });
            json!({"t":"len","h":size_hint(h),"n":n.map_or(-1, |x| x.min(1 << 30))})
        }
        "iclone" => {
            let Some(it) = hs.its.get(name(st, "it")).cloned() else {
                return Some(gone());
            };
            hs.its.insert(name(st, "to").to_string(), it);
            json!({"t":"ok"})
        }
        "irest" => {
            // all remaining items of a clone: one by one, by fold or by step_by
            let Some(it) = hs.its.get(name(st, "it")).cloned() else {
                return Some(gone());
            };
            let mut v: Vec<Value> = Vec::new();
            match st["how"].as_str().unwrap_or("next") {
                "fold" => with!(it, i, f => i.map(f).for_each(|x| v.push(x.view()))),
                "loop" => with!(it, i, f => for x in i { v.push(f(x).view()) }),
                _ => with!(it, i, f => {
                    let mut i = i;
                    while let Some(x) = i.next() {
                        v.push(f(x).view());
                    }
                }),
            }
            json!({"t":"items","v":v})
        }
        "iskip" => {
            // advance the handle itself by n calls of next() without looking at the items
            let n = st["n"].as_u64().unwrap();
            let Some(it) = hs.its.get_mut(name(st, "it")) else {
                return Some(gone());
            };
            let mut got = 0;
            with!(it, i, _f => for _ in 0..n {
                if i.next().is_some() {
                    got += 1;
                }
            });
            json!({"t":"n","n":got})
        }
        "bforeach" => {
            let Some(b) = hs.blocks.get(name(st, "b")) else {
                return Some(gone());
            };
            let mut v: Vec<Value> = Vec::new();
            b.for_each_element(|e| v.push(element(&e)));
            json!({"t":"items","v":v})
        }
        "strtab" => {
            let Some(b) = hs.blocks.get(name(st, "b")) else {
                return Some(gone());
            };
            let v: Vec<Value> = b.raw_stringtable().iter().map(|x| json!(x)).collect();
            json!({"t":"strs","v":v})
        }
        "elstrtab" => {
            let v: Vec<Value> = match hs.items.get(name(st, "src")) {
                Some(Item::El(Element::Node(n))) => n.raw_stringtable().iter().map(|x| json!(x)).collect(),
                Some(Item::El(Element::Way(n))) => n.raw_stringtable().iter().map(|x| json!(x)).collect(),
                Some(Item::El(Element::Relation(n))) => n.raw_stringtable().iter().map(|x| json!(x)).collect(),
                _ => return Some(gone()),
            };
            json!({"t":"strs","v":v})
        }
        _ => return None,
    })
}
