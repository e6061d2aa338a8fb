//! Interpreter for programs over the untyped API: chunks, documents, objects,
//! arrays, dictionaries, streams.

use crate::cx::*;
use crate::json::J;
use crate::val::*;
use pdf_writer::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub enum Op {
    New { c: usize, pdf: bool, pretty: bool, cap: i64 },
    Ind { c: usize, id: i32 },
    Strm { c: usize, id: i32, x: Vec<u8> },
    Prim(V),
    Arr,
    Dict,
    Items(Vec<V>),
    Pairs(Vec<V>),
    Push,
    Ins(Vec<u8>),
    Len,
    End,
    Ext { d: usize, s: usize },
    /// Renumber `s` into `d` (or into a new container `d`).
    Ren { d: usize, s: usize, f: RenMap, fresh: bool },
    Mlim { d: usize, s: usize },
    Clone { d: usize, s: usize },
    Reserve { c: usize, n: usize },
    Obs { c: usize },
    /// Two containers side by side.
    Twin { c: usize, d: usize },
    Ver { c: usize, a: u8, b: u8 },
    Mark { c: usize, x: [u8; 4] },
    Fid { c: usize, a: Vec<u8>, b: Vec<u8> },
    Cat { c: usize, id: i32 },
    Info { c: usize, id: i32 },
    Fin { c: usize, mode: u8, xid: i32 },
}

/// A renumbering: explicit pairs, then a default.
#[derive(Debug, Clone)]
pub enum RenMap {
    /// Add a number.
    Plus(i32),
    /// Allocate in order of first use, from a start.
    Alloc(i32),
    /// Explicit, identity otherwise.
    Table(Vec<(i32, i32)>),
}

pub enum Ct {
    Gone,
    Chunk(Chunk),
    Pdf(Pdf),
}

impl Ct {
    fn chunk(&mut self) -> &mut Chunk {
        match self {
            Ct::Chunk(c) => c,
            Ct::Pdf(p) => p,
            Ct::Gone => panic!("harness: container is gone"),
        }
    }
}

impl Op {
    pub fn parse(j: &J) -> Op {
        let c = || j.at("c").num() as usize;
        let d = || j.at("d").num() as usize;
        let s = || j.at("s").num() as usize;
        let id = || j.at("id").num() as i32;
        let vs = || j.at("v").arr().iter().map(V::parse).collect::<Vec<_>>();
        match j.at("e").str() {
            "new" => Op::New {
                c: c(),
                pdf: j.at("kind").str() == "pdf",
                pretty: j.at("pretty").bool(),
                cap: j.get("cap").map_or(-1, |x| x.num()),
            },
            "ind" => Op::Ind { c: c(), id: id() },
            "strm" => Op::Strm { c: c(), id: id(), x: j.at("x").bytes() },
            "prim" => Op::Prim(V::parse(j.at("v"))),
            "arr" => Op::Arr,
            "dict" => Op::Dict,
            "items" => Op::Items(vs()),
            "pairs" => Op::Pairs(vs()),
            "push" => Op::Push,
            "ins" => Op::Ins(j.at("key").bytes()),
            "len" => Op::Len,
            "end" => Op::End,
            "ext" => Op::Ext { d: d(), s: s() },
            "ren" => Op::Ren {
                d: d(),
                s: s(),
                fresh: j.get("fresh").is_some_and(|x| x.bool()),
                f: match (j.get("plus"), j.get("alloc")) {
                    (Some(n), _) => RenMap::Plus(n.num() as i32),
                    (_, Some(n)) => RenMap::Alloc(n.num() as i32),
                    _ => RenMap::Table(j.at("m").arr().iter().map(|p| {
                        (p.arr()[0].num() as i32, p.arr()[1].num() as i32)
                    }).collect()),
                },
            },
            "mlim" => Op::Mlim { d: d(), s: s() },
            "clone" => Op::Clone { d: d(), s: s() },
            "obs" => Op::Obs { c: c() },
            "twin" => Op::Twin { c: c(), d: d() },
            "ver" => Op::Ver { c: c(), a: j.at("a").num() as u8, b: j.at("b").num() as u8 },
            "mark" => Op::Mark { c: c(), x: j.at("x").bytes().try_into().unwrap() },
            "fid" => Op::Fid { c: c(), a: j.at("a").bytes(), b: j.at("b").bytes() },
            "cat" => Op::Cat { c: c(), id: id() },
            "info" => Op::Info { c: c(), id: id() },
            "fin" => Op::Fin {
                c: c(),
                mode: j.at("mode").num() as u8,
                xid: j.at("xid").num() as i32,
            },
            e => panic!("harness: unknown op {e}"),
        }
    }
}

pub struct Run<'a> {
    pub cx: &'a mut Cx,
    pub ops: &'a [Op],
    pub pos: usize,
}

pub fn run(cx: &mut Cx, ops: &[Op]) {
    let mut cts: Vec<Ct> = vec![];
    let mut run = Run { cx, ops, pos: 0 };
    while run.pos < ops.len() {
        run.top(&mut cts);
    }
}

impl Run<'_> {
    fn next(&mut self) -> Op {
        let op = self.ops[self.pos].clone();
        self.pos += 1;
        op
    }

    fn top(&mut self, cts: &mut Vec<Ct>) {
        let op = self.next();
        match op {
            Op::New { c, pdf, pretty, cap } => {
                let set = Settings { pretty };
                let ct = if pdf {
                    Ct::Pdf(match (pretty, cap < 0) {
                        (true, true) => Pdf::new(),
                        (true, false) => Pdf::with_capacity(cap as usize),
                        (false, true) => Pdf::with_settings(set),
                        (false, false) => Pdf::with_settings_and_capacity(set, cap as usize),
                    })
                } else {
                    Ct::Chunk(match (pretty, cap < 0) {
                        (true, true) => Chunk::new(),
                        (true, false) => Chunk::with_capacity(cap as usize),
                        (false, true) => Chunk::with_settings(set),
                        (false, false) => {
                            Chunk::with_settings_and_capacity(set, cap as usize)
                        }
                    })
                };
                if c == cts.len() + 1 {
                    cts.push(ct);
                } else {
                    cts[c - 1] = ct;
                }
                let kind = if pdf { "pdf" } else { "chunk" };
                self.cx.ev(&format!("\"e\":\"new\",\"c\":{c},\"kind\":\"{kind}\",\"pretty\":{pretty}"));
            }
            Op::Ind { c, id } => {
                self.cx.ev(&format!("\"e\":\"ind\",\"c\":{c},\"id\":{id}"));
                let o = cts[c - 1].chunk().indirect(Ref::new(id));
                self.obj(o);
            }
            Op::Strm { c, id, x } => {
                // Long filler is not part of the trace, see `segments`.
                let fill = x.len() > FILL && x.iter().all(|&b| b == x[0]);
                let data = if fill { "[]".into() } else { jb(&x) };
                self.cx.ev(&format!(
                    "\"e\":\"strm\",\"c\":{c},\"id\":{id},\"fill\":{fill},\"x\":{data}"
                ));
                let mut s = cts[c - 1].chunk().stream(Ref::new(id), &x);
                self.dict(&mut s);
                drop(s);
                self.cx.end();
            }
            Op::Cat { c, id } => {
                let Ct::Pdf(p) = &mut cts[c - 1] else { panic!("harness: not a pdf") };
                self.cx.ev(&format!("\"e\":\"cat\",\"c\":{c},\"id\":{id}"));
                let mut w = p.catalog(Ref::new(id));
                self.dict(&mut w);
                drop(w);
                self.cx.end();
            }
            Op::Info { c, id } => {
                let Ct::Pdf(p) = &mut cts[c - 1] else { panic!("harness: not a pdf") };
                self.cx.ev(&format!("\"e\":\"info\",\"c\":{c},\"id\":{id}"));
                let mut w = p.document_info(Ref::new(id));
                self.dict(&mut w);
                drop(w);
                self.cx.end();
            }
            Op::Ext { d, s } => {
                let src = std::mem::replace(&mut cts[s - 1], Ct::Gone);
                let mut src = src;
                cts[d - 1].chunk().extend(src.chunk());
                cts[s - 1] = src;
                self.cx.ev(&format!("\"e\":\"ext\",\"d\":{d},\"s\":{s}"));
            }
            Op::Clone { d, s } => {
                let Ct::Chunk(src) = &cts[s - 1] else { panic!("harness: not a chunk") };
                let ct = Ct::Chunk(src.clone());
                if d == cts.len() + 1 {
                    cts.push(ct);
                } else {
                    cts[d - 1] = ct;
                }
                self.cx.ev(&format!("\"e\":\"clone\",\"d\":{d},\"s\":{s}"));
            }
            Op::Ren { d, s, f, fresh } => {
                let src = std::mem::replace(&mut cts[s - 1], Ct::Gone);
                let mut held = src;
                let target = if fresh { None } else { Some(cts[d - 1].chunk()) };
                let new = renumbering(self.cx, held.chunk(), target, d, s, f);
                if let Some(new) = new {
                    let ct = Ct::Chunk(new);
                    if d == s {
                        held = ct;
                    } else if d == cts.len() + 1 {
                        cts.push(ct);
                    } else {
                        cts[d - 1] = ct;
                    }
                }
                cts[s - 1] = held;
            }
            Op::Mlim { d, s } => {
                let l = cts[s - 1].chunk().limits().clone();
                cts[d - 1].chunk().merge_limits(&l);
                self.cx.ev(&format!("\"e\":\"mlim\",\"d\":{d},\"s\":{s}"));
            }
            Op::Reserve { c, n } => cts[c - 1].chunk().reserve(n),
            Op::Obs { c } => {
                let s = obs(c, cts[c - 1].chunk());
                self.cx.ev(&s);
            }
            Op::Twin { c, d } => {
                let x = obs(c, cts[c - 1].chunk());
                let y = obs(d, cts[d - 1].chunk());
                self.cx.ev(&format!("\"e\":\"twin\",\"x\":{{{x}}},\"y\":{{{y}}}"));
            }
            Op::Ver { c, a, b } => {
                let Ct::Pdf(p) = &mut cts[c - 1] else { panic!("harness: not a pdf") };
                p.set_version(a, b);
                self.cx.ev(&format!("\"e\":\"ver\",\"c\":{c},\"a\":{a},\"b\":{b}"));
            }
            Op::Mark { c, x } => {
                let Ct::Pdf(p) = &mut cts[c - 1] else { panic!("harness: not a pdf") };
                p.set_binary_marker(&x);
                self.cx.ev(&format!("\"e\":\"mark\",\"c\":{c},\"x\":{}", jb(&x)));
            }
            Op::Fid { c, a, b } => {
                let Ct::Pdf(p) = &mut cts[c - 1] else { panic!("harness: not a pdf") };
                p.set_file_id((a.clone(), b.clone()));
                self.cx.ev(&format!("\"e\":\"fid\",\"c\":{c},\"a\":{},\"b\":{}", jb(&a), jb(&b)));
            }
            Op::Fin { c, mode, xid } => {
                let ct = std::mem::replace(&mut cts[c - 1], Ct::Gone);
                let Ct::Pdf(p) = ct else { panic!("harness: not a pdf") };
                let s = finish(c, p, mode, xid);
                self.cx.ev(&s);
            }
            op => panic!("harness: unexpected at top level: {op:?}"),
        }
    }

    pub fn obj(&mut self, o: Obj) {
        match self.next() {
            Op::Prim(x) => {
                self.cx.call = "primitive".into();
                x.put(o);
                self.cx.ev(&format!("\"e\":\"prim\",\"v\":{}", x.json()));
            }
            Op::Arr => {
                self.cx.ev("\"e\":\"arr\"");
                let mut a = o.array();
                self.array(&mut a);
                drop(a);
                self.cx.end();
            }
            Op::Dict => {
                self.cx.ev("\"e\":\"dict\"");
                let mut d = o.dict();
                self.dict(&mut d);
                drop(d);
                self.cx.end();
            }
            op => panic!("harness: unexpected in an object: {op:?}"),
        }
    }

    fn array(&mut self, a: &mut Array) {
        loop {
            match self.next() {
                Op::Items(vs) => {
                    put_items(a, &vs);
                    self.cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&vs)));
                }
                Op::Push => {
                    self.cx.ev("\"e\":\"push\"");
                    let o = a.push();
                    self.obj(o);
                }
                Op::Len => {
                    let (n, e) = (a.len(), a.is_empty());
                    self.cx.ev(&format!("\"e\":\"len\",\"n\":{n},\"z\":{e}"));
                }
                Op::End => return,
                op => panic!("harness: unexpected in an array: {op:?}"),
            }
        }
    }

    fn dict(&mut self, d: &mut Dict) {
        loop {
            match self.next() {
                Op::Pairs(vs) => {
                    for e in &vs {
                        let key = e.b.iter().map(|&b| b as u8).collect::<Vec<_>>();
                        put_pair(d, &key, &e.k[0]);
                    }
                    self.cx.ev(&format!("\"e\":\"pairs\",\"v\":{}", jvs(&vs)));
                }
                Op::Ins(key) => {
                    self.cx.ev(&format!("\"e\":\"ins\",\"key\":{}", jb(&key)));
                    let o = d.insert(Name(&key));
                    self.obj(o);
                }
                Op::Len => {
                    let (n, e) = (d.len(), d.is_empty());
                    self.cx.ev(&format!("\"e\":\"len\",\"n\":{n},\"z\":{e}"));
                }
                Op::End => return,
                op => panic!("harness: unexpected in a dictionary: {op:?}"),
            }
        }
    }
}

/// `item` for single values, `items` for homogeneous runs.
pub fn put_items(a: &mut Array, vs: &[V]) {
    if vs.len() > 1 && vs.iter().all(|x| x.t == "int") {
        a.items(vs.iter().map(|x| x.b[0] as i32));
    } else if vs.len() > 1 && vs.iter().all(|x| x.t == "f32") {
        a.items(vs.iter().map(|x| x.flt()));
    } else if vs.len() > 1 && vs.iter().all(|x| x.t == "ref") {
        a.items(vs.iter().map(|x| Ref::new(x.b[0] as i32)));
    } else if vs.len() > 1 && vs.iter().all(|x| x.t == "name") {
        let ns: Vec<_> = vs.iter().map(|x| x.by()).collect();
        a.items(ns.iter().map(|x| Name(x)));
    } else if vs.len() > 1 && vs.iter().all(|x| x.t == "bool") {
        a.items(vs.iter().map(|x| x.b[0] == 1));
    } else {
        for x in vs {
            match x.t.as_str() {
                // By reference, for the blanket implementation.
                "int" if x.b[0] % 2 == 0 => {
                    a.item(&(x.b[0] as i32));
                }
                "int" => {
                    a.item(x.b[0] as i32);
                }
                "str" => {
                    a.item(Str(&x.by()));
                }
                _ => x.put(a.push()),
            }
        }
    }
}

pub fn put_pair(d: &mut Dict, key: &[u8], x: &V) {
    match x.t.as_str() {
        "int" => {
            d.pair(Name(key), x.b[0] as i32);
        }
        "name" => {
            d.pair(Name(key), &Name(&x.by()));
        }
        "bool" => {
            d.pairs([(Name(key), x.b[0] == 1)]);
        }
        _ => x.put(d.insert(Name(key))),
    }
}

pub fn limits(l: &Limits) -> String {
    let mut o = String::new();
    write!(o, "{{\"int\":{},\"real\":", l.int()).unwrap();
    nums(&mut o, &f32t(l.real()));
    write!(
        o,
        ",\"name\":{},\"str\":{},\"arr\":{},\"dict\":{}}}",
        l.name_len(), l.str_len(), l.array_len(), l.dict_entries()
    ).unwrap();
    o
}

/// Renumber `src`, the container `s`, into `target`, the container `d`, or
/// else into a new chunk.
pub fn renumbering(
    cx: &mut Cx, src: &Chunk, target: Option<&mut Chunk>, d: usize, s: usize, f: RenMap,
) -> Option<Chunk> {
    let mut calls: BTreeMap<i32, i32> = BTreeMap::new();
    let mut next = if let RenMap::Alloc(n) = f { n } else { 0 };
    let mapping = |r: Ref| {
        let old = r.get();
        let new = match &f {
            RenMap::Plus(n) => old + n,
            RenMap::Alloc(_) => match calls.get(&old) {
                Some(&n) => n,
                None => {
                    next += 1;
                    next - 1
                }
            },
            RenMap::Table(t) => t.iter().find(|p| p.0 == old).map_or(old, |p| p.1),
        };
        calls.insert(old, new);
        Ref::new(new)
    };
    let fresh = target.is_none();
    let new = match target {
        None => Some(src.renumber(mapping)),
        Some(target) => {
            src.renumber_into(target, mapping);
            None
        }
    };
    let mut m = String::from("[");
    for (n, (a, b)) in calls.iter().enumerate() {
        if n > 0 {
            m.push(',');
        }
        write!(m, "[{a},{b}]").unwrap();
    }
    m.push(']');
    cx.ev(&format!("\"e\":\"ren\",\"d\":{d},\"s\":{s},\"fresh\":{fresh},\"m\":{m}"));
    new
}

pub fn obs(c: usize, ch: &Chunk) -> String {
    let refs: Vec<i64> = ch.refs().map(|r| r.get() as i64).collect();
    let mut s = format!("\"e\":\"obs\",\"c\":{c},\"x\":");
    byts(&mut s, ch.as_bytes());
    s.push_str(",\"refs\":");
    nums(&mut s, &refs);
    write!(s, ",\"n\":{},\"nrefs\":{},\"lim\":{}", ch.len(), ch.refs().len(), limits(ch.limits()))
        .unwrap();
    s
}

/// Runs of a byte longer than this are left out of observations.
const FILL: usize = 4000;

/// Everything but long runs of equal bytes.
pub fn segments(x: &[u8]) -> String {
    let mut segs: Vec<(usize, usize)> = vec![];
    let mut start = 0;
    let mut p = 0;
    if x.len() > FILL {
        while p < x.len() {
            let mut q = p + 1;
            while q < x.len() && x[q] == x[p] {
                q += 1;
            }
            if q - p > FILL {
                if start < p {
                    segs.push((start, p));
                }
                start = q;
            }
            p = q;
        }
    }
    if start < x.len() {
        segs.push((start, x.len()));
    }
    let mut s = String::from("[");
    for (n, (a, b)) in segs.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        write!(s, "{{\"o\":{a},\"x\":").unwrap();
        byts(&mut s, &x[*a..*b]);
        s.push('}');
    }
    s.push(']');
    s
}

/// The filters given for each mode.
pub fn xfilter(mode: u8) -> (Vec<Filter>, bool) {
    match mode {
        2 => (vec![Filter::AsciiHexDecode], false),
        3 => (vec![Filter::AsciiHexDecode], true),
        4 => (vec![Filter::AsciiHexDecode, Filter::AsciiHexDecode], true),
        5 => (vec![Filter::AsciiHexDecode, Filter::RunLengthDecode], true),
        6 => (vec![], true),
        _ => (vec![], false),
    }
}

fn hex(x: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = x.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect();
    o.push(b'>');
    o
}

fn runlength(x: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in x.chunks(128) {
        o.push(c.len() as u8 - 1);
        o.extend(c);
    }
    o.push(128);
    o
}

/// mode 0: table; 1: cross-reference stream; 2..: with filters
fn finish(c: usize, p: Pdf, mode: u8, xid: i32) -> String {
    let mut seen: Vec<Vec<u8>> = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| match mode {
        0 => p.finish(),
        1 => p.finish_with_xref_stream(Ref::new(xid)),
        _ => p.finish_with_xref_stream_and_filter(Ref::new(xid), |raw| {
            seen.push(raw.to_vec());
            let (fs, multiple) = xfilter(mode);
            let mut x = raw.to_vec();
            for f in fs.iter().rev() {
                x = match f {
                    Filter::AsciiHexDecode => hex(&x),
                    _ => runlength(&x),
                };
            }
            let f = if multiple { XRefFilter::Multiple(fs) } else { XRefFilter::Single(fs[0]) };
            (x, f)
        }),
    }));
    let mut s = format!("\"e\":\"fin\",\"c\":{c},\"mode\":{mode},\"xid\":{xid},\"raw\":");
    s.push('[');
    for (n, x) in seen.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        byts(&mut s, x);
    }
    s.push(']');
    match r {
        Ok(x) => {
            write!(s, ",\"ok\":true,\"n\":{},\"segs\":{}", x.len(), segments(&x)).unwrap()
        }
        Err(e) => {
            write!(s, ",\"ok\":false,\"n\":0,\"segs\":[],\"msg\":{}", jstr(&msg(e))).unwrap()
        }
    }
    s
}
