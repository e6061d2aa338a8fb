//! Families of programs.  A property's check runs the families that exercise
//! what it is about, and nothing else.

use crate::core::{self, Op};
use crate::cx::*;
use crate::core::RenMap;
use crate::gen::*;
use crate::val::*;
use crate::json::J;
use crate::api::KNOWN_PARTS;
use crate::api::Root;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Trace {
    pub line: String,
    pub events: usize,
    pub hits: std::collections::BTreeMap<String, u64>,
}

/// Run a program and record it.  A panic that the program did not expect is
/// the last event.
fn record(id: String, seed: u64, f: impl FnOnce(&mut Cx)) -> Trace {
    let mut cx = Cx::new(seed);
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(&mut cx))) {
        let m = msg(e);
        if m.starts_with("harness:") {
            panic!("{m} ({id})");
        }
        let s = format!("\"e\":\"panic\",\"call\":{},\"msg\":{}", jstr(&cx.call), jstr(&m));
        cx.ev(&s);
    }
    Trace {
        line: format!("{{\"id\":\"{id}\",\"ev\":[{}]}}", cx.log),
        events: cx.n,
        hits: cx.hits,
    }
}

pub fn scripted(fam: &str, n: usize, j: &J) -> Trace {
    if j.arr()[0].at("kind").str() == "content" {
        return record(format!("{fam}/program/{n}"), 1, |cx| {
            let x = crate::w_content::script(cx, j);
            cx.ev(&format!("\"e\":\"cfin\",{x}"));
        });
    }
    let ops: Vec<Op> = j.arr().iter().map(Op::parse).collect();
    record(format!("{fam}/program/{n}"), 1, |cx| core::run(cx, &ops))
}

pub fn random(fam: &str, seed: u64, n: usize) -> Vec<Trace> {
    let s = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64)
        .wrapping_mul(31).wrapping_add(fam.bytes().fold(7u64, |a, b| a.wrapping_mul(131) + b as u64))).next();
    let id = format!("{fam}/{seed}/{n}");
    let mut r = Rng::new(s);
    let ops = |ops: Vec<Op>| vec![record(id.clone(), s, |cx| core::run(cx, &ops))];
    match fam {
        "objects" => ops(objects(&mut r)),
        "strings" => ops(strings(&mut r, n)),
        "texts" => ops(texts(&mut r, n)),
        "numbers" => ops(numbers(&mut r, n)),
        "dates" => ops(dates(&mut r, n)),
        "streams" => ops(streams(&mut r)),
        "limits" => ops(limits(&mut r)),
        "large-strings" => ops(large_strings(&mut r, n)),
        "parens" => ops(parens(&mut r, n)),
        "large-streams" => ops(large_streams(&mut r, n)),
        "large-objects" => ops(large_objects(&mut r, n)),
        "docs" => ops(docs(&mut r, n, true, false)),
        "docs-table" => ops(docs(&mut r, n, true, true)),
        "docs-stream" => ops(docs(&mut r, n, false, true)),
        "trailers" => ops(trailers(&mut r)),
        "dups" => ops(dups(&mut r)),
        "sparse" => ops(sparse(&mut r, n)),
        "huge-dups" => ops(huge_dups(&mut r, n)),
        "giant-strings" => ops(giant_strings(&mut r, n)),
        "doubling" => ops(doubling(&mut r, n, false)),
        "large-renumber" => ops(large_renumber(&mut r, n)),
        "doubling-renumber" => ops(doubling(&mut r, n, true)),
        "huge" => ops(huge(&mut r, n, true)),
        "huge-stream" => ops(huge(&mut r, n, false)),
        "big" => ops(big(&mut r, n)),
        "assembly" => ops(assembly(&mut r)),
        "histories" => ops(histories(&mut r)),
        "renumbered-docs" => ops(renumbered_docs(&mut r)),
        "renumber" => ops(renumber(&mut r)),
        "twins" => ops(twins(&mut r, true, n)),
        "same" => ops(twins(&mut r, false, n)),
        "content" | "marks" | "state" => vec![record(id.clone(), s, |cx| content(cx, fam, n, s, None))],
        "content-pairs" => vec![record(id.clone(), s, |cx| {
            let x = crate::w_content::pairs(cx, n);
            cx.ev(&format!("\"e\":\"cfin\",{x}"));
        })],
        "content-known" => vec![record(id.clone(), s, |cx| {
            let x = crate::w_content::with_known(cx, n);
            cx.ev(&format!("\"e\":\"cfin\",{x}"));
        })],
        "content-context" => vec![record(id.clone(), s, |cx| {
            let x = crate::w_content::context(cx, n);
            cx.ev(&format!("\"e\":\"cfin\",{x}"));
        })],
        "content-twins" => vec![record(id.clone(), s, |cx| content(cx, "content", n, s, Some(true)))],
        "content-same" => vec![record(id.clone(), s, |cx| content(cx, "content", n, s, Some(false)))],
        "cmaps" => vec![record(id.clone(), s, |cx| crate::w_misc::cmap(cx, n % 8 == 0))],
        "calculator" => vec![record(id.clone(), s, |cx| crate::w_misc::postscript(cx, n))],
        "roles" => vec![record(id.clone(), s, |cx| crate::w_misc::roles(cx, n))],
        "headings" => vec![record(id.clone(), s, |cx| crate::w_misc::headings(cx, n))],
        "functions" => vec![record(id.clone(), s, crate::w_misc::functions)],
        "api-twins" => vec![record(id.clone(), s, |cx| typed(cx, "all", n, s, Some(true)))],
        "api-same" => vec![record(id.clone(), s, |cx| typed(cx, "all", n, s, Some(false)))],
        _ if fam.starts_with("api-") => vec![record(id.clone(), s, |cx| typed(cx, &fam[4..], n, s, None))],
        _ => panic!("harness: unknown family {fam}"),
    }
}

type Pair = (usize, usize);
type Table = (Vec<Root>, Vec<Pair>);

/// The documents as a whole, and logical structure.
const DOCUMENT: &[&str] = &[
    "Chunk.destination", "Chunk.destinations", "Catalog", "DeveloperExtension", "ViewerPreferences",
    "MarkInfo", "PageLabel", "DocumentInfo", "Chunk.pages", "Chunk.page", "Chunk.outline",
    "Chunk.outline_item", "Names", "Chunk.metadata", "OutputIntent", "SeparationInfo",
];
const TREES: &[&str] = &[
    "Chunk.name_tree", "Chunk.number_tree", "NameTree", "NumberTree", "NameTreeEntries",
    "NumberTreeEntries", "Names", "PageLabel", "Chunk.destinations",
];
const COLOR: &[&str] = &[
    "Chunk.color_space", "Separation", "DeviceN", "DeviceNAttrs", "DeviceNProcess",
    "DeviceNMixingHints", "Chunk.icc_profile",
];

fn roots(group: &str) -> Vec<Root> {
    use crate::*;
    let all = [
        w_structure::ROOTS, w_attributes::ROOTS, w_object::ROOTS, w_fonts::ROOTS, w_forms::ROOTS,
        w_interactive::ROOTS, w_graphics::ROOTS,
    ];
    let of = |names: &[&str]| -> Vec<Root> {
        let x: Vec<Root> = all.concat().into_iter().filter(|r| names.contains(&r.0)).collect();
        assert!(names.iter().all(|n| x.iter().any(|r| r.0 == *n)), "harness: no such root in {group}");
        x
    };
    match group {
        "structure" => all[0].to_vec(),
        "attributes" => all[1].to_vec(),
        "object" => all[2].to_vec(),
        "fonts" => all[3].to_vec(),
        "forms" => all[4].to_vec(),
        "interactive" => all[5].to_vec(),
        "graphics" => [all[6], all[2]].concat().to_vec(),
        "all" => all.concat(),
        "document" => of(DOCUMENT),
        "logical" => [all[0], all[1]].concat().into_iter().filter(|r| !DOCUMENT.contains(&r.0)).collect(),
        "trees" => of(TREES),
        "color" => of(COLOR),
        "marks" => of(&["PropertyList", "Artifact", "Resources"]),
        _ => panic!("harness: unknown group {group}"),
    }
}

pub fn size(area: &str) -> usize {
    table(area).1.len()
}

/// The methods under test: all of the group, or those with arguments from
/// enumerations (`+enums`), all with special values (`+values`), or those that may be refused (`+tries`).
fn table(area: &str) -> &'static Table {
    static TABLES: OnceLock<Mutex<HashMap<String, &'static Table>>> = OnceLock::new();
    let mut tables = TABLES.get_or_init(Default::default).lock().unwrap();
    if let Some(t) = tables.get(area) {
        return t;
    }
    let (group, only) = area.split_once('+').unwrap_or((area, ""));
    let roots = roots(group);
    let mut pairs = crate::api::pairs_of(&roots);
    if !only.is_empty() && !["values", "pairs", "many", "walk"].contains(&only) {
        pairs.retain(|&p| {
            let mut cx = Cx::new(5);
            cx.alone = true;
            cx.known = (only == "known").then_some(0);
            let _ = catch_unwind(AssertUnwindSafe(|| crate::api::program(&mut cx, &roots, &[p], 0, false)));
            match only {
                "enums" | "context" => cx.swept > 1,
                "tries" => cx.tried,
                "known" => cx.r.knew,
                _ => panic!("harness: unknown selection {only}"),
            }
        });
    }
    let t: &'static Table = Box::leak(Box::new((roots, pairs)));
    tables.insert(area.into(), t);
    t
}

/// Typed writers of one area: the n-th method, each in turn.
fn typed(cx: &mut Cx, area: &str, n: usize, seed: u64, twin: Option<bool>) {
    let (area, ren) = match area.strip_suffix("+renumber") {
        Some(a) => (a, true),
        None => (area, false),
    };
    let t = table(area);
    let pretty = cx.r.p(40);
    let run = |cx: &mut Cx, pretty| {
        cx.values = area.ends_with("+values");
        let known = area.ends_with("+known");
        cx.known = known.then_some(n / t.1.len() % KNOWN_PARTS);
        cx.pairs = area.ends_with("+pairs");
        cx.context = area.ends_with("+context");
        if area.ends_with("+many") {
            cx.many = Some([129, 33, 260][n / t.1.len() % 3]);
        }
        cx.walk = area.ends_with("+walk");
        cx.alone = cx.walk || cx.many.is_some() || cx.values || cx.pairs || cx.context || known || area.contains('+') && n % 2 == 0;
        crate::api::program(cx, &t.0, &t.1, n, pretty)
    };
    let ch = run(cx, pretty);
    let x = crate::api::seen(1, &ch);
    if ren {
        let from = *cx.r.of(&[1, 500, 99_999]);
        let new = core::renumbering(cx, &ch, None, 2, 1, RenMap::Alloc(from)).unwrap();
        let mut both = pdf_writer::Chunk::with_settings(pdf_writer::Settings { pretty: !pretty });
        cx.ev(&format!("\"e\":\"new\",\"c\":3,\"kind\":\"chunk\",\"pretty\":{}", !pretty));
        core::renumbering(cx, &new, Some(&mut both), 3, 2, RenMap::Plus(9));
        both.extend(&ch);
        cx.ev("\"e\":\"ext\",\"d\":3,\"s\":1");
        cx.ev(&core::obs(2, &new));
        cx.ev(&core::obs(3, &both));
        return;
    }
    match twin {
        None => cx.ev(&format!("\"e\":\"obs\",{x}")),
        Some(styles) => {
            let mut other = Cx::new(seed);
            other.r.p(40);
            let y = crate::api::seen(1, &run(&mut other, pretty ^ styles));
            cx.ev(&format!("\"e\":\"twin\",\"x\":{{{x}}},\"y\":{{{y}}}"));
        }
    }
}

/// Content streams: the n-th method, each in turn.
fn content(cx: &mut Cx, kind: &str, n: usize, seed: u64, twin: Option<bool>) {
    let pretty = cx.r.p(40);
    let cap = *cx.r.of(&[0, 0, 1, 2, 17, 5000]);
    let x = crate::w_content::program(cx, kind, n, pretty, cap);
    match twin {
        None if x.is_empty() => {}
        None => cx.ev(&format!("\"e\":\"cfin\",{x}")),
        Some(styles) => {
            let mut other = Cx::new(seed);
            other.r.p(40);
            other.r.n(6);
            let y = crate::w_content::program(&mut other, kind, n, pretty ^ styles, (cap * 7 + 3) % 90);
            cx.ev(&format!("\"e\":\"ctwin\",\"x\":{{{x}}},\"y\":{{{y}}}"));
        }
    }
}

/// Nested objects in one chunk.
fn objects(r: &mut Rng) -> Vec<Op> {
    if r.p(10) {
        alike(r);
    }
    let mut out = vec![new(1, false, r.p(40), r)];
    let mut m = MIX;
    m.deep = *r.of(&[20, 50, 75]);
    let depth = *r.of(&[1, 2, 3, 5]);
    for _ in 0..1 + r.n(5) {
        let id = 1 + r.n(20) as i32;
        gindirect(r, &m, 1, id, depth, 15, &mut out);
    }
    if r.p(5) {
        out.push(Op::Ind { c: 1, id: 98 });
        gdeep(r, &m, &mut out);
    }
    if r.p(2) {
        // Very deep nesting: the indentation has to stay within bounds.
        let n = *r.of(&[60, 130, 200]);
        out.push(Op::Ind { c: 1, id: 99 });
        for _ in 0..n {
            if r.p(80) {
                out.push(Op::Dict);
                out.push(Op::Ins(b"A".to_vec()));
            } else {
                out.push(Op::Arr);
                out.push(Op::Push);
            }
        }
        out.push(Op::Prim(null()));
        for _ in 0..n {
            out.push(Op::End);
        }
    }
    out.push(Op::Obs { c: 1 });
    out
}

/// Values in arrays, as dictionary values and on their own.
fn values(r: &mut Rng, pretty: bool, vs: Vec<V>) -> Vec<Op> {
    let mut out = vec![new(1, false, pretty, r)];
    let mut id = 1;
    let mut rest = &vs[..];
    while !rest.is_empty() {
        let n = (1 + r.n(12)).min(rest.len());
        let (a, b) = rest.split_at(n);
        rest = b;
        out.push(Op::Ind { c: 1, id });
        id += 1;
        match r.n(3) {
            0 if n == 1 => out.push(Op::Prim(a[0].clone())),
            1 => {
                out.push(Op::Arr);
                out.push(Op::Items(a.to_vec()));
                out.push(Op::End);
            }
            _ => {
                out.push(Op::Dict);
                let es = a.iter().map(|x| {
                    let k = if x.t == "name" && r.p(70) { x.by() } else { gkey(r, 6) };
                    ent(&k, x.clone())
                }).collect();
                out.push(Op::Pairs(es));
                out.push(Op::End);
            }
        }
    }
    out.push(Op::Obs { c: 1 });
    out
}

/// Byte strings and names: all bytes, all pairs of special bytes, random ones.
fn strings(r: &mut Rng, n: usize) -> Vec<Op> {
    const SP: &[u8] = b"()\\\n\r\t\x08\x0c07a#/%<>[]{} \0\x7f\x80\xff~!";
    let both = |x: &[u8]| [st(x), name(x)];
    let k = n / 2;
    let vs: Vec<V> = if k < 16 {
        // All single bytes.
        (0..16).flat_map(|j| both(&[(k * 16 + j) as u8])).collect()
    } else if k < 16 + SP.len() {
        SP.iter().flat_map(|&b| both(&[SP[k - 16], b])).collect()
    } else if r.p(30) {
        // All triples and quadruples of a few bytes are likely to come up.
        let al = *r.of(&[&b"()"[..], b"()\\", b"\\0a(", b"\r\n)", b"#2A", b"<>"]);
        (0..30).flat_map(|_| {
            let x: Vec<u8> = (0..r.n(8)).map(|_| *r.of(al)).collect();
            both(&x)
        }).collect()
    } else {
        (0..20).flat_map(|_| {
            let len = *r.of(&[3, 10, 40]);
            [st(&gbytes(r, len)), name(&gname(r, len))]
        }).collect()
    };
    values(r, n % 2 == 0, vs)
}

/// Text strings with and without languages.
fn texts(r: &mut Rng, n: usize) -> Vec<Op> {
    let vs: Vec<V> = if n < 48 {
        // All of Latin-1 and more, one character at a time.
        (0..16u32).filter_map(|j| char::from_u32(n as u32 * 16 + j))
            .filter(|&c| c != '\u{1b}').map(|c| text(&c.to_string())).collect()
    } else {
        (0..16).map(|_| if r.p(70) { text(&gtext(r, 12)) } else { glang(r, 6).v() }).collect()
    };
    values(r, n % 2 == 0, vs)
}

fn numbers(r: &mut Rng, n: usize) -> Vec<Op> {
    let vs: Vec<V> = match n {
        // Every binade, with fractions at its ends.
        0..=254 => [0, 1, 0x400000, 0x7fffff, r.n(0x800000) as u32].iter().flat_map(|&m| {
            let u = ((n as u32) << 23) | m;
            [f(f32::from_bits(u)), f(f32::from_bits(u | 1 << 31))]
        }).collect(),
        // Around powers of ten and of two.
        255..=330 => {
            let e = n as i32 - 300;
            let x = 10f32.powi(e);
            (-3..=3).map(|d| f32::from_bits((x.to_bits() as i32 + d).max(0) as u32))
                .filter(|x| x.is_finite()).map(f).collect()
        }
        331..=362 => {
            let p = 1i64 << (n - 331);
            (-2..=2).flat_map(|d| [p + d, -p + d])
                .filter_map(|x| i32::try_from(x).ok()).flat_map(|x| [i(x), f(x as f32)]).collect()
        }
        _ => (0..16).flat_map(|_| [i(gint(r)), f(gfloat(r))]).collect(),
    };
    values(r, n % 3 != 0, vs)
}

fn dates(r: &mut Rng, n: usize) -> Vec<Op> {
    let vs: Vec<V> = match n {
        // Every combination of set and unset fields.
        0..=127 => (0..6).map(|_| {
            let mut d = gdate(r);
            for (j, x) in d.0.iter_mut().enumerate().skip(1) {
                if n >> (j - 1) & 1 == 0 {
                    *x = NONE;
                } else if *x == NONE {
                    *x = r.r(0, 99);
                }
            }
            d.v()
        }).collect(),
        // Every hour offset.
        128..=159 => (0..8).map(|j| {
            let mut d = [2020, 2, 3, 4, 5, 6, (n as i64 - 128) * 8 + j - 128, *r.of(&[0, 0, 1, 30, 59, 99])];
            if r.p(20) {
                d[7] = NONE;
            }
            DateSpec(d).v()
        }).collect(),
        _ => (0..8).map(|_| gdate(r).v()).collect(),
    };
    values(r, n % 2 == 0, vs)
}

fn streams(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![new(1, false, r.p(50), r)];
    for id in 1..=1 + r.n(4) as i32 {
        let mut m = MIX;
        m.deep = 20;
        let x = match r.n(8) {
            0 => (0..*r.of(&[9, 10, 99, 100, 101, 255, 256, 999, 1000, 1001])).map(|_| r.next() as u8).collect(),
            1 => vec![*r.of(b"\n\r \0>"); r.n(20)],
            _ => gdata(r, 60),
        };
        out.push(Op::Strm { c: 1, id, x });
        gdict(r, &m, 2, &mut out);
        if r.p(30) {
            gindirect(r, &MIX, 1, id + 10, 1, 0, &mut out);
        }
    }
    out.push(Op::Obs { c: 1 });
    out
}

/// Long strings, names and texts.
fn large_strings(r: &mut Rng, n: usize) -> Vec<Op> {
    const L: &[usize] = &[126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1024, 1200];
    let len = L[n % L.len()];
    let mut fill = |al: &[u8]| -> Vec<u8> { (0..len).map(|_| *r.of(al)).collect() };
    let v = match n / L.len() % 6 {
        0 => st(&fill(b"abc")),
        1 => st(&fill(b"a()\\\n\r\x01")),
        2 => st(&fill(b"a\xffR")),
        3 => name(&fill(b"ab# \x80")[..len.min(1025)]),
        4 => text(&String::from_utf8(fill(b"ab( \\")).unwrap()),
        _ => text(&fill(b"ab").iter().map(|&b| if b == b'a' { '\u{1F600}' } else { '\u{416}' }).collect::<String>()),
    };
    let p = n % 2 == 0;
    values(r, p, vec![i(1), v, rf(pdf_writer::Ref::new(2))])
}

/// Runs of parentheses, more or less balanced.
fn parens(r: &mut Rng, n: usize) -> Vec<Op> {
    const L: &[usize] = &[1, 2, 15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513];
    let open = L[n % L.len()];
    let close = match n / L.len() % 6 {
        0 => open,
        1 => open.saturating_sub(1),
        2 => open + 1,
        3 => open % 256,
        4 => open % 128,
        _ => 0,
    };
    let mut x = vec![b'('; open];
    if r.p(30) {
        x.insert(r.n(open), b'a');
    }
    x.extend(vec![b')'; close]);
    if r.p(30) {
        x.extend_from_slice(r.of(&[b"()" as &[u8], b")(", b")", b"(", b"a"]));
    }
    values(r, n % 2 == 0, vec![i(1), st(&x), rf(pdf_writer::Ref::new(2))])
}

/// Strings around the limits of sixteen bits.
fn giant_strings(r: &mut Rng, n: usize) -> Vec<Op> {
    const L: &[usize] = &[32768, 65535, 65536, 65537, 70000, 32767];
    let len = L[n / 6 % L.len()];
    let x = vec![b'a'; len];
    let v = match n % 6 {
        0 => { let mut x = x; x.extend_from_slice(r.of(&[b"(" as &[u8], b"()", b"\\", b"z"])); st(&x) }
        1 => { let mut x = x; x.push(0xff); st(&x) }
        2 => name(&x),
        3 => text(&String::from_utf8(x).unwrap()),
        4 => text(&"\u{416}".repeat(len / 2)),
        _ => { let mut x = vec![b'('; 300]; x.resize(len, b'b'); x.extend(vec![b')'; 300]); st(&x) }
    };
    values(r, n % 4 < 2, vec![i(1), v, rf(pdf_writer::Ref::new(2))])
}

/// Streams with much data.
fn large_streams(r: &mut Rng, n: usize) -> Vec<Op> {
    const L: &[usize] = &[4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000];
    let mut out = vec![new(1, false, n % 2 == 0, r)];
    let k = r.next() as u8;
    out.push(Op::Strm { c: 1, id: 1, x: (0..L[n % L.len()]).map(|i| if i % 97 == 0 { k } else { 65 }).collect() });
    out.push(Op::End);
    gindirect(r, &MIX, 1, 2, 1, 0, &mut out);
    out.push(Op::Obs { c: 1 });
    out
}

/// Many items, entries or levels.
fn large_objects(r: &mut Rng, n: usize) -> Vec<Op> {
    const L: &[usize] = &[64, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000];
    let len = L[n % L.len()];
    let mut out = vec![new(1, false, n % 2 == 0, r)];
    out.push(Op::Ind { c: 1, id: 5 });
    match n / L.len() % 4 {
        0 => {
            out.push(Op::Arr);
            out.push(Op::Items((0..len).map(|k| i(k as i32 % 10)).collect()));
            out.push(Op::Push);
            out.push(Op::Prim(name(b"")));
            out.push(Op::Len);
            out.push(Op::End);
        }
        1 => {
            out.push(Op::Dict);
            out.push(Op::Pairs((0..len).map(|k| ent(format!("K{k}").as_bytes(), i(k as i32))).collect()));
            out.push(Op::Len);
            out.push(Op::End);
        }
        k => {
            let mixed = r.p(50);
            for _ in 0..len.min(300) {
                if if mixed { r.p(50) } else { k == 2 } {
                    out.push(Op::Arr);
                    out.push(Op::Push);
                } else {
                    out.push(Op::Dict);
                    out.push(Op::Ins(b"A".to_vec()));
                }
            }
            out.push(Op::Prim(i(7)));
            for _ in 0..len.min(300) {
                if r.p(10) {
                    out.push(Op::Len);
                }
                out.push(Op::End);
            }
        }
    }
    gindirect(r, &MIX, 1, 2, 1, 0, &mut out);
    out.push(Op::Obs { c: 1 });
    out
}

/// Containers whose limits are looked at again and again.
fn limits(r: &mut Rng) -> Vec<Op> {
    let n = 1 + r.n(3);
    let mut out = vec![];
    for c in 1..=n {
        out.push(new(c, false, r.p(50), r));
    }
    let mut m = MIX;
    if n > 1 && r.p(30) {
        // Limits from elsewhere, in a chunk without objects or with few.
        let m = Mix { len: 40, ..MIX };
        for _ in 0..1 + r.n(3) {
            gindirect(r, &m, 1, 1, 2, 20, &mut out);
        }
        out.push(Op::Mlim { d: 2, s: 1 });
        if r.p(50) {
            gindirect(r, &MIX, n, 3, 1, 0, &mut out);
        }
        out.push(match r.n(3) {
            0 => Op::Ext { d: 2, s: if n > 2 { 3 } else { 1 } },
            1 => Op::Ren { d: 2, s: if n > 2 { 3 } else { 1 }, f: RenMap::Plus(1), fresh: false },
            _ => Op::Clone { d: 1, s: 2 },
        });
        out.push(Op::Obs { c: 1 });
        out.push(Op::Obs { c: 2 });
    }
    m.len = *r.of(&[2, 10, 30]);
    m.deep = *r.of(&[10, 50]);
    match r.n(6) {
        0 => { m.nums = 0; m.dates = 0; m.rects = 0; }
        1 => { m.strs = 0; m.texts = 0; }
        2 => { m.names = 0; }
        3 => { m.strs = 0; m.texts = 3; m.dates = 2; m.nums = 0; }
        _ => {}
    }
    m.maxid = *r.of(&[2, 9, 100000]);
    for _ in 0..1 + r.n(6) {
        let c = 1 + r.n(n);
        match r.n(8) {
            0 => {
                let d = 1 + r.n(n);
                out.push(Op::Mlim { d, s: c });
                out.push(Op::Obs { c: d });
            }
            1 if n > 1 => {
                let d = 1 + (c % n);
                out.push(Op::Ext { d, s: c });
                out.push(Op::Obs { c: d });
            }
            2 if n > 1 => {
                let d = 1 + (c % n);
                let f = RenMap::Plus(*r.of(&[0, 1, 3]));
                out.push(Op::Ren { d, s: c, f, fresh: r.p(30) });
                out.push(Op::Obs { c: d });
            }
            _ => {
                gindirect(r, &m, c, 1 + c as i32, 2, 10, &mut out);
                out.push(Op::Obs { c });
            }
        }
    }
    out
}

/// Object numbers of a document, in the order of writing.
fn numbering(r: &mut Rng, n: usize) -> Vec<i32> {
    let mut ids: Vec<i32> = match r.n(7) {
        0 => (1..=n as i32).collect(),
        1 => { let s = r.r(1, 12) as i32; (0..n as i32).map(|j| s + j).collect() }
        2 => { let mut x = 0; (0..n).map(|_| { x += 1 + r.n(3) as i32; x }).collect() }
        3 => { let mut x = 0; (0..n).map(|_| { x += *r.of(&[1, 1, 1, 2, 5, 40]); x }).collect() }
        4 => {
            // Two blocks with a gap.
            let g = r.r(1, 30) as i32;
            let k = r.n(n + 1) as i32;
            (1..=n as i32).map(|j| if j <= k { j } else { j + g }).collect()
        }
        5 => (0..n as i32).map(|j| 2 * j + 2).collect(),
        _ => { let mut x = r.r(0, 300) as i32; (0..n).map(|_| { x += 1 + r.n(60) as i32; x }).collect() }
    };
    match r.n(4) {
        0 => ids.reverse(),
        1 => r.shuffle(&mut ids),
        2 if n > 1 => { let j = r.n(n - 1); ids.swap(j, j + 1); }
        _ => {}
    }
    ids
}

/// Finishing mode and the number of the cross-reference stream.
fn finishing(r: &mut Rng, ids: &[i32], tables: bool, only: bool) -> Op {
    let mode = match (tables, only) {
        (true, true) => 0,
        (true, false) => r.n(7) as u8,
        _ => 1 + r.n(6) as u8,
    };
    let max = ids.iter().copied().max().unwrap_or(0);
    let xid = if mode == 0 { 0 } else {
        match r.n(4) {
            0 => max + 1,
            1 => max + 1 + r.n(400) as i32,
            // A gap, if there is one.
            2 => (1..).find(|j| !ids.contains(j)).unwrap(),
            _ => (1..).filter(|j| !ids.contains(j)).nth(r.n(6)).unwrap(),
        }
    };
    Op::Fin { c: 1, mode, xid }
}

/// Whole documents without repeated numbers, partly assembled from chunks.
fn docs(r: &mut Rng, n: usize, tables: bool, only: bool) -> Vec<Op> {
    let mut out = vec![new(1, true, r.p(60), r)];
    let count = if n < 4 { n } else { *r.of(&[0, 1, 2, 3, 4, 6, 9, 14]) };
    let ids = numbering(r, count);
    let m = Mix { deep: 20, ..MIX };
    let mut j = 0;
    while j < ids.len() {
        if r.p(30) {
            // A few objects by way of a chunk, or of two.
            let k = (1 + r.n(3)).min(ids.len() - j);
            out.push(new(2, false, r.p(60), r));
            for &id in &ids[j..j + k] {
                gindirect(r, &m, 2, id, 1, 20, &mut out);
            }
            if r.p(30) {
                out.push(new(3, false, r.p(60), r));
                out.push(Op::Ext { d: 3, s: 2 });
                out.push(Op::Ext { d: 1, s: 3 });
            } else {
                out.push(Op::Ext { d: 1, s: 2 });
            }
            j += k;
        } else {
            if r.p(8) {
                out.push(Op::Cat { c: 1, id: ids[j] });
                gdict(r, &m, 1, &mut out);
            } else {
                gindirect(r, &m, 1, ids[j], 1, 20, &mut out);
            }
            j += 1;
        }
    }
    out.push(finishing(r, &ids, tables, only));
    out
}

/// What goes into the header and the trailer.
fn trailers(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![new(1, true, r.p(60), r)];
    let mut ids = vec![];
    for _ in 0..r.n(9) {
        let fresh = 1 + ids.iter().copied().max().unwrap_or(0) + r.n(2) as i32;
        match r.n(7) {
            0 => out.push(Op::Ver { c: 1, a: *r.of(&[0, 1, 2, 9, 10, 255]), b: *r.of(&[0, 4, 7, 9, 10, 200]) }),
            1 => {
                let x = [0; 4].map(|_| loop {
                    let b = r.next() as u8;
                    // A line break would end the comment.
                    if b != b'\n' && b != b'\r' { break b }
                });
                out.push(Op::Mark { c: 1, x });
            }
            2 => out.push(Op::Fid { c: 1, a: gbytes(r, 18), b: gbytes(r, 18) }),
            3 | 4 => {
                out.push(if r.p(50) { Op::Cat { c: 1, id: fresh } } else { Op::Info { c: 1, id: fresh } });
                gdict(r, &MIX, 1, &mut out);
                ids.push(fresh);
            }
            5 => {
                out.push(new(2, false, true, r));
                gindirect(r, &MIX, 2, fresh, 1, 20, &mut out);
                ids.push(fresh);
                out.push(Op::Ext { d: 1, s: 2 });
            }
            _ => {
                gindirect(r, &MIX, 1, fresh, 1, 20, &mut out);
                ids.push(fresh);
            }
        }
    }
    if r.p(25) {
        // One with a number that is much larger.
        let top = r.r(20, 700) as i32;
        gindirect(r, &MIX, 1, top, 1, 20, &mut out);
        ids.push(top);
    }
    out.push(finishing(r, &ids, true, false));
    out
}

/// Numbers around 65536, twice or not.
fn huge_dups(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut out = vec![new(1, true, false, r)];
    const P: &[&[i32]] = &[
        &[65534, 65536], &[65535, 65535], &[65536, 65536], &[65535, 65536, 65535], &[1, 65537], &[65537, 1, 65537],
        &[1, 65536, 65537, 65538], &[255, 256, 65536, 256],
    ];
    for &id in P[n % P.len()] {
        out.push(Op::Ind { c: 1, id });
        out.push(Op::Prim(i(1)));
    }
    let mode = (n / P.len() % 2) as u8;
    out.push(Op::Fin { c: 1, mode, xid: if mode == 0 { 0 } else { *r.of(&[3, 65539]) } });
    out
}

/// Documents in which numbers are used twice in all sorts of ways, and some
/// that come close.
fn dups(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![new(1, true, r.p(60), r)];
    let n = 1 + r.n(7);
    let mut ids = numbering(r, n);
    if r.p(60) {
        let j = r.n(ids.len());
        let id = ids[j];
        let k = r.n(ids.len() + 1);
        ids.insert(k, id);
    }
    let m = Mix { deep: 5, ..MIX };
    let mut j = 0;
    while j < ids.len() {
        if r.p(40) {
            let k = (1 + r.n(3)).min(ids.len() - j);
            out.push(new(2, false, r.p(60), r));
            for &id in &ids[j..j + k] {
                gindirect(r, &m, 2, id, 1, 20, &mut out);
            }
            out.push(Op::Ext { d: 1, s: 2 });
            j += k;
        } else {
            match r.n(8) {
                0 => { out.push(Op::Cat { c: 1, id: ids[j] }); out.push(Op::End); }
                1 => { out.push(Op::Info { c: 1, id: ids[j] }); out.push(Op::End); }
                _ => gindirect(r, &m, 1, ids[j], 1, 20, &mut out),
            }
            j += 1;
        }
    }
    let mode = r.n(4) as u8;
    let xid = if mode == 0 { 0 } else if r.p(40) { *r.of(&ids) } else {
        (1..).filter(|j| !ids.contains(j)).nth(r.n(5)).unwrap()
    };
    out.push(Op::Fin { c: 1, mode, xid });
    out
}

/// Small objects with large numbers: long free lists, wide fields.
fn sparse(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut out = vec![new(1, true, false, r)];
    let top: i64 = match n % 8 {
        0 => *r.of(&[254, 255, 256, 257, 258]),
        1 => r.r(100, 600),
        2 => r.r(600, 1500),
        _ => r.r(10, 300),
    };
    let mut ids: Vec<i32> = vec![top as i32];
    if n % 8 >= 5 {
        // Long runs with a few holes.
        let holes = *r.of(&[1, 3, 10]);
        ids = (1..=top as i32).filter(|_| !r.p(holes)).collect();
    }
    for _ in 0..r.n(12) {
        let id = if r.p(30) {
            // Next to one that exists.
            let o: i32 = *r.of(&ids);
            (o - 1).max(1)
        } else {
            r.r(1, top) as i32
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    if r.p(40) {
        ids.sort();
    }
    for &id in &ids {
        out.push(Op::Ind { c: 1, id });
        out.push(Op::Prim(i(id)));
    }
    out.push(finishing(r, &ids, true, false));
    out
}

/// The same with numbers that need more than two bytes.
fn huge(r: &mut Rng, n: usize, tables: bool) -> Vec<Op> {
    let mut out = vec![new(1, true, false, r)];
    let top = match n % 4 {
        0 => 65_537 + r.r(2, 3000) as i32,
        1 => 65_537 + r.r(0, 3) as i32,
        2 => 65_533 + r.r(0, 4) as i32,
        _ => 65_534 + r.r(0, 2) as i32,
    };
    let mut ids = vec![top, r.r(1, 300) as i32, r.r(60_000, 65_000) as i32, 65_530];
    if top > 65_536 {
        ids.push(65_536);
    }
    r.shuffle(&mut ids);
    for &id in &ids {
        out.push(Op::Ind { c: 1, id });
        out.push(Op::Prim(i(id)));
    }
    let (mode, xid) = if tables && n % 2 == 1 { (0, 0) } else { (1, top + 1 + r.n(3) as i32) };
    out.push(Op::Fin { c: 1, mode, xid });
    out
}

/// Offsets around the limits of one, two and three bytes.
fn big(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut out = vec![new(1, true, r.p(50), r)];
    let around: usize = match n % 4 {
        0 => 256,
        1 => 65536,
        2 => 16_777_216,
        _ => *r.of(&[256, 65536, 100_000, 1_000_000]),
    };
    let mut ids = vec![];
    let k = 1 + r.n(3);
    for id in 1..=k as i32 {
        // `5 0 obj << /Length n >> stream` and so on come to some 80 bytes.
        let len = (around / k).saturating_sub(90) + r.n(120);
        out.push(Op::Strm { c: 1, id, x: vec![b'z'; len] });
        out.push(Op::End);
        ids.push(id);
        if r.p(50) {
            ids.push(id + 10);
            out.push(Op::Ind { c: 1, id: id + 10 });
            out.push(Op::Prim(i(id)));
        }
    }
    out.push(finishing(r, &ids, true, false));
    out
}

/// Chunks in chunks.
fn assembly(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![];
    let n = 2 + r.n(3);
    for c in 1..=n {
        out.push(new(c, false, r.p(50), r));
    }
    let mut size = vec![0usize; n + 1];
    for _ in 0..3 + r.n(9) {
        let c = 1 + r.n(n);
        let d = 1 + r.n(n);
        match r.n(10) {
            0 | 1 | 2 if c != d && size[d] + size[c] < 40 => {
                out.push(Op::Ext { d, s: c });
                size[d] += size[c];
                if r.p(50) {
                    out.push(Op::Obs { c: d });
                }
            }
            3 => {
                out.push(Op::Clone { d, s: c });
                size[d] = size[c];
            }
            9 => out.push(Op::Reserve { c, n: r.n(2000) }),
            5 => out.push(Op::Obs { c }),
            4 if size[c] < 20 => {
                // Many small ones.
                for _ in 0..*r.of(&[5, 8, 9, 16, 17]) {
                    let id = 1 + r.n(30) as i32;
                    out.push(Op::Ind { c, id });
                    out.push(Op::Prim(i(id)));
                    size[c] += 1;
                }
            }
            _ => {
                let id = 1 + r.n(30) as i32;
                gindirect(r, &MIX, c, id, 2, 20, &mut out);
                size[c] += 1;
            }
        }
    }
    for c in 1..=n {
        out.push(Op::Obs { c });
    }
    out
}

/// Anything with anything: documents and chunks that are written to, joined,
/// copied, renumbered, and finished.
fn histories(r: &mut Rng) -> Vec<Op> {
    let pdfs = 1 + r.n(2);
    let n = pdfs + 1 + r.n(3);
    let mut out: Vec<Op> = (1..=n).map(|c| new(c, c <= pdfs, r.p(50), r)).collect();
    // The numbers of the objects of each container.
    let mut ids: Vec<Vec<i32>> = vec![vec![]; n + 1];
    let mut next = *r.of(&[1, 1, 7, 90, 250]);
    let mut top = next;
    let m = Mix { refs: 3, deep: 20, maxid: 40, ..MIX };
    for _ in 0..4 + r.n(14) {
        let d = 1 + r.n(n);
        let s = 1 + r.n(n);
        let both = ids[d].len() + ids[s].len() < 30;
        let clash = ids[s].iter().any(|i| ids[d].contains(i));
        match r.n(16) {
            0 | 1 if s != d && both && (!clash || r.p(15)) && (s > pdfs || r.p(20)) => {
                out.push(Op::Ext { d, s });
                let more = ids[s].clone();
                ids[d].extend(more);
            }
            2..=4 if s != d && both && !ids[s].is_empty() => {
                let k = ids[s].len() as i32;
                top = top.max(next);
                let fresh = d > pdfs && r.p(30);
                if fresh {
                    ids[d].clear();
                }
                // The references are not known here: leave space for them.
                let from = if r.p(80) { top } else { *r.of(&[1, 5, 60]) };
                out.push(Op::Ren { d, s, f: RenMap::Alloc(from), fresh });
                ids[d].extend(from..from + k);
                top = top.max(from + k + 45);
                next = top;
            }
            5 if d > pdfs && s > pdfs && s != d => {
                out.push(Op::Clone { d, s });
                ids[d] = ids[s].clone();
            }
            6 => out.push(Op::Mlim { d, s }),
            7 if d > pdfs => out.push(Op::Obs { c: d }),
            8 => out.push(Op::Reserve { c: d, n: r.n(2000) }),
            9 if d <= pdfs => out.push(match r.n(3) {
                0 => Op::Ver { c: d, a: *r.of(&[1, 2]), b: r.n(8) as u8 },
                1 => Op::Mark { c: d, x: *r.of(&[*b"ABCD", [128; 4], [255, 0, 40, 41], *b"1 R(", *b"<<%>"]) },
                _ => Op::Fid { c: d, a: gbytes(r, 18), b: gbytes(r, 18) },
            }),
            10 if d <= pdfs => {
                out.push(if r.p(50) { Op::Cat { c: d, id: next } } else { Op::Info { c: d, id: next } });
                gdict(r, &m, 1, &mut out);
                ids[d].push(next);
                next += 1;
            }
            _ if ids[d].len() < 30 => {
                let id = if r.p(4) && !ids[d].is_empty() { *r.of(&ids[d]) } else { next };
                gindirect(r, &m, d, id, 1, 20, &mut out);
                ids[d].push(id);
                if id == next {
                    next += *r.of(&[1, 1, 1, 2, 9]);
                }
            }
            _ => {}
        }
    }
    for c in pdfs + 1..=n {
        out.push(Op::Obs { c });
    }
    for c in 1..=pdfs {
        let Op::Fin { mode, xid, .. } = finishing(r, &ids[c], true, false) else { unreachable!() };
        out.push(Op::Fin { c, mode, xid });
    }
    out
}

/// Documents most of whose objects come from renumbering, with numbers that
/// get longer and shorter, from several chunks.
fn renumbered_docs(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![new(1, true, r.p(50), r)];
    let m = Mix { refs: 25, deep: 10, maxid: 2000, ..MIX };
    let near = [1, 2, 9, 10, 11, 98, 99, 100, 101, 998, 999, 1000, 1001];
    let mut ids: Vec<i32> = vec![];
    let mut top = 1;
    for _ in 0..r.n(3) {
        gindirect(r, &m, 1, top, 1, 20, &mut out);
        ids.push(top);
        top += 1;
    }
    let mut c = 1;
    for _ in 0..1 + r.n(3) {
        c += 1;
        out.push(new(c, false, r.p(50), r));
        let mut own: Vec<i32> = vec![];
        for _ in 0..1 + r.n(5) {
            let id = match r.n(3) {
                0 => *r.of(&near),
                1 => *r.of(&[10_000, 65_536, 99_999, 16_777_216, i32::MAX]),
                _ => 1 + r.n(1500) as i32,
            };
            if !own.contains(&id) {
                gindirect(r, &m, c, id, 1, 20, &mut out);
                own.push(id);
            }
        }
        // Where the numbers of the chunk go.
        let from = top.max(*r.of(&near)).max(*r.of(&near));
        // Other numbers may be referred to: leave space for them.
        let f = RenMap::Alloc(from);
        let via = r.p(25);
        if via {
            // By way of a further chunk.
            out.push(Op::Ren { d: c + 1, s: c, f, fresh: true });
            c += 1;
            out.push(Op::Ext { d: 1, s: c });
        } else {
            out.push(Op::Ren { d: 1, s: c, f, fresh: false });
        }
        top = from + 150;
        ids.extend(from..top);
        if r.p(30) {
            gindirect(r, &m, 1, top, 1, 20, &mut out);
            ids.push(top);
            top += 1;
        }
    }
    let Op::Fin { mode, xid, .. } = finishing(r, &ids, true, false) else { unreachable!() };
    let table = r.p(40) || mode == 0;
    out.push(Op::Fin { c: 1, mode: if table { 0 } else { mode }, xid: if table { 0 } else { xid } });
    out
}

/// Chunks with very many objects, joined again and again.
fn doubling(r: &mut Rng, n: usize, ren: bool) -> Vec<Op> {
    let times = *[12, 17, 8, 15, 6].get(n % 5).unwrap();
    let mut out = vec![new(1, false, r.p(50), r), new(2, false, r.p(50), r)];
    for c in 1..=2 {
        for _ in 0..1 + r.n(3) {
            let id = *r.of(&[1, 9, 10, 255, 256, 70000, i32::MAX]);
            out.push(Op::Ind { c, id });
            out.push(Op::Prim(if ren { rf(pdf_writer::Ref::new(id)) } else { i(id) }));
        }
    }
    for k in 0..times {
        let (d, s) = if k % 2 == 0 { (1, 2) } else { (2, 1) };
        out.push(Op::Ext { d, s });
    }
    out.push(Op::Ind { c: 1, id: 5 });
    out.push(Op::Prim(i(1)));
    if ren {
        let f = RenMap::Alloc(*r.of(&[1, 97, 999_990]));
        out.push(Op::Ren { d: 3, s: 1, f, fresh: true });
        out.push(Op::Obs { c: 3 });
        return out;
    }
    out.push(Op::Obs { c: 1 });
    out.push(Op::Obs { c: 2 });
    out
}

/// References in large objects: around 4, 8, 16, 32, 64 KiB and beyond.
fn large_renumber(r: &mut Rng, n: usize) -> Vec<Op> {
    let mut out = vec![new(1, false, n % 2 == 0, r)];
    let size = [65_536, 4_096, 70_000, 32_768, 8_192, 16_384][n % 6] + 300 + r.n(300);
    let ids: Vec<i32> = (0..12).map(|_| *r.of(&[1, 7, 12, 99, 123, 4567, 65_535, 1_234_567])).collect();
    let mut values = vec![name(&vec![b'x'; 1 + r.n(9)])];
    let mut len = 20;
    while len < size {
        let id = *r.of(&ids);
        values.push(rf(pdf_writer::Ref::new(id)));
        len += id.to_string().len() + 5;
        if r.p(3) {
            values.push(i(id));
            len += 5;
        }
        if n % 3 == 1 && r.p(2) {
            values.push(st(b"(7 0 R"));
            len += 10;
        }
    }
    out.push(Op::Ind { c: 1, id: 7 });
    out.push(Op::Arr);
    if n % 4 >= 2 {
        // In an inner array, and as entries.
        out.push(Op::Push);
        out.push(Op::Arr);
    }
    out.push(Op::Items(values));
    out.push(Op::End);
    if n % 4 >= 2 {
        out.push(Op::Items(vec![rf(pdf_writer::Ref::new(7)), i(2)]));
        out.push(Op::End);
    }
    out.push(Op::Ind { c: 1, id: 12 });
    out.push(Op::Prim(rf(pdf_writer::Ref::new(7))));
    out.push(Op::Ren { d: 2, s: 1, f: RenMap::Alloc(*r.of(&[1, 50, 99_995, 3_000_000])), fresh: true });
    out.push(Op::Obs { c: 2 });
    out
}

/// Puts something like a reference into a string.
fn hide(r: &mut Rng, t: &str, b: &mut Vec<i64>) {
    if t == "str" && !b.is_empty() {
        let at = r.n(b.len());
        b.splice(at..at, b" 7 0 R ".iter().map(|&x| x.into()));
    }
}

/// References to be rewritten next to everything that only looks like one.
fn renumber(r: &mut Rng) -> Vec<Op> {
    let mut out = vec![new(1, false, r.p(50), r), new(2, false, r.p(50), r)];
    let top = *r.of(&[3, 9, 99, 1000, 100_000, 1_100_000_000, i32::MAX]);
    if r.p(12) {
        // Long or deeply nested strings, with something like references in them.
        let k = r.n(120);
        let mut more = match r.n(3) {
            0 => parens(r, k),
            1 => large_strings(r, k % 96),
            _ => {
                let d = *r.of(&[1, 2, 3, 17, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513]);
                let mut x = vec![b'('; d];
                for j in 0..d {
                    if j < 2 || j > d - 3 || r.p(3) {
                        x.extend_from_slice(b" 7 0 R ");
                    }
                    x.push(b')');
                }
                let k = r.p(50);
                values(r, k, vec![rf(pdf_writer::Ref::new(3)), st(&x), rf(pdf_writer::Ref::new(2))])
            }
        };
        for op in &mut more {
            if let Op::Prim(V { b, t, .. }) = op {
                hide(r, t, b);
            }
            if let Op::Items(vs) = op {
                for V { b, t, .. } in vs {
                    hide(r, t, b);
                }
            }
        }
        more.retain(|op| !matches!(op, Op::New { .. } | Op::Obs { .. }));
        out.append(&mut more);
    }
    let m = Mix {
        refs: 8, strs: 3, names: 3, nums: 4, texts: 2, deep: 45, maxid: top, ..MIX
    };
    for _ in 0..1 + r.n(5) {
        let id = 1 + r.n(top as usize) as i32;
        gindirect(r, &m, 1, id, 3, 25, &mut out);
    }
    if r.p(30) {
        let id = 1 + r.n(9) as i32;
        gindirect(r, &m, 2, id, 2, 20, &mut out);
    }
    let f = match r.n(5) {
        0 if top < i32::MAX => RenMap::Plus(*r.of(&[0, 1, 9, 90, 900, 1_000_000, 999_999_999])),
        0 => RenMap::Alloc(*r.of(&[999_999_990, 1_000_000_000, 2_147_483_600])),
        1 | 2 => RenMap::Alloc(1 + r.n(2000) as i32),
        3 => {
            // A permutation of small numbers.
            let mut p: Vec<i32> = (1..=9).collect();
            r.shuffle(&mut p);
            RenMap::Table((1..=9).zip(p).collect())
        }
        // Not injective.
        _ => RenMap::Table((1..=9).map(|j| (j, 1 + r.n(4) as i32)).collect()),
    };
    let fresh = r.p(50);
    out.push(Op::Ren { d: 2, s: 1, f: f.clone(), fresh });
    out.push(Op::Obs { c: 2 });
    if r.p(40) {
        // And once more.
        out.push(Op::Ren { d: 3, s: 2, f: RenMap::Alloc(1 + r.n(50) as i32), fresh: true });
        out.push(Op::Obs { c: 3 });
    }
    if r.p(30) {
        out.push(Op::Ren { d: 2, s: 1, f, fresh: false });
        out.push(Op::Obs { c: 2 });
    }
    if r.p(20) {
        out.push(Op::Obs { c: 1 });
    }
    out
}

/// The same calls on two containers: `pretty` and compact, or both alike but
/// with different capacities.
fn twins(r: &mut Rng, styles: bool, n: usize) -> Vec<Op> {
    if n % 4 == 1 {
        alike(r);
    }
    let style = r.p(50);
    let mut out = vec![
        Op::New { c: 1, pdf: false, pretty: styles || style, cap: -1 },
        Op::New { c: 2, pdf: false, pretty: !styles && style, cap: r.n(300) as i64 },
    ];
    let noise = !styles && r.p(50);
    if noise {
        out.push(Op::New { c: 3, pdf: false, pretty: r.p(50), cap: -1 });
    }
    let m = Mix { deep: *r.of(&[20, 50, 75]), ..MIX };
    let large = match n % 16 {
        7 => Some(large_objects(r, n / 16)),
        15 => Some(large_strings(r, n / 16)),
        3 => Some(parens(r, n / 16)),
        _ => None,
    };
    let mut parts: Vec<Vec<Op>> = vec![];
    if let Some(ops) = large {
        parts.push(ops.into_iter().filter(|op| !matches!(op, Op::New { .. } | Op::Obs { .. })).collect());
    } else {
        for _ in 0..1 + r.n(5) {
            let id = 1 + r.n(20) as i32;
            let mut one = vec![];
            if r.p(12) {
                one.push(Op::Ind { c: 1, id });
                gdeep(r, &m, &mut one);
            } else {
                let depth = *r.of(&[1, 2, 3]);
                gindirect(r, &m, 1, id, depth, 20, &mut one);
            }
            parts.push(one);
        }
    }
    for one in parts {
        out.extend(one.iter().cloned());
        if noise {
            // Something else in another chunk.
            gindirect(r, &m, 3, 1, 1, 10, &mut out);
        }
        if !styles && r.p(30) {
            out.push(Op::Reserve { c: 2, n: r.n(1000) });
        }
        out.extend(one.into_iter().map(|op| match op {
            Op::Ind { id, .. } => Op::Ind { c: 2, id },
            Op::Strm { id, x, .. } => Op::Strm { c: 2, id, x },
            op => op,
        }));
    }
    out.push(Op::Twin { c: 1, d: 2 });
    out
}
