//! Pools of values and random programs over the untyped API.

use crate::api::SPECIALS;
use crate::core::*;
use crate::cx::{known, Rng};
use crate::val::*;
use pdf_writer::{LanguageIdentifier, Ref};

/// What to draw values from.
#[derive(Clone, Copy)]
pub struct Mix {
    pub strs: usize,
    pub names: usize,
    pub nums: usize,
    pub texts: usize,
    pub dates: usize,
    pub refs: usize,
    pub consts: usize,
    pub rects: usize,
    /// Percentage of composite values.
    pub deep: usize,
    pub maxid: i32,
    /// Multi-byte lengths up to this.
    pub len: usize,
}

pub const MIX: Mix = Mix {
    strs: 3, names: 3, nums: 4, texts: 2, dates: 1, refs: 3, consts: 2, rects: 1,
    deep: 35, maxid: 9, len: 10,
};

pub fn gint(r: &mut Rng) -> i32 {
    // Defaults of the standard, and edges of ranges.
    const SPECIAL: &[i32] = &[
        0, 1, -1, 2, 3, 4, 5, 8, 10, 12, 16, 32, 72, 90, -90, 100, 127, 128, 180, 255, 256, 270, 360, 450, 1000,
        32767, 32768, 65535, 65536, 70000, 1 << 24, i32::MAX, i32::MIN, 999,
    ];
    if let Some(x) = r.pick(SPECIAL) {
        return *x;
    }
    if let (Some(x), true) = (r.near, r.p(70)) {
        return (x as i32).wrapping_add(r.n(4) as i32);
    }
    const C: &[i32] = &[
        0, 1, -1, 2, 7, 9, 10, -10, 99, 100, 101, 127, 128, 255, 256, 1000, -999, 65535,
        65536, 9999999, 10000000, 16777215, 16777216, 16777217, -16777217, 999999999,
        1000000000, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, -1000000000,
    ];
    match r.n(4) {
        0 => *r.of(C),
        1 => r.r(-20, 200) as i32,
        2 => {
            let s = r.n(31);
            (r.next() as i32) >> s
        }
        _ => r.r(0, 9999) as i32,
    }
}

/// Makes all numbers and strings to come resemble each other.
pub fn alike(r: &mut Rng) {
    const C: &[f32] = &[0.5, 1e-6, 2e-6, 1.5e-7, 0.25, -0.1, 1.0, 255.5, 1e12, 3.0, -7.0, 1e-30, 16777216.0, 1e20];
    let x = *r.of(C);
    r.near = Some(f32::from_bits(x.to_bits() + r.n(3) as u32));
}

pub fn gfloat(r: &mut Rng) -> f32 {
    const SPECIAL: &[f32] = &[
        0.0, 1.0, -1.0, -0.0, 0.5, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 12.0, 72.0, 90.0, 100.0, 180.0, 270.0, 360.0, 400.0,
        500.0, 700.0, 1000.0, 0.001, -0.5, 1e-7, 1e12, 255.0, 256.0, 65535.0, 65536.0, 300000.28, 16384.0, -1000.0, 1.25,
    ];
    if let Some(x) = r.pick(SPECIAL) {
        return *x;
    }
    if let (Some(x), true) = (r.near, r.p(70)) {
        return f32::from_bits(x.to_bits() ^ r.n(4) as u32);
    }
    const C: &[f32] = &[
        0.0, -0.0, 0.5, -0.5, 0.1, 0.25, 1.5, -1.5, 1.0, -1.0, 4.22, 1.184e-7, 4.2e13,
        1e-6, 1.0000001e-6, 9.999999e-7, 1e12, 9.999999e11, 1.0000001e12, 1e-5, 1e-7,
        16777216.0, 16777217.0, 8388607.5, 2147483648.0, -2147483648.0, 2147483500.0,
        -2147483904.0, 4294967296.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON,
        1e-45, -1e-45, 1.1754942e-38, 0.3333333, 123456.79, 99999.99, 1e10, 1e11, 3.4e38,
        0.000001, 0.0001, 0.001, 1234567.9, 0.9999999, 0.99999994, 1.0000001, -0.0001,
    ];
    let x = match r.n(6) {
        0 => *r.of(C),
        1 => r.r(-1000, 1000) as f32 / 8.0,
        2 => r.r(-100000, 100000) as f32 / 100.0,
        3 => r.r(-300, 300) as f32,
        _ => f32::from_bits(r.next() as u32),
    };
    if x.is_finite() { x } else { r.r(0, 99) as f32 / 10.0 }
}

/// Lengths of strings and names that are special.
const LENS: &[usize] = &[0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 255, 256, 257, 300];

pub fn gbytes(r: &mut Rng, len: usize) -> Vec<u8> {
    if let Some(x) = r.well_known() {
        return x.into();
    }
    if let Some(k) = r.special {
        let n = LENS[k % LENS.len()];
        return (0..n).map(|j| if k < LENS.len() { b'a' + (j % 26) as u8 } else { r.next() as u8 }).collect();
    }
    if r.near.is_some() && r.p(60) {
        return r.of(&[b"ab" as &[u8], b"ac", b"abc", b"abd", b"AB", b"a(", b"a)"]).to_vec();
    }
    let n = match r.n(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.n(len + 1),
    };
    let kind = r.n(6);
    (0..n).map(|_| match kind {
        0 => r.next() as u8,
        1 => *r.of(b"()\\()ab"),
        2 => *r.of(b"()\\\n\r\t\x08\x0c\0\x01 01789a%/<>[]{}#~\x7f\x1f"),
        3 => r.r(32, 126) as u8,
        4 => r.r(0, 127) as u8,
        _ => *r.of(b"abcR 0123456789objendstream<>/%\n"),
    }).collect()
}

pub fn gname(r: &mut Rng, len: usize) -> Vec<u8> {
    const C: &[&[u8]] = &[
        b"", b"A", b"Type", b"Length", b"Kids", b"R", b"0", b"12", b"-1", b"1.5", b"null",
        b"true", b"obj", b"endobj", b"stream", b"endstream", b"#", b"#20", b"A B", b"/",
        b"()", b"<<", b"\0", b"\n", b"\x7f", b"\x80", b"~", b"!", b"%", b"{}", b"F", b"xref",
        b"0 R", b"5 0 R",
    ];
    if let Some(x) = r.well_known() {
        return x.into();
    }
    if let Some(k) = r.special {
        return if k % 2 == 0 { gbytes(r, len) } else { r.of(C).to_vec() };
    }
    match r.n(6) {
        5 => r.of(known()).as_bytes().to_vec(),
        0 => r.of(C).to_vec(),
        1 => {
            let n = 1 + r.n(len.max(1));
            (0..n).map(|_| *r.of(b"ABCabc012#-_.+*")).collect()
        }
        2 => gbytes(r, len),
        _ => {
            let n = 1 + r.n(4);
            (0..n).map(|_| r.r(65, 90) as u8).collect()
        }
    }
}

/// Mostly plain names, for keys of generated dictionaries.
pub fn gkey(r: &mut Rng, len: usize) -> Vec<u8> {
    if r.p(40) { gname(r, len) } else {
        let n = 1 + r.n(5);
        (0..n).map(|_| if r.p(50) { r.r(65, 90) as u8 } else { r.r(97, 122) as u8 }).collect()
    }
}

pub fn gtext(r: &mut Rng, len: usize) -> String {
    const C: &[&str] = &[
        "", "a", "Hello", "()", ")(", "\\", "é", "ÿ", "😀", "a😀b", "\n", "\t", "\u{7f}",
        "~", " ", "\u{feff}", "\u{fffd}", "日本", "\u{10ffff}", "\u{d7ff}", "\u{e000}",
        "þÿ", "\u{0}", "\u{ffff}", "\u{10000}", "1 0 R", "\u{1f}", "\u{80}", "\u{a0}",
        "\u{ad}", "\u{152}", "\u{20ac}",
    ];
    if let Some(x) = r.well_known() {
        return x.into();
    }
    if let Some(k) = r.special {
        let n = LENS[k % LENS.len()];
        return match (k * 2 / SPECIALS, k % 3) {
            (0, _) | (_, 0) => (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect(),
            (_, 1) => (0..n).map(|j| char::from_u32(0xe0 + j as u32).unwrap()).collect(),
            _ => r.of(C).to_string(),
        };
    }
    match r.n(5) {
        4 => r.of(known()).to_string(),
        0 => r.of(C).to_string(),
        1 => {
            let n = r.n(len + 1);
            (0..n).map(|_| r.r(32, 126) as u8 as char).collect()
        }
        2 => {
            let n = 1 + r.n(len.max(1));
            (0..n).map(|_| loop {
                let top = *r.of(&[0x7fu32, 0xff, 0x7ff, 0xffff, 0x10ffff]);
                if let Some(c) = char::from_u32(r.r(0, top as i64) as u32) {
                    // U+001B starts a language escape and cannot be written.
                    if c as u32 != 0x1b { break c }
                }
            }).collect()
        }
        _ => {
            let n = 1 + r.n(3);
            (0..n).map(|_| *r.of(C)).collect()
        }
    }
}

pub fn glang(r: &mut Rng, len: usize) -> LangSpec {
    let n = r.n(4);
    LangSpec((0..n).map(|_| {
        let al = |r: &mut Rng| *r.of(b"abdefnrsuzABDEGUS09");
        let l = [al(r), al(r)];
        let reg = if r.p(50) { Some([al(r), al(r)]) } else { None };
        let mut code = l.to_vec();
        code.extend(reg.iter().flatten());
        let id = match (r.p(50), reg) {
            (true, _) => LanguageIdentifier::new(l, reg),
            (false, None) => {
                LanguageIdentifier::from_lang(std::str::from_utf8(&l).unwrap()).unwrap()
            }
            (false, Some(g)) => LanguageIdentifier::from_lang_region(
                std::str::from_utf8(&l).unwrap(),
                std::str::from_utf8(&g).unwrap(),
            ).unwrap(),
        };
        (id, code, gtext(r, len))
    }).collect())
}

pub fn gdate(r: &mut Rng) -> DateSpec {
    let mut d = [NONE; 8];
    let wild = r.p(40);
    let g = |r: &mut Rng, lo: i64, hi: i64, min: i64, max: i64| {
        if wild { r.r(min, max) } else { r.r(lo, hi) }
    };
    d[0] = if r.p(20) { *r.of(&[0, 1, 9, 99, 999, 9999, 10000, 65535]) } else { g(r, 1900, 2100, 0, 65535) };
    d[1] = g(r, 1, 12, 0, 255);
    d[2] = g(r, 1, 31, 0, 255);
    d[3] = g(r, 0, 23, 0, 255);
    d[4] = g(r, 0, 59, 0, 255);
    d[5] = g(r, 0, 59, 0, 255);
    d[6] = if r.p(25) { *r.of(&[0, -1, 1, 23, -23, 24, -24, 127, -128]) } else { g(r, -12, 14, -128, 127) };
    d[7] = if r.p(40) { *r.of(&[0, 0, 30, 59, 60]) } else { g(r, 0, 59, 0, 255) };
    // Leave fields out.
    if r.p(60) {
        let from = 1 + r.n(8);
        for x in d.iter_mut().skip(from) {
            if r.p(85) { *x = NONE }
        }
    }
    if r.p(15) { let j = 1 + r.n(7); d[j] = NONE; }
    DateSpec(d)
}

pub fn gprim(r: &mut Rng, m: &Mix) -> V {
    let w = [m.strs, m.names, m.nums, m.texts, m.dates, m.refs, m.consts, m.rects];
    let mut x = r.n(w.iter().sum());
    let mut j = 0;
    while x >= w[j] {
        x -= w[j];
        j += 1;
    }
    match j {
        0 => st(&gbytes(r, m.len)),
        1 => name(&gname(r, m.len)),
        2 => if r.p(50) { i(gint(r)) } else { f(gfloat(r)) },
        3 => if r.p(70) { text(&gtext(r, m.len)) } else { glang(r, m.len).v() },
        4 => gdate(r).v(),
        5 => rf(Ref::new(1 + r.n(m.maxid as usize) as i32)),
        6 => match r.n(3) { 0 => null(), 1 => b(true), _ => b(false) },
        _ => v("rect", vec![], (0..4).map(|_| f(gfloat(r))).collect()),
    }
}

/// An object: the ops from `Prim`/`Arr`/`Dict` to its end.
pub fn gobj(r: &mut Rng, m: &Mix, depth: usize, out: &mut Vec<Op>) {
    if depth == 0 || !r.p(m.deep) {
        out.push(Op::Prim(gprim(r, m)));
    } else if r.p(50) {
        out.push(Op::Arr);
        garray(r, m, depth - 1, out);
    } else {
        out.push(Op::Dict);
        gdict(r, m, depth - 1, out);
    }
}

pub fn garray(r: &mut Rng, m: &Mix, depth: usize, out: &mut Vec<Op>) {
    for _ in 0..r.n(5) {
        if r.p(45) {
            out.push(Op::Push);
            gobj(r, m, depth, out);
        } else {
            let n = r.n(5);
            let vs = if r.p(30) {
                (0..n).map(|_| i(gint(r))).collect()
            } else if r.p(20) {
                (0..n).map(|_| rf(Ref::new(1 + r.n(m.maxid as usize) as i32))).collect()
            } else if r.p(20) {
                (0..n).map(|_| name(&gname(r, m.len))).collect()
            } else if r.p(20) {
                (0..n).map(|_| f(gfloat(r))).collect()
            } else {
                (0..n).map(|_| gprim(r, m)).collect()
            };
            out.push(Op::Items(vs));
        }
        if r.p(15) {
            out.push(Op::Len);
        }
    }
    out.push(Op::End);
}

pub fn gdict(r: &mut Rng, m: &Mix, depth: usize, out: &mut Vec<Op>) {
    for _ in 0..r.n(5) {
        if r.p(45) {
            out.push(Op::Ins(gkey(r, m.len)));
            gobj(r, m, depth, out);
        } else {
            let n = r.n(4);
            out.push(Op::Pairs((0..n).map(|_| {
                let k = gkey(r, m.len);
                ent(&k, gprim(r, m))
            }).collect()));
        }
        if r.p(15) {
            out.push(Op::Len);
        }
    }
    out.push(Op::End);
}

/// Many items or entries at the end of a deep path, from `Arr` or `Dict` on.
pub fn gdeep(r: &mut Rng, m: &Mix, out: &mut Vec<Op>) {
    let depth = 1 + r.n(14);
    let flat = Mix { deep: 0, ..*m };
    let side = |r: &mut Rng, dict: bool, out: &mut Vec<Op>| {
        for _ in 0..r.n(3) {
            let x = gprim(r, &flat);
            out.push(if dict { Op::Pairs(vec![ent(&gkey(r, 5), x)]) } else { Op::Items(vec![x]) });
        }
    };
    let mut dicts = vec![];
    for _ in 0..depth {
        let d = r.p(60);
        dicts.push(d);
        out.push(if d { Op::Dict } else { Op::Arr });
        side(r, d, out);
        out.push(if d { Op::Ins(gkey(r, 5)) } else { Op::Push });
    }
    let n = *r.of(&[0, 1, 2, 5, 9, 10, 17, 24]);
    if r.p(65) {
        out.push(Op::Arr);
        if r.p(50) {
            out.push(Op::Items((0..n).map(|_| i(gint(r))).collect()));
        } else {
            for _ in 0..n {
                out.push(Op::Items(vec![gprim(r, &flat)]));
            }
        }
    } else {
        out.push(Op::Dict);
        for _ in 0..n {
            let x = gprim(r, &flat);
            out.push(Op::Pairs(vec![ent(&gkey(r, 5), x)]));
        }
    }
    out.push(Op::End);
    for d in dicts.into_iter().rev() {
        side(r, d, out);
        out.push(Op::End);
    }
}

pub fn gdata(r: &mut Rng, len: usize) -> Vec<u8> {
    const C: &[&[u8]] = &[
        b"", b"\n", b"\r", b"\r\n", b"endstream", b"\nendstream", b"endstream\nendobj\n",
        b"1 0 R", b" 2 0 R ", b"(", b")", b"%", b">>\nstream\n", b"3 0 obj\n<<>>\nendobj\n",
        b"xref\n0 1\n", b"\0", b"\xff\xfe", b"startxref\n0\n%%EOF", b"/", b"<<",
    ];
    match r.n(3) {
        0 => (0..r.n(len + 1)).map(|_| r.next() as u8).collect(),
        1 => (0..r.n(4)).flat_map(|_| r.of(C).to_vec()).collect(),
        _ => gbytes(r, len),
    }
}

/// One indirect object with the given number.
pub fn gindirect(r: &mut Rng, m: &Mix, c: usize, id: i32, depth: usize, streams: usize, out: &mut Vec<Op>) {
    if r.p(streams) {
        let mut x = gdata(r, 40);
        if r.p(5) {
            x = (0..r.n(700)).map(|_| r.next() as u8).collect();
        }
        out.push(Op::Strm { c, id, x });
        gdict(r, m, depth, out);
    } else {
        out.push(Op::Ind { c, id });
        gobj(r, m, depth, out);
    }
}

pub fn new(c: usize, pdf: bool, pretty: bool, r: &mut Rng) -> Op {
    let cap = if r.p(50) { -1 } else { *r.of(&[0, 1, 13, 100, 5000]) };
    Op::New { c, pdf, pretty, cap }
}
