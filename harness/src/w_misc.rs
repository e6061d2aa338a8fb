//! Character maps, calculator functions, and the functions on plain values.

use crate::api::*;
use crate::cx::*;
use crate::gen::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::WMode;
use pdf_writer::*;
use std::num::NonZeroU16;

// ---------------------------------------------------------------------------
// Unicode character maps.

fn gchar(r: &mut Rng) -> char {
    loop {
        let x = match r.n(4) {
            0 => *r.of(&[0u32, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1f600, 0x10ffff, 0xfeff, 0x10fffe, 0x103ff, 0x10400]),
            1 => r.r(32, 126) as u32,
            2 => r.r(0, 0xffff) as u32,
            _ => r.r(0x10000, 0x10ffff) as u32,
        };
        if let Some(c) = char::from_u32(x) {
            return c;
        }
    }
}

pub fn cmap(cx: &mut Cx, big: bool) {
    let wide = cx.r.p(60);
    let name = gname(&mut cx.r, 6);
    let info = KSysInfo::gen(cx);
    let mode = cx.r.n(3);
    let w = if mode == 2 { WMode::Vertical } else { WMode::Horizontal };
    cx.hit(if mode == 0 { "UnicodeCmap.new" } else { "UnicodeCmap.with_writing_mode" });
    cx.ev(&format!(
        "\"e\":\"cmap\",\"c\":1,\"w\":{},\"name\":{},\"info\":{},\"mode\":{}",
        if wide { 2 } else { 1 }, jb(&name), info.v().json(), if mode == 2 { 1 } else { 0 }
    ));
    cx.call = "UnicodeCmap".into();
    let n = if big { *cx.r.of(&[99, 100, 101, 102, 199, 200, 201, 256, 300, 301, 350]) } else { cx.r.n(12) };
    macro_rules! build {
        ($t:ty) => {{
            let mut m = if mode == 0 {
                UnicodeCmap::<$t>::new(Name(&name), info.a())
            } else {
                UnicodeCmap::<$t>::with_writing_mode(Name(&name), info.a(), w)
            };
            for _ in 0..n {
                let g = *cx.r.of(&[0u64, 1, 0xff, 0x100, 0xffff, 0x0d28, 12]);
                let g = if cx.r.p(80) { cx.r.next() } else { g } as $t;
                if cx.r.p(60) {
                    let c = gchar(&mut cx.r);
                    cx.hit("UnicodeCmap.pair");
                    m.pair(g, c);
                    cx.ev(&format!("\"e\":\"cpair\",\"c\":1,\"g\":{g},\"x\":[{}]", c as u32));
                } else {
                    let cs: Vec<char> = (0..if n < 12 { *cx.r.of(&[0, 1, 2, 2, 3, 5, 8, 17, 33, 65, 128, 130, 260]) } else { *cx.r.of(&[0, 1, 2, 2, 3, 5, 9]) }).map(|_| gchar(&mut cx.r)).collect();
                    cx.hit("UnicodeCmap.pair_with_multiple");
                    m.pair_with_multiple(g, cs.iter().copied());
                    let x: Vec<String> = cs.iter().map(|c| (*c as u32).to_string()).collect();
                    cx.ev(&format!("\"e\":\"cpair\",\"c\":1,\"g\":{g},\"x\":[{}]", x.join(",")));
                }
            }
            m.finish()
        }};
    }
    let buf = if wide { build!(u16) } else { build!(u8) };
    cx.ev(&format!("\"e\":\"cmfin\",\"c\":1,\"x\":{}", jb(buf.as_slice())));
}

// ---------------------------------------------------------------------------
// Calculator functions.

macro_rules! psops {
    ($($v:ident)*) => { const PS: &[(PostScriptOp<'static>, &str)] = &[$((PostScriptOp::$v, stringify!($v))),*]; };
}
psops! {
    Abs Add Atan Ceiling Cos Cvi Cvr Div Exp Floor Idiv Ln Log Mod Mul Neg Round Sin Sqrt Sub Truncate
    And Bitshift Eq False Ge Gt Le Lt Ne Not Or True Xor Copy Dup Exch Index Pop Roll
}

fn psblock(cx: &mut Cx, depth: usize) -> (Vec<PostScriptOp<'static>>, Vec<V>) {
    let n = *cx.r.of(&[0, 1, 1, 2, 3, 6]);
    let mut ops = vec![];
    let mut vs = vec![];
    for _ in 0..n {
        match cx.r.n(6) {
            0 => {
                let x = gint(&mut cx.r);
                ops.push(PostScriptOp::Integer(x));
                vs.push(i(x));
            }
            1 => {
                let x = gfloat(&mut cx.r);
                ops.push(PostScriptOp::Real(x));
                vs.push(f(x));
            }
            2 if depth > 0 => {
                let (o, x) = psblock(cx, depth - 1);
                let o: &'static [_] = o.leak();
                if cx.r.p(50) {
                    ops.push(PostScriptOp::If(o));
                    vs.push(v("psif", vec![], x));
                } else {
                    let (p, y) = psblock(cx, depth - 1);
                    ops.push(PostScriptOp::IfElse(o, p.leak()));
                    vs.push(v("psifelse", vec![], vec![arr(x), arr(y)]));
                }
            }
            _ => {
                let (o, s) = *cx.r.of(PS);
                ops.push(o);
                vs.push(en(&format!("PostScriptOp_{s}")));
            }
        }
    }
    (ops, vs)
}

pub fn postscript(cx: &mut Cx, n: usize) {
    let (mut ops, mut vs) = psblock(cx, cx.n % 4 + n % 4);
    // Each operator in turn.
    let (o, s) = PS[n % PS.len()];
    let at = cx.r.n(ops.len() + 1);
    ops.insert(at, o);
    vs.insert(at, en(&format!("PostScriptOp_{s}")));
    cx.hit("PostScriptOp.encode");
    cx.call = "encode".into();
    let buf = PostScriptOp::encode(&ops);
    cx.ev(&format!("\"e\":\"psenc\",\"v\":{},\"x\":{}", jvs(&vs), jb(buf.as_slice())));
}

// ---------------------------------------------------------------------------
// Functions on plain values.

impl Cx {
    fn result(&mut self, f: &str, a: &[V], r: V) {
        self.hit(f);
        self.ev(&format!("\"e\":\"fn\",\"f\":\"{f}\",\"a\":{},\"r\":{}", jvs(a), r.json()));
    }
    fn panics(&mut self, f: &str, a: &[V], g: impl FnOnce() -> V) {
        self.call = f.into();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).unwrap_or(v("panic", vec![], vec![]));
        self.result(f, a, r);
    }
}

macro_rules! roles {
    ($($v:ident)*) => {
        const ROLES: &[(StructRole, &str)] = &[$((StructRole::$v, concat!("StructRole_", stringify!($v)))),*];
    };
}
roles! {
    Document Part Art Sect Div BlockQuote Caption TOC TOCI Index NonStruct Private P StructuredHeading
    H1 H2 H3 H4 H5 H6 L LI Lbl LBody Table TR TH TD THead TBody TFoot Span Quote Note Reference BibEntry
    Code Link Annot Ruby Warichu RB RT RP WT WP Figure Formula Form
}

fn opt(x: Option<V>) -> V {
    x.unwrap_or(v("none", vec![], vec![]))
}
fn role1(r: StructRole) -> V {
    en(ROLES.iter().find(|x| x.0 == r).unwrap().1)
}
fn role2(r: StructRole2) -> V {
    match r {
        StructRole2::Heading(n) => v("heading", vec![n.get() as i64], vec![]),
        _ => en(ROLES2.iter().find(|x| x.0 == r).unwrap().1),
    }
}
fn debug(x: impl std::fmt::Debug) -> V {
    en(&format!("{x:?}"))
}

/// Conversions of roles: each role in turn, with all options.
pub fn roles(cx: &mut Cx, n: usize) {
    let (r, s) = ROLES[n % ROLES.len()];
    cx.result("into_pdf_2_0", &[en(s)], opt(r.into_pdf_2_0().map(role2)));
    cx.result("try_from_1_7", &[en(s)], opt(StructRole2::try_from(r).ok().map(role2)));
    cx.result("role_type", &[en(s)], debug(r.role_type()));
    let k = n % (ROLES2.len() + LEVELS.len() + 4);
    let r = match ROLES2.get(k) {
        Some(x) => x.0,
        None => StructRole2::Heading(NonZeroU16::new(match LEVELS.get(k - ROLES2.len()) {
            Some(n) => *n,
            None => 1 + cx.r.n(65535) as u16,
        }).unwrap()),
    };
    cx.result("role_type_2", &[role2(r)], debug(r.role_type()));
    cx.result("try_from_2_0", &[role2(r)], opt(StructRole::try_from(r).ok().map(role1)));
    for o in 0..8 {
        let mut opts = if o == 0 && cx.r.p(50) { RoleMapOpts::default() } else { RoleMapOpts::empty() };
        for (k, x) in [RoleMapOpts::MAP_HN_TO_H6, RoleMapOpts::MAP_TITLE_TO_H1, RoleMapOpts::MAP_SUB_TO_SPAN]
            .into_iter().enumerate()
        {
            if o >> k & 1 == 1 {
                opts |= x;
            }
        }
        let c = r.compatibility_1_7(opts);
        let a = [role2(r), v("opts", vec![o & 1, o >> 1 & 1, o >> 2 & 1], vec![])];
        cx.result("compat.role", &a, role1(c.role()));
        cx.result("compat.into_pdf_1_7", &a, opt(c.into_pdf_1_7().map(role1)));
        cx.result("compat.role_mapped_1_7", &a, opt(c.role_mapped_1_7().map(role1)));
        let kind = match c {
            StructRole2Compat::Compatible(x) => v("compatible", vec![], vec![role1(x)]),
            StructRole2Compat::RoleMapping(x) => v("mapping", vec![], vec![role1(x)]),
        };
        cx.result("compatibility_1_7", &a, kind);
    }
}

/// The names of all headings from a level on.
pub fn headings(cx: &mut Cx, n: usize) {
    const STEP: usize = 256;
    let from = (n * STEP) % 65536;
    let names = (from.max(1)..from + STEP).map(|k| {
        let mut buf = [0; 6];
        let r = StructRole2::Heading(NonZeroU16::new(k as u16).unwrap());
        name(r.to_name(&mut buf).0)
    }).collect();
    cx.result("heading_names", &[i(from.max(1) as i32)], arr(names));
    for o in 0..2 {
        let roles = (from.max(1)..from + STEP).map(|k| {
            let opts = if o == 1 { RoleMapOpts::MAP_HN_TO_H6 } else { RoleMapOpts::empty() };
            let r = StructRole2::Heading(NonZeroU16::new(k as u16).unwrap());
            match r.compatibility_1_7(opts) {
                StructRole2Compat::Compatible(x) => v("compatible", vec![], vec![role1(x)]),
                StructRole2Compat::RoleMapping(x) => v("mapping", vec![], vec![role1(x)]),
            }
        }).collect();
        cx.result("heading_compat", &[i(from.max(1) as i32), v("opts", vec![o, 0, 0], vec![])], arr(roles));
    }
}

pub fn functions(cx: &mut Cx) {
    let id = *cx.r.of(&[gint(&mut cx.r.clone()), 0, -1, i32::MIN, 1, i32::MAX, 77, i32::MAX - 1]);
    cx.panics("Ref.new", &[i(id)], || i(Ref::new(id).get()));
    if id > 0 {
        cx.panics("Ref.next", &[i(id)], || i(Ref::new(id).next().get()));
        cx.panics("Ref.bump", &[i(id)], || {
            let mut r = Ref::new(id);
            let old = r.bump();
            arr(vec![i(old.get()), i(r.get())])
        });
    }
    let r = grect(&mut cx.r);
    let q = r.to_quad_points();
    cx.result("Rect.to_quad_points", &[rect(r)], fs(&q));
    let len = *cx.r.of(&[2, 2, 2, 0, 1, 3, 4]);
    let s: String = (0..len).map(|_| *cx.r.of(&['a', 'z', 'A', 'Z', '0', '9', 'e', 'n', '-', 'é', ' ', '_', '@', '[', '`', '{', '/', ':'])).collect();
    let t: String = (0..*cx.r.of(&[2, 2, 2, 1, 3])).map(|_| *cx.r.of(&['a', 'Z', '5', 'U', 'S', 'ß', '*'])).collect();
    let some = |x: Option<LanguageIdentifier>| b(x.is_some());
    cx.result("from_lang", &[text(&s)], some(LanguageIdentifier::from_lang(&s)));
    cx.result("from_lang_region", &[text(&s), text(&t)], some(LanguageIdentifier::from_lang_region(&s, &t)));
}
