//! Content streams.

use crate::api::*;
use crate::cx::*;
use crate::gen::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

kinds! {
    KWidth(f32) => f32: |cx| { let x = gfloat(&mut cx.r); match cx.r.n(10) { 0 => 0.0, 1 => -0.0, 2..=6 => x.abs(), _ => x } }, |x| f(*x), |x| *x;
    KFlat(i32) => i32: |cx| *cx.r.of(&[0, 1, 50, 99, 100, 101, -1, 1000, i32::MIN, i32::MAX]), |x| i(*x), |x| *x;
}

type Ms = &'static [fn(&mut Cx, &mut Content)];

macro_rules! ops {
    ($($kind:ident $m:ident ($($a:ty),*);)*) => {
        &[$(|cx, w| { ops!(@ $kind cx w $m ($($a),*)); }),*]
    };
    (@ five $cx:ident $w:ident $m:ident ($a:ty)) => {
        let x: Vec<KF> = (0..5).map(|_| <$a>::gen($cx)).collect();
        $cx.call = stringify!($m).into();
        $w.$m(x[0].0, x[1].0, x[2].0, x[3].0, x[4].0);
        $cx.m(stringify!($m), &x.iter().map(|x| x.v()).collect::<Vec<_>>());
    };
    (@ six $cx:ident $w:ident $m:ident ($a:ty)) => {
        let x: Vec<KF> = (0..6).map(|_| <$a>::gen($cx)).collect();
        $cx.call = stringify!($m).into();
        $w.$m(x[0].0, x[1].0, x[2].0, x[3].0, x[4].0, x[5].0);
        $cx.m(stringify!($m), &x.iter().map(|x| x.v()).collect::<Vec<_>>());
    };
    // `impl Into<ColorSpaceOperand>`
    (@ space $cx:ident $w:ident $m:ident ()) => {
        if $cx.sweep.is_some() || $cx.r.p(50) {
            let a = KColorSpaceOperand::gen($cx);
            $w.$m(a.a());
            $cx.m(stringify!($m), &[a.v()]);
        } else {
            let a = KName::gen($cx);
            $w.$m(a.a());
            $cx.m(stringify!($m), &[a.v()]);
        }
    };
    (@ $kind:ident $cx:ident $w:ident $m:ident ($($a:ty),*)) => {
        $crate::api::call!($kind $cx $w $m ($($a),*));
    };
}

const PLAIN: Ms = ops! {
    try set_line_width(KWidth);
    set set_line_cap(KE<LineCapStyle>);
    set set_line_join(KE<LineJoinStyle>);
    set set_miter_limit(KF);
    set set_dash_pattern(KFs, KF);
    set set_rendering_intent(KE<RenderingIntent>);
    try set_flatness(KFlat);
    set set_parameters(KName);
    set transform(KF6);
    set move_to(KF, KF);
    set line_to(KF, KF);
    six cubic_to(KF);
    set cubic_to_initial(KF, KF, KF, KF);
    set cubic_to_final(KF, KF, KF, KF);
    set close_path();
    set rect(KF, KF, KF, KF);
    set stroke();
    set close_and_stroke();
    set fill_nonzero();
    set fill_even_odd();
    set fill_nonzero_and_stroke();
    set fill_even_odd_and_stroke();
    set close_fill_nonzero_and_stroke();
    set close_fill_even_odd_and_stroke();
    set end_path();
    set clip_nonzero();
    set clip_even_odd();
    set begin_text();
    set end_text();
    set set_char_spacing(KF);
    set set_word_spacing(KF);
    set set_horizontal_scaling(KF);
    set set_leading(KF);
    set set_font(KName, KF);
    set set_text_rendering_mode(KE<TextRenderingMode>);
    set set_rise(KF);
    set next_line(KF, KF);
    set next_line_and_set_leading(KF, KF);
    set set_text_matrix(KF6);
    set next_line_using_leading();
    set show(KStr);
    set next_line_show(KStr);
    set next_line_show_and_set_word_and_char_spacing(KF, KF, KStr);
    set start_color_glyph(KF);
    five start_shape_glyph(KF);
    space set_stroke_color_space();
    space set_fill_color_space();
    set set_stroke_color(KFs);
    set set_stroke_pattern(KFs, KName);
    set set_fill_color(KFs);
    set set_fill_pattern(KFs, KName);
    set set_stroke_gray(KF);
    set set_fill_gray(KF);
    set set_stroke_rgb(KF, KF, KF);
    set set_fill_rgb(KF, KF, KF);
    set set_stroke_cmyk(KF, KF, KF, KF);
    set set_fill_cmyk(KF, KF, KF, KF);
    set shading(KName);
    set x_object(KName);
    set begin_compat();
    set end_compat();
};

const STATE: Ms = ops! {
    set save_state();
    set restore_state();
};

const MARKS: Ms = &[
    |cx, w| { call!(set cx w marked_content_point(KName)); },
    |cx, w| { call!(set cx w begin_marked_content(KName)); },
    |cx, w| { call!(set cx w end_marked_content()); },
    |cx, w| {
        let tag = gtag(cx);
        cx.m_begin("DP", &tag);
        let s = w.marked_content_point_with_properties(Name(&tag));
        properties(cx, s);
    },
    |cx, w| {
        let tag = gtag(cx);
        cx.m_begin("BDC", &tag);
        let s = w.begin_marked_content_with_properties(Name(&tag));
        properties(cx, s);
    },
];

const RAW: Ms = &[|cx, w| positioned(cx, w), |cx, w| raw(cx, w)];

fn gtag(cx: &mut Cx) -> Vec<u8> {
    if cx.r.p(40) { cx.r.of(&[&b"Artifact"[..], b"P", b"Span", b"H1", b"TD"]).to_vec() } else { gname(&mut cx.r, 6) }
}

impl Cx {
    fn m_begin(&mut self, op: &str, tag: &[u8]) {
        self.hit(&format!("Content.{op}"));
        self.call = op.into();
        self.ev(&format!("\"e\":\"bop\",\"c\":1,\"op\":{}", jb(op.as_bytes())));
        self.ev(&format!("\"e\":\"opnd\",\"v\":{}", jvs(&[name(tag)])));
    }
}

fn properties(cx: &mut Cx, mut s: MarkContent<'_>) {
    match cx.r.n(10) {
        0 => {}
        1 | 2 => {
            let x = gname(&mut cx.r, 6);
            s.properties_named(Name(&x));
            cx.hit("MarkContent.properties_named");
            cx.ev(&format!("\"e\":\"opnd\",\"v\":{}", jvs(&[name(&x)])));
            cx.end();
            return;
        }
        _ => {
            cx.hit("MarkContent.properties");
            cx.ev("\"e\":\"oobj\"");
            cx.ev("\"e\":\"start\",\"w\":\"PropertyList\"");
            let p = s.properties();
            w_property_list(cx, p);
        }
    }
    done(cx, s);
}

fn positioned(cx: &mut Cx, w: &mut Content) {
    cx.hit("Content.show_positioned");
    cx.call = "show_positioned".into();
    cx.ev(&format!("\"e\":\"bop\",\"c\":1,\"op\":{}", jb(b"TJ")));
    let mut s = w.show_positioned();
    cx.ev("\"e\":\"oobj\"");
    cx.ev("\"e\":\"arr\"");
    let mut a = s.items();
    for _ in 0..cx.r.n(7) {
        if cx.r.p(50) {
            let x = gbytes(&mut cx.r, 8);
            a.show(Str(&x));
            cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[st(&x)])));
        } else {
            let x = gfloat(&mut cx.r);
            a.adjust(x);
            cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[f(x)])));
        }
    }
    done(cx, a);
    done(cx, s);
}

fn raw(cx: &mut Cx, w: &mut Content) {
    const OPS: &[&str] = &[
        "w", "sh", "T*", "'", "\"", "BI", "XX", "foo", "b*", "d0", "x1", "A-b", "q0", "_", "*", "Rx", "nul", "truex",
        "obj", "e", "k",
    ];
    let op = *cx.r.of(OPS);
    cx.hit("Content.op");
    cx.call = "op".into();
    cx.ev(&format!("\"e\":\"bop\",\"c\":1,\"op\":{}", jb(op.as_bytes())));
    let mut o = w.op(op);
    for _ in 0..*cx.r.of(&[0, 0, 1, 1, 2, 3, 5]) {
        match cx.r.n(4) {
            0 => {
                let xs = KFs::gen(cx);
                cx.ev(&format!("\"e\":\"opnd\",\"v\":{}", jvs(&xs.v().k)));
                o.operands(xs.a());
            }
            1 => {
                cx.ev("\"e\":\"oobj\"");
                cx.ev("\"e\":\"arr\"");
                let mut a = o.obj().array();
                array(cx, &mut a);
                done(cx, a);
            }
            2 => {
                cx.ev("\"e\":\"oobj\"");
                cx.ev("\"e\":\"dict\"");
                let mut d = o.obj().dict();
                dicts(cx, &mut d);
                done(cx, d);
            }
            _ => {
                cx.ev("\"e\":\"oobj\"");
                obj(cx, o.obj());
            }
        }
    }
    done(cx, o);
}

/// What a program is about.
pub fn methods(kind: &str) -> Vec<fn(&mut Cx, &mut Content)> {
    let mut out = vec![];
    let parts: &[Ms] = match kind {
        "content" => &[PLAIN, STATE, MARKS, RAW],
        "marks" => &[MARKS],
        "state" => &[STATE, STATE, STATE, STATE, STATE, STATE, STATE, STATE, PLAIN],
        _ => panic!("harness: unknown kind of content {kind}"),
    };
    for p in parts {
        out.extend_from_slice(p);
    }
    out
}

/// Many saves and restores at once, around the ranges of narrow counters.
fn deep(cx: &mut Cx, w: &mut Content, n: usize) {
    const NS: &[usize] = &[100, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 70000];
    let most = if n % 32 == 3 { NS.len() } else { 10 };
    for _ in 0..1 + cx.r.n(4) {
        let n = NS[cx.r.n(most)];
        let m = *cx.r.of(&["save_state", "save_state", "restore_state", "end_path"]);
        for _ in 0..n {
            match m {
                "save_state" => w.save_state(),
                "restore_state" => w.restore_state(),
                _ => w.end_path(),
            };
        }
        cx.ev(&format!("\"e\":\"crep\",\"c\":1,\"m\":\"{m}\",\"n\":{n}"));
        cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
    }
}

/// The n-th program: the n-th method, among others.
pub fn program(cx: &mut Cx, kind: &str, n: usize, pretty: bool, cap: usize) -> String {
    let ms = methods(kind);
    let usual = pretty == Settings::default().pretty && cap % 2 == 1;
    let mut w = match cap {
        1 if usual => Content::new(),
        _ if usual => Content::with_capacity(cap),
        0 => Content::with_settings(Settings { pretty }),
        _ => Content::with_settings_and_capacity(Settings { pretty }, cap - 1),
    };
    cx.norefs = true;
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"content\",\"pretty\":{pretty}"));
    if kind == "state" && n % 8 == 3 {
        deep(cx, &mut w, n);
    }
    if n % 5 == 2 {
        alike(&mut cx.r);
    }
    let k = if kind == "state" { 4 + cx.r.n(if n % 16 == 5 { 300 } else { 30 }) } else { cx.r.n(10) };
    let at = cx.r.n(k + 1);
    for j in 0..=k {
        cx.writer = "Content";
        cx.depth = 1;
        cx.fuel = 8;
        if j == at {
            // Once for each value of its enumerations.
            let values = n / ms.len() % 4 == 1;
            cx.sweep = Some((0, if values { SPECIALS } else { 1 }));
            cx.sweep_depth = 1;
            loop {
                let before = cx.sweep;
                if values {
                    cx.r.special = before.map(|x| x.0);
                }
                ms[n % ms.len()](cx, &mut w);
                cx.r.special = None;
                let Some((at, of)) = before.and(cx.sweep) else { break };
                if at + 1 >= of {
                    break;
                }
                cx.sweep = Some((at + 1, of));
            }
            cx.sweep = None;
        } else {
            ms[cx.r.n(ms.len())](cx, &mut w);
        }
        cx.depth = 0;
        cx.writer = "";
        if cap > 1 && cx.n % 3 == 0 {
            w.reserve(cap);
        }
        if kind == "state" || cx.r.p(15) {
            cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
        }
        if cx.r.p(6) && kind != "state" {
            cx.ev(&format!("\"e\":\"cobs\",\"c\":1,\"x\":{},\"n\":{}", jb(w.as_bytes()), w.len()));
        }
    }
    let buf = w.finish();
    if kind == "state" && buf.len() > 1500 {
        // Long ones are only compared in their depth.
        return String::new();
    }
    format!(
        "\"c\":1,\"x\":{},\"n\":{},\"lim\":{}",
        jb(buf.as_slice()), buf.len(), crate::core::limits(buf.limits())
    )
}

/// The n-th method before and after each other one, some with the very same
/// arguments.
pub fn pairs(cx: &mut Cx, n: usize) -> String {
    let ms = methods("content");
    let pretty = cx.r.p(50);
    let mut w = Content::with_settings(Settings { pretty });
    cx.norefs = true;
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"content\",\"pretty\":{pretty}"));
    let round = n / ms.len() % 3;
    let r = cx.r.clone();
    for b in 0..ms.len() {
        for m in [n % ms.len(), b] {
            if round > 0 {
                cx.r = r.clone();
            }
            if round == 2 {
                cx.r.special = Some((n * 7 + b / 8) % SPECIALS);
            }
            cx.writer = "Content";
            cx.depth = 1;
            cx.fuel = 3;
            ms[m](cx, &mut w);
            cx.r.special = None;
        }
    }
    cx.depth = 0;
    cx.writer = "";
    cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
    let buf = w.finish();
    format!(
        "\"c\":1,\"x\":{},\"n\":{},\"lim\":{}",
        jb(buf.as_slice()), buf.len(), crate::core::limits(buf.limits())
    )
}

/// The n-th method with each value of its enumerations, and all others after
/// each of them.
pub fn context(cx: &mut Cx, n: usize) -> String {
    let ms = methods("content");
    let pretty = cx.r.p(50);
    let mut w = Content::with_settings(Settings { pretty });
    cx.norefs = true;
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"content\",\"pretty\":{pretty}"));
    cx.writer = "Content";
    cx.depth = 1;
    let mut v = 0;
    loop {
        cx.writer = "Content";
        cx.depth = 1;
        cx.sweep = Some((v, 1));
        cx.sweep_depth = 1;
        cx.fuel = 3;
        ms[n % ms.len()](cx, &mut w);
        let of = cx.sweep.take().map_or(1, |x| x.1);
        for m in ms.iter().filter(|_| of > 1) {
            cx.writer = "Content";
            cx.depth = 1;
            cx.fuel = 3;
            m(cx, &mut w);
        }
        v += 1;
        if v >= of {
            break;
        }
    }
    cx.depth = 0;
    cx.writer = "";
    cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
    let buf = w.finish();
    format!(
        "\"c\":1,\"x\":{},\"n\":{},\"lim\":{}",
        jb(buf.as_slice()), buf.len(), crate::core::limits(buf.limits())
    )
}

/// The n-th method with well-known names and strings.
pub fn with_known(cx: &mut Cx, n: usize) -> String {
    let ms = methods("content");
    let pretty = cx.r.p(50);
    let mut w = Content::with_settings(Settings { pretty });
    cx.norefs = true;
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"content\",\"pretty\":{pretty}"));
    cx.writer = "Content";
    cx.depth = 1;
    for x in 0..known().len() {
        cx.writer = "Content";
        cx.depth = 1;
        cx.fuel = 3;
        cx.r.known = Some(x);
        cx.r.knew = false;
        ms[n % ms.len()](cx, &mut w);
        if !cx.r.knew {
            break;
        }
    }
    cx.r.known = None;
    cx.depth = 0;
    cx.writer = "";
    cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
    let buf = w.finish();
    format!(
        "\"c\":1,\"x\":{},\"n\":{},\"lim\":{}",
        jb(buf.as_slice()), buf.len(), crate::core::limits(buf.limits())
    )
}

/// A program given as events (from a model).
pub fn script(cx: &mut Cx, j: &crate::json::J) -> String {
    let evs = j.arr();
    let pretty = evs[0].at("pretty").bool();
    let mut w = Content::with_settings(Settings { pretty });
    cx.norefs = true;
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"content\",\"pretty\":{pretty}"));
    let mut at = 1;
    while at < evs.len() {
        let e = &evs[at];
        at += 1;
        match e.at("e").str() {
            "cop" => {
                cx.writer = "Content";
                cx.depth = 1;
                match e.at("m").str() {
                    "save_state" => { call!(set cx w save_state()); }
                    "restore_state" => { call!(set cx w restore_state()); }
                    "end_path" => { call!(set cx w end_path()); }
                    m => panic!("harness: no method {m} in scripts"),
                }
                cx.depth = 0;
            }
            "bop" => {
                let op = e.at("op").bytes();
                let name = std::str::from_utf8(&op).unwrap();
                cx.ev(&format!("\"e\":\"bop\",\"c\":1,\"op\":{}", jb(&op)));
                let mut o = w.op(name);
                while evs[at].at("e").str() != "end" {
                    let vs: Vec<V> = evs[at].at("v").arr().iter().map(V::parse).collect();
                    cx.ev(&format!("\"e\":\"opnd\",\"v\":{}", jvs(&vs)));
                    vs.iter().for_each(|v| v.put(o.obj()));
                    at += 1;
                }
                at += 1;
                done(cx, o);
            }
            x => panic!("harness: no event {x} in content scripts"),
        }
        cx.ev(&format!("\"e\":\"qd\",\"c\":1,\"n\":{}", w.state_nesting_depth()));
    }
    let buf = w.finish();
    format!(
        "\"c\":1,\"x\":{},\"n\":{},\"lim\":{}",
        jb(buf.as_slice()), buf.len(), crate::core::limits(buf.limits())
    )
}
