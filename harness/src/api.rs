//! Driving typed writers: argument kinds, and walkers that call methods of a
//! writer in random order and log each call.

use crate::core::{put_items, put_pair};
use crate::cx::*;
use crate::gen::*;
use crate::val::*;
use pdf_writer::*;

/// A kind of argument: how to make one up, its value for the log, and what to
/// pass to the method.
pub trait K {
    type A<'x>
    where
        Self: 'x;
    fn gen(cx: &mut Cx) -> Self;
    fn v(&self) -> V;
    fn a(&self) -> Self::A<'_>;
}

macro_rules! kinds {
    ($($k:ident($t:ty) => $a:ty: |$cx:ident| $gen:expr, |$s:ident| $v:expr, |$s2:ident| $arg:expr;)*) => {
        $(
            pub struct $k(pub $t);
            impl $crate::api::K for $k {
                type A<'x> = $a;
                fn gen($cx: &mut Cx) -> Self { $k($gen) }
                fn v(&self) -> V { let $s = &self.0; $v }
                fn a(&self) -> Self::A<'_> { let $s2 = &self.0; $arg }
            }
        )*
    };
}

pub(crate) use kinds;

fn many<T>(cx: &mut Cx, f: fn(&mut Rng) -> T) -> Vec<T> {
    const NS: &[usize] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 70, 99, 100, 101, 127, 128, 129, 256, 300,
    ];
    let n = *cx.r.pick(NS).unwrap_or(cx.r.clone().of(&[0, 1, 1, 2, 2, 3, 4]));
    cx.r.next();
    // All the same, or not.
    let special = cx.r.special.take();
    if n < 5 && cx.r.p(60) {
        cx.r.special = special;
    }
    let well = cx.r.known;
    let one = (n > 0 && cx.r.p(60)).then(|| cx.r.n(n));
    let out = (0..n).map(|j| {
        cx.r.known = well.filter(|_| one.is_none_or(|k| j == k));
        f(&mut cx.r)
    }).collect();
    cx.r.special = special;
    cx.r.known = well;
    out
}
fn floats<const N: usize>(r: &mut Rng) -> [f32; N] {
    match r.special {
        // Unit matrices of several sizes, and the range from zero to one.
        Some(0) if N == 6 => std::array::from_fn(|k| [1.0, 0.0, 0.0, 1.0, 0.0, 0.0][k]),
        Some(0) if N == 9 => std::array::from_fn(|k| if k % 4 == 0 { 1.0 } else { 0.0 }),
        Some(1) => std::array::from_fn(|k| (k % 2) as f32),
        Some(2) => std::array::from_fn(|k| ((k + 1) % 2) as f32),
        Some(3) => [0.0; N],
        Some(4) => std::array::from_fn(|k| if k < N / 2 { 0.0 } else { 1.0 }),
        Some(5) => std::array::from_fn(|k| [0.001, 0.0, 0.0, 0.001, 0.0, 0.0][k % 6]),
        _ => std::array::from_fn(|_| gfloat(r)),
    }
}
pub fn gref(r: &mut Rng) -> Ref {
    const C: &[i32] = &[1, 2, 9, 10, 255, 256, 65535, 65536, 16777216, 99999999, 999999999, 1000000000, i32::MAX];
    if let Some(x) = r.pick(C) {
        return Ref::new(*x);
    }
    Ref::new(*r.of(&[1, 2, 3, 9, 10, 12, 99, 100, 1234, 100000]))
}
pub fn grect(r: &mut Rng) -> Rect {
    if r.special.is_some() {
        let [a, b, c, d] = floats(r);
        return Rect::new(a, b, c, d);
    }
    Rect::new(gfloat(r), gfloat(r), gfloat(r), gfloat(r))
}
/// A long-lived copy.
pub fn keep(x: Vec<u8>) -> &'static [u8] {
    Box::leak(x.into_boxed_slice())
}
fn bool_of(cx: &mut Cx) -> bool {
    cx.variant(2) == 1
}

kinds! {
    KInt(i32) => i32: |cx| gint(&mut cx.r), |x| i(*x), |x| *x;
    KU8(u8) => u8: |cx| *cx.r.of(&[0, 1, 2, 7, 9, 10, 99, 255]), |x| i(*x as i32), |x| *x;
    KF(f32) => f32: |cx| gfloat(&mut cx.r), |x| f(*x), |x| *x;
    KBool(bool) => bool: |cx| bool_of(cx), |x| b(*x), |x| *x;
    KName(Vec<u8>) => Name<'x>: |cx| gname(&mut cx.r, 6), |x| name(x), |x| Name(x);
    KStr(Vec<u8>) => Str<'x>: |cx| gbytes(&mut cx.r, 8), |x| st(x), |x| Str(x);
    KText(String) => TextStr<'x>: |cx| gtext(&mut cx.r, 6), |x| text(x), |x| TextStr(x);
    KRef(Ref) => Ref: |cx| gref(&mut cx.r), |x| rf(*x), |x| *x;
    KRect(Rect) => Rect: |cx| grect(&mut cx.r), |x| rect(*x), |x| *x;
    KDate(DateSpec) => Date: |cx| gdate(&mut cx.r), |x| x.v(), |x| x.build(x.0[0] as u64);
    KRefs(Vec<Ref>) => Vec<Ref>: |cx| many(cx, gref), |x| rfs(x), |x| x.clone();
    KInts(Vec<i32>) => Vec<i32>: |cx| many(cx, gint), |x| is(x), |x| x.clone();
    KFs(Vec<f32>) => Vec<f32>: |cx| many(cx, gfloat), |x| fs(x), |x| x.clone();
    KNames(Vec<Vec<u8>>) => Vec<Name<'x>>: |cx| many(cx, |r| gname(r, 5)), |x| names(x), |x| x.iter().map(|x| Name(x)).collect();
    KStrs(Vec<Vec<u8>>) => Vec<Str<'x>>: |cx| many(cx, |r| gbytes(r, 5)), |x| arr(x.iter().map(|x| st(x)).collect()), |x| x.iter().map(|x| Str(x)).collect();
    KTexts(Vec<String>) => Vec<TextStr<'x>>: |cx| many(cx, |r| gtext(r, 5)), |x| arr(x.iter().map(|x| text(x)).collect()), |x| x.iter().map(|x| TextStr(x)).collect();
    KLang(LangSpec) => LangSpec: |cx| glang(&mut cx.r, 4), |x| x.v(), |x| x.clone();
    // Matrices and other fixed sizes.
    KF2([f32; 2]) => [f32; 2]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    KF3([f32; 3]) => [f32; 3]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    KF4([f32; 4]) => [f32; 4]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    KF6([f32; 6]) => [f32; 6]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    KF8([f32; 8]) => [f32; 8]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    KF9([f32; 9]) => [f32; 9]: |cx| floats(&mut cx.r), |x| fs(x), |x| *x;
    // For calls that do not take every number.
    KPos(i32) => i32: |cx| gint(&mut cx.r).saturating_abs(), |x| i(*x), |x| *x;
    KPosF(f32) => f32: |cx| gfloat(&mut cx.r).abs(), |x| f(*x), |x| *x;
}

/// Enumerations without payload: all values, with the names that the
/// specification knows them by.
pub trait En: Sized + 'static {
    const NAMES: &'static [&'static str];
    fn at(k: usize) -> Self;
}
pub struct KE<T: En>(pub usize, std::marker::PhantomData<T>);
impl<T: En> K for KE<T> {
    type A<'x> = T;
    fn gen(cx: &mut Cx) -> Self {
        KE(cx.variant(T::NAMES.len()), std::marker::PhantomData)
    }
    fn v(&self) -> V {
        en(T::NAMES[self.0])
    }
    fn a(&self) -> T {
        T::at(self.0)
    }
}

macro_rules! enums {
    ($($t:ident: $($v:ident)*;)*) => {$(
        impl $crate::api::En for $t {
            const NAMES: &'static [&'static str] =
                &[$(concat!(stringify!($t), "_", stringify!($v))),*];
            fn at(k: usize) -> Self {
                [$($t::$v),*].into_iter().nth(k).unwrap()
            }
        }
    )*};
}
pub(crate) use enums;

/// Sets of flags, named one by one.
pub trait Fl: Sized + 'static {
    const NAMES: &'static [&'static str];
    fn set(ks: &[usize]) -> Self;
}
pub struct KFl<T: Fl>(pub Vec<usize>, std::marker::PhantomData<T>);
impl<T: Fl> K for KFl<T> {
    type A<'x> = T;
    fn gen(cx: &mut Cx) -> Self {
        // Each on its own, none, all, and random sets.
        let n = T::NAMES.len();
        let j = cx.variant(n + 4);
        let ks = (0..n).filter(|&k| k == j || j == n || (j > n + 1 && cx.r.p(40))).collect();
        KFl(ks, std::marker::PhantomData)
    }
    fn v(&self) -> V {
        v("flags", vec![], self.0.iter().map(|&k| en(T::NAMES[k])).collect())
    }
    fn a(&self) -> T {
        T::set(&self.0)
    }
}

macro_rules! flags {
    ($($t:ident: $($v:ident)*;)*) => {$(
        impl $crate::api::Fl for $t {
            const NAMES: &'static [&'static str] =
                &[$(concat!(stringify!($t), "_", stringify!($v))),*];
            fn set(ks: &[usize]) -> Self {
                let mut x = $t::empty();
                for k in ks {
                    x |= [$($t::$v),*].into_iter().nth(*k).unwrap();
                }
                x
            }
        }
    )*};
}
pub(crate) use flags;

/// One call with arguments of the given kinds.
macro_rules! call {
    (set $cx:ident $w:ident $m:ident ()) => {
        $cx.call = stringify!($m).into();
        $w.$m();
        $cx.m(stringify!($m), &[]);
    };
    (set $cx:ident $w:ident $m:ident ($a:ty)) => {
        let a = <$a as K>::gen($cx);
        $cx.call = stringify!($m).into();
        $w.$m(a.a());
        $cx.m(stringify!($m), &[a.v()]);
    };
    (set $cx:ident $w:ident $m:ident ($a:ty, $b:ty)) => {
        let a = <$a as K>::gen($cx);
        let b = <$b as K>::gen($cx);
        $cx.call = stringify!($m).into();
        $w.$m(a.a(), b.a());
        $cx.m(stringify!($m), &[a.v(), b.v()]);
    };
    (set $cx:ident $w:ident $m:ident ($a:ty, $b:ty, $c:ty)) => {
        let a = <$a as K>::gen($cx);
        let b = <$b as K>::gen($cx);
        let c = <$c as K>::gen($cx);
        $cx.call = stringify!($m).into();
        $w.$m(a.a(), b.a(), c.a());
        $cx.m(stringify!($m), &[a.v(), b.v(), c.v()]);
    };
    (set $cx:ident $w:ident $m:ident ($a:ty, $b:ty, $c:ty, $d:ty)) => {
        let a = <$a as K>::gen($cx);
        let b = <$b as K>::gen($cx);
        let c = <$c as K>::gen($cx);
        let d = <$d as K>::gen($cx);
        $cx.call = stringify!($m).into();
        $w.$m(a.a(), b.a(), c.a(), d.a());
        $cx.m(stringify!($m), &[a.v(), b.v(), c.v(), d.v()]);
    };
    // A call that may be refused.
    (try $cx:ident $w:ident $m:ident ($a:ty)) => {
        let a = <$a as K>::gen($cx);
        let v = a.v();
        $cx.attempt(stringify!($m), &[v], || { $w.$m(a.a()); });
    };
    // `impl TextStrLike`: either kind of text.
    (text $cx:ident $w:ident $m:ident ()) => {
        $cx.call = stringify!($m).into();
        if $cx.r.p(60) {
            let a = KText::gen($cx);
            $w.$m(a.a());
            $cx.m(stringify!($m), &[a.v()]);
        } else {
            let a = KLang::gen($cx);
            $w.$m(TextStrWithLang(&a.a().parts()));
            $cx.m(stringify!($m), &[a.v()]);
        }
    };
    (sub $cx:ident $w:ident $m:ident () $sub:expr) => {
        $cx.sub(stringify!($m), &[]);
        $cx.call = stringify!($m).into();
        let mut s = $w.$m();
        $sub($cx, &mut s);
        done($cx, s);
    };
    (sub $cx:ident $w:ident $m:ident ($a:ty) $sub:expr) => {
        let a = <$a as K>::gen($cx);
        $cx.sub(stringify!($m), &[a.v()]);
        $cx.call = stringify!($m).into();
        let mut s = $w.$m(a.a());
        $sub($cx, &mut s);
        done($cx, s);
    };
    // A nested writer that its calls consume.
    (own $cx:ident $w:ident $m:ident () $sub:expr) => {
        $cx.sub(stringify!($m), &[]);
        $cx.call = stringify!($m).into();
        let s = $w.$m();
        $sub($cx, s);
    };
    (own $cx:ident $w:ident $m:ident ($a:ty) $sub:expr) => {
        let a = <$a as K>::gen($cx);
        $cx.sub(stringify!($m), &[a.v()]);
        $cx.call = stringify!($m).into();
        let s = $w.$m(a.a());
        $sub($cx, s);
    };
    // The same when it may be refused.
    (trysub $cx:ident $w:ident $m:ident () $sub:expr) => {
        if let Some(mut s) = $cx.attempt_sub(stringify!($m), || $w.$m()) {
            $sub($cx, &mut s);
            done($cx, s);
        }
    };
    (tryown $cx:ident $w:ident $m:ident () $sub:expr) => {
        if let Some(s) = $cx.attempt_sub(stringify!($m), || $w.$m()) {
            $sub($cx, s);
        }
    };
}
pub(crate) use call;

/// End a writer in one of the two ways.
pub fn done<T>(cx: &mut Cx, s: T) {
    if cx.r.p(50) {
        s.finish();
    } else {
        drop(s);
    }
    cx.end();
}

/// Define the walker of a writer type.  Kinds of lines:
/// `set m(K, ..)` a setter, `try m(K)` one that may refuse, `text m()` one for
/// text strings, `sub m(K) walker` a nested writer, `own m(K) walker` one that is consumed,
/// `trysub` and `tryown` those that may be refused.
macro_rules! walker {
    ($f:ident: $t:ty as $n:literal $(+ $x:ident)? { $($kind:ident $m:ident ($($a:ty),*) $($sub:expr)?;)* }) => {
        pub fn $f(cx: &mut Cx, w: &mut $t) {
            const MS: &[fn(&mut Cx, &mut $t)] = &[
                $($crate::api::method!($kind $m ($($a),*) $($sub)?),)*
                $(|cx, w| $crate::api::$x(cx, w),)?
            ];
            $crate::api::walk(cx, $n, w, MS);
        }
    };
}
pub(crate) use walker;

macro_rules! method {
    ($kind:ident $m:ident ($($a:ty),*) $($sub:expr)?) => {
        |cx, w| { $crate::api::call!($kind cx w $m ($($a),*) $($sub)?); }
    };
}
pub(crate) use method;

/// Call some of the methods.
pub fn walk<T>(cx: &mut Cx, n: &'static str, w: &mut T, ms: &[fn(&mut Cx, &mut T)]) {
    if cx.probe {
        cx.probed = ms.len();
        return;
    }
    let outer = std::mem::replace(&mut cx.writer, n);
    cx.depth += 1;
    let mut plan: Vec<usize> = vec![];
    let k = match cx.depth {
        1 => cx.r.n(4),
        2 => cx.r.n(4),
        3 => cx.r.n(3),
        _ => cx.r.n(2),
    };
    let k = if cx.alone && cx.depth == 1 { 0 } else { k };
    for _ in 0..k {
        if ms.is_empty() {
            break;
        }
        plan.push(cx.r.n(ms.len()));
    }
    let forced = cx.force.take();
    let at = cx.r.n(plan.len() + 1);
    for (j, &m) in plan.iter().enumerate() {
        if j == at {
            sweep(cx, w, ms, forced);
        }
        if cx.fuel <= 0 {
            continue;
        }
        cx.fuel -= 1;
        ms[m](cx, w);
    }
    if at == plan.len() {
        sweep(cx, w, ms, forced);
    }
    cx.depth -= 1;
    cx.writer = outer;
}

/// How many special values of each kind there are to try, at most.
pub const SPECIALS: usize = 34;

/// Call the method under test once for each value of its enumerations.
fn sweep<T>(cx: &mut Cx, w: &mut T, ms: &[fn(&mut Cx, &mut T)], forced: Option<usize>) {
    let Some(j) = forced else { return };
    if cx.r.known.is_some() || cx.r.special.is_some() {
        // A sweep is in progress.
        ms[j](cx, w);
        return;
    }
    if cx.pairs {
        for b in 0..ms.len() {
            for m in [j, b] {
                cx.fuel = 3;
                ms[m](cx, w);
            }
        }
        return;
    }
    if let Some(times) = cx.many {
        // Many elements in what the method opens, if it does, or many calls.
        cx.elements = Some(times);
        cx.fuel = 2;
        ms[j](cx, w);
        if cx.elements.take().is_some() {
            for _ in 1..times {
                cx.fuel = 1;
                ms[j](cx, w);
            }
        }
        return;
    }
    if cx.walk {
        cx.fuel = 2;
        let before = cx.r.clone();
        ms[j](cx, w);
        let mut last = vec![(j, before)];
        for _ in 0..(2 * ms.len()).clamp(8, 60) {
            cx.fuel = 2;
            if cx.r.p(25) {
                // Exactly the same call as the last one, or one of those before.
                let k = if cx.r.p(60) { last.len() - 1 } else { cx.r.n(last.len()) };
                let (m, state) = last[k].clone();
                let now = std::mem::replace(&mut cx.r, state);
                ms[m](cx, w);
                cx.r = now;
                cx.r.next();
                continue;
            }
            let m = cx.r.n(ms.len());
            last.push((m, cx.r.clone()));
            ms[m](cx, w);
        }
        return;
    }
    if let Some(part) = cx.known {
        for k in part_of_known(part) {
            cx.r.known = Some(k);
            cx.fuel = 2;
            ms[j](cx, w);
        }
        cx.r.known = None;
        return;
    }
    if cx.context {
        let mut v = 0;
        loop {
            cx.sweep = Some((v, 1));
            cx.sweep_depth = cx.depth;
            cx.fuel = 2;
            ms[j](cx, w);
            let of = cx.sweep.take().map_or(1, |x| x.1);
            for m in ms {
                cx.fuel = 2;
                m(cx, w);
            }
            v += 1;
            if v >= of {
                break;
            }
        }
        return;
    }
    cx.sweep = Some((0, if cx.values { SPECIALS } else { 1 }));
    cx.sweep_depth = cx.depth;
    loop {
        let before = cx.sweep;
        if cx.values {
            cx.r.special = before.map(|x| x.0);
        }
        ms[j](cx, w);
        cx.r.special = None;
        let Some((at, of)) = before.and(cx.sweep) else { break };
        cx.swept = of;
        if at + 1 >= of {
            break;
        }
        cx.sweep = Some((at + 1, of));
    }
    cx.sweep = None;
}

/// The well-known names and strings are tried in this many programs, the
/// most prominent ones first.
pub const KNOWN_PARTS: usize = 8;

/// For pseudo-writers, where methods cannot be combined.
pub fn once<T>(cx: &mut Cx, n: &'static str, w: T, ms: &[fn(&mut Cx, T)]) {
    if cx.probe {
        cx.probed = ms.len();
        return;
    }
    let outer = std::mem::replace(&mut cx.writer, n);
    cx.depth += 1;
    let forced = cx.force.take();
    let j = forced.unwrap_or_else(|| cx.r.n(ms.len()));
    if forced.is_some() && !cx.pairs && !cx.context && cx.many.is_none() && !cx.walk {
        // The sweep continues with further objects.
        match cx.known {
            Some(part) => cx.r.known = part_of_known(part).nth(cx.round),
            None => {
                cx.sweep = Some((cx.round, if cx.values { SPECIALS } else { 1 }));
                cx.sweep_depth = cx.depth;
                cx.r.special = cx.values.then_some(cx.round);
            }
        }
        ms[j](cx, w);
        cx.rounds = match cx.known {
            Some(part) => part_of_known(part).count(),
            None => cx.sweep.map_or(1, |x| x.1),
        };
        cx.swept = cx.rounds;
        cx.sweep = None;
        cx.r.special = None;
        cx.r.known = None;
    } else {
        ms[j](cx, w);
    }
    cx.depth -= 1;
    cx.writer = outer;
}

fn part_of_known(part: usize) -> impl Iterator<Item = usize> {
    (0..known().len()).filter(move |k| k * KNOWN_PARTS / known().len() == part)
}

// ---------------------------------------------------------------------------
// Untyped parts.

fn some_value(cx: &mut Cx) -> V {
    let mut m = MIX;
    if cx.norefs {
        m.refs = 0;
    }
    gprim(&mut cx.r, &m)
}

/// Something is written through the `Dict` that a typed writer is.
pub fn dict(cx: &mut Cx, d: &mut Dict) {
    match cx.r.n(4) {
        0 => {
            let (n, z) = (d.len(), d.is_empty());
            cx.ev(&format!("\"e\":\"len\",\"n\":{n},\"z\":{z}"));
        }
        1 => {
            let key = gkey(&mut cx.r, 4);
            cx.ev(&format!("\"e\":\"ins\",\"key\":{}", jb(&key)));
            cx.ev("\"e\":\"arr\"");
            let mut a = d.insert(Name(&key)).array();
            array(cx, &mut a);
            drop(a);
            cx.end();
        }
        _ => {
            let key = gkey(&mut cx.r, 4);
            let x = some_value(cx);
            put_pair(d, &key, &x);
            cx.ev(&format!("\"e\":\"pairs\",\"v\":{}", jvs(&[ent(&key, x)])));
        }
    }
}

pub fn array(cx: &mut Cx, a: &mut Array) {
    if cx.r.p(30) {
        let (n, z) = (a.len(), a.is_empty());
        cx.ev(&format!("\"e\":\"len\",\"n\":{n},\"z\":{z}"));
    }
    let n = cx.r.n(3);
    let n = cx.elements.take().unwrap_or(n);
    let xs: Vec<V> = (0..n).map(|_| some_value(cx)).collect();
    put_items(a, &xs);
    cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&xs)));
}

/// A stream's own methods, or those of its dictionary.
pub fn stream(cx: &mut Cx, s: &mut Stream) {
    match cx.r.n(3) {
        0 => {
            let a = KE::<Filter>::gen(cx);
            s.filter(a.a());
            cx.m("filter", &[a.v()]);
        }
        1 => {
            cx.sub("decode_parms", &[]);
            let mut d = s.decode_parms();
            crate::w_object::w_decode_parms(cx, &mut d);
            done(cx, d);
        }
        _ => dict(cx, s),
    }
}

/// Any number of raw dictionary calls.
pub fn dicts(cx: &mut Cx, d: &mut Dict) {
    for _ in 0..cx.r.n(3) {
        dict(cx, d);
    }
}

/// A value in an `Obj`.
pub fn obj(cx: &mut Cx, o: Obj) {
    let x = some_value(cx);
    x.put(o);
    cx.ev(&format!("\"e\":\"prim\",\"v\":{}", x.json()));
}

fn log_len(cx: &mut Cx, n: i32, z: bool) {
    cx.ev(&format!("\"e\":\"len\",\"n\":{n},\"z\":{z}"));
}

/// A typed array of primitives.
pub fn items<Q: K + 'static, T: Primitive>(cx: &mut Cx, w: &mut TypedArray<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    let n = cx.r.n(3);
    for _ in 0..cx.elements.take().unwrap_or(n) {
        if cx.r.p(60) {
            let x = Q::gen(cx);
            w.item(x.a());
            cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[x.v()])));
        } else {
            let n = cx.r.n(4);
            let xs: Vec<Q> = (0..n).map(|_| Q::gen(cx)).collect();
            w.items(xs.iter().map(|x| x.a()));
            let vs: Vec<V> = xs.iter().map(|x| x.v()).collect();
            cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&vs)));
        }
        if cx.r.p(20) {
            log_len(cx, w.len(), w.is_empty());
        }
    }
}

pub fn refs(cx: &mut Cx, w: &mut TypedArray<'_, Ref>) {
    items::<KRef, Ref>(cx, w)
}

/// A typed array of names, which borrow.
pub fn name_items(cx: &mut Cx, w: &mut TypedArray<'_, Name<'_>>) {
    let n = cx.r.n(4);
    for _ in 0..cx.elements.take().unwrap_or(n) {
        let x = gname(&mut cx.r, 6);
        w.item(Name(keep(x.clone())));
        cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[name(&x)])));
    }
}
pub fn name_pairs(cx: &mut Cx, w: &mut TypedDict<'_, Name<'_>>) {
    let (key, x) = (gkey(&mut cx.r, 4), gname(&mut cx.r, 6));
    w.pair(Name(&key), Name(keep(x.clone())));
    cx.ev(&format!("\"e\":\"pairs\",\"v\":{}", jvs(&[ent(&key, name(&x))])));
}
pub fn text_items(cx: &mut Cx, w: &mut TypedArray<'_, TextStr<'_>>) {
    let n = cx.r.n(4);
    for _ in 0..cx.elements.take().unwrap_or(n) {
        let x = gtext(&mut cx.r, 6);
        w.item(TextStr(Box::leak(x.clone().into_boxed_str())));
        cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[text(&x)])));
    }
}
pub fn str_items(cx: &mut Cx, w: &mut TypedArray<'_, Str<'_>>) {
    let n = cx.r.n(4);
    for _ in 0..cx.elements.take().unwrap_or(n) {
        let x = gbytes(&mut cx.r, 6);
        w.item(Str(keep(x.clone())));
        cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[st(&x)])));
    }
}

/// A typed dictionary of primitives.
pub fn pairs<Q: K + 'static, T: Primitive>(cx: &mut Cx, w: &mut TypedDict<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    let n = cx.r.n(3);
    for _ in 0..cx.elements.take().unwrap_or(n) {
        let n = 1 + cx.r.n(2);
        let xs: Vec<(Vec<u8>, Q)> = (0..n).map(|_| (gkey(&mut cx.r, 4), Q::gen(cx))).collect();
        if n == 1 {
            w.pair(Name(&xs[0].0), xs[0].1.a());
        } else {
            w.pairs(xs.iter().map(|(k, x)| (Name(k), x.a())));
        }
        let vs: Vec<V> = xs.iter().map(|(k, x)| ent(k, x.v())).collect();
        cx.ev(&format!("\"e\":\"pairs\",\"v\":{}", jvs(&vs)));
        if cx.r.p(20) {
            log_len(cx, w.len(), w.is_empty());
        }
    }
}

pub fn ref_pairs(cx: &mut Cx, w: &mut TypedDict<'_, Ref>) {
    pairs::<KRef, Ref>(cx, w)
}

/// A typed array or dictionary of writers.
macro_rules! nested {
    () => {};
    ($arr:ident $dict:ident own $t:ident: $sub:expr; $($rest:tt)*) => {
        $crate::api::nested! { @ $arr $dict $t: |cx, s| $sub(cx, s); }
        $crate::api::nested! { $($rest)* }
    };
    ($arr:ident $dict:ident $t:ident: $sub:expr; $($rest:tt)*) => {
        $crate::api::nested! { @ $arr $dict $t: |cx: &mut Cx, mut s| { $sub(cx, &mut s); $crate::api::done(cx, s); }; }
        $crate::api::nested! { $($rest)* }
    };
    (@ $arr:ident $dict:ident $t:ident: |$cx:ident $(: &mut Cx)?, $($s:ident)+| $sub:expr;) => {
        #[allow(dead_code)]
        pub fn $arr<'a>(cx: &mut Cx, w: &mut TypedArray<'a, $t<'a>>) {
            let n = if cx.fuel > 0 { cx.r.n(3) } else { 0 };
            for _ in 0..cx.elements.take().unwrap_or(n) {
                cx.fuel -= 1;
                cx.ev("\"e\":\"tpush\"");
                { let ($cx, $($s)+) = (&mut *cx, w.push()); $sub; }
            }
            if cx.r.p(20) {
                cx.ev(&format!("\"e\":\"len\",\"n\":{},\"z\":{}", w.len(), w.is_empty()));
            }
        }
        #[allow(dead_code)]
        pub fn $dict<'a>(cx: &mut Cx, w: &mut TypedDict<'a, $t<'a>>) {
            let n = if cx.fuel > 0 { cx.r.n(3) } else { 0 };
            for _ in 0..cx.elements.take().unwrap_or(n) {
                cx.fuel -= 1;
                let key = $crate::gen::gkey(&mut cx.r, 4);
                cx.ev(&format!("\"e\":\"tins\",\"key\":{}", jb(&key)));
                { let ($cx, $($s)+) = (&mut *cx, w.insert(Name(&key))); $sub; }
            }
            if cx.r.p(20) {
                cx.ev(&format!("\"e\":\"len\",\"n\":{},\"z\":{}", w.len(), w.is_empty()));
            }
        }
    };
}
pub(crate) use nested;

// ---------------------------------------------------------------------------
// Programs.

/// Something that a program can be about: writes one or more objects into the
/// chunk, beginning with the given number.
pub type Root = (&'static str, fn(&mut Cx, &mut Chunk, i32));

/// A root for a type that can be started in any object.
macro_rules! root {
    (own $n:literal $t:ty: $f:expr) => {
        ($n, |cx: &mut Cx, ch: &mut Chunk, id: i32| {
            cx.ev(&format!("\"e\":\"ind\",\"c\":1,\"id\":{id}"));
            cx.ev(concat!("\"e\":\"start\",\"w\":\"", $n, "\""));
            let w: $t = ch.indirect(Ref::new(id)).start();
            $f(cx, w);
        })
    };
    ($n:literal $t:ty: $f:expr) => {
        ($n, |cx: &mut Cx, ch: &mut Chunk, id: i32| {
            cx.ev(&format!("\"e\":\"ind\",\"c\":1,\"id\":{id}"));
            cx.ev(concat!("\"e\":\"start\",\"w\":\"", $n, "\""));
            let mut w: $t = ch.indirect(Ref::new(id)).start();
            $f(cx, &mut w);
            $crate::api::done(cx, w);
        })
    };
}
pub(crate) use root;

/// A root for a method of `Chunk`.
macro_rules! chunk_root {
    (own $m:ident: $f:expr) => {
        (concat!("Chunk.", stringify!($m)), |cx: &mut Cx, ch: &mut Chunk, id: i32| {
            cx.ev(&format!(
                concat!("\"e\":\"chk\",\"c\":1,\"m\":\"", stringify!($m), "\",\"id\":{},\"x\":[]"), id
            ));
            cx.hit(concat!("Chunk.", stringify!($m)));
            let w = ch.$m(Ref::new(id));
            $f(cx, w);
        })
    };
    ($m:ident: $f:expr) => {
        (concat!("Chunk.", stringify!($m)), |cx: &mut Cx, ch: &mut Chunk, id: i32| {
            cx.ev(&format!(
                concat!("\"e\":\"chk\",\"c\":1,\"m\":\"", stringify!($m), "\",\"id\":{},\"x\":[]"), id
            ));
            cx.hit(concat!("Chunk.", stringify!($m)));
            let mut w = ch.$m(Ref::new(id));
            $f(cx, &mut w);
            $crate::api::done(cx, w);
        })
    };
    (stream $m:ident: $f:expr) => {
        (concat!("Chunk.", stringify!($m)), |cx: &mut Cx, ch: &mut Chunk, id: i32| {
            let x = $crate::gen::gdata(&mut cx.r, 12);
            cx.ev(&format!(
                concat!("\"e\":\"chk\",\"c\":1,\"m\":\"", stringify!($m), "\",\"id\":{},\"x\":{}"),
                id, jb(&x)
            ));
            cx.hit(concat!("Chunk.", stringify!($m)));
            let mut w = ch.$m(Ref::new(id), &x);
            $f(cx, &mut w);
            $crate::api::done(cx, w);
        })
    };
}
pub(crate) use chunk_root;

/// All (root, method) pairs.
pub fn pairs_of(roots: &[Root]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    for (k, (_, f)) in roots.iter().enumerate() {
        let mut cx = Cx::new(0);
        cx.probe = true;
        f(&mut cx, &mut Chunk::new(), 1);
        for j in 0..cx.probed.max(1) {
            out.push((k, j));
        }
    }
    out
}

/// Run the n-th program over the given roots.
pub fn program(cx: &mut Cx, roots: &[Root], table: &[(usize, usize)], n: usize, pretty: bool) -> Chunk {
    let (k, j) = table[n % table.len()];
    let mut ch = Chunk::with_settings(Settings { pretty });
    cx.ev(&format!("\"e\":\"new\",\"c\":1,\"kind\":\"chunk\",\"pretty\":{pretty}"));
    if cx.r.p(20) && !cx.alone {
        let x = some_value(cx);
        cx.ev("\"e\":\"ind\",\"c\":1,\"id\":77");
        cx.ev(&format!("\"e\":\"prim\",\"v\":{}", x.json()));
        x.put(ch.indirect(Ref::new(77)));
    }
    cx.rounds = 1;
    cx.round = 0;
    while cx.round < cx.rounds {
        cx.force = Some(j);
        cx.fuel = if cx.round == 0 { 12 } else { 3 };
        roots[k].1(cx, &mut ch, if cx.round == 0 { 1 } else { 100 + cx.round as i32 });
        cx.force = None;
        cx.round += 1;
    }
    if cx.r.p(30) && !cx.alone {
        let k = cx.r.n(roots.len());
        cx.fuel = 6;
        roots[k].1(cx, &mut ch, 2);
    }
    ch
}

/// What an observation of the chunk says.
pub fn seen(c: usize, ch: &Chunk) -> String {
    crate::core::obs(c, ch).trim_start_matches("\"e\":\"obs\",").into()
}
