//! The typed writers, and kinds of arguments that only some of them take.

use crate::api::*;
use crate::cx::*;
use crate::gen::*;
use crate::val::*;
use pdf_writer::types::*;
use pdf_writer::*;
use std::num::NonZeroU16;

pub use crate::w_attributes::*;
pub use crate::w_fonts::*;
pub use crate::w_forms::*;
pub use crate::w_graphics::*;
pub use crate::w_interactive::*;
pub use crate::w_object::*;
pub use crate::w_structure::*;

kinds! {
    KU16(u16) => u16: |cx| *cx.r.of(&[0, 1, 9, 10, 255, 256, 999, 65535]), |x| i(*x as i32), |x| *x;
    KB2([bool; 2]) => [bool; 2]: |cx| [cx.r.p(50), cx.r.p(50)], |x| arr(vec![b(x[0]), b(x[1])]), |x| *x;
    KBytes(Vec<u8>) => &'x [u8]: |cx| gbytes(&mut cx.r, 12), |x| st(x), |x| x;
    KStrText(String) => &'x str: |cx| gtext(&mut cx.r, 6), |x| text(x), |x| x;
    KStr2([Vec<u8>; 2]) => [Str<'x>; 2]: |cx| [gbytes(&mut cx.r, 8), gbytes(&mut cx.r, 8)],
        |x| arr(x.iter().map(|x| st(x)).collect()), |x| [Str(&x[0]), Str(&x[1])];
    KPanose([u8; 10]) => [u8; 10]: |cx| std::array::from_fn(|_| cx.r.n(256) as u8), |x| st(x), |x| *x;
    KOptFs(Option<Vec<f32>>) => Option<&'x [f32]>: |cx| cx.r.p(70).then(|| KFs::gen(cx).0),
        |x| x.as_ref().map_or(null(), |x| fs(x)), |x| x.as_deref();
    KOptText(Option<String>) => Option<TextStr<'x>>: |cx| cx.r.p(70).then(|| gtext(&mut cx.r, 6)),
        |x| x.as_ref().map_or(null(), |x| text(x)), |x| x.as_ref().map(|x| TextStr(x));
    KTextPairs(Vec<(String, String)>) => Vec<(TextStr<'x>, TextStr<'x>)>:
        |cx| (0..cx.r.n(4)).map(|_| (gtext(&mut cx.r, 5), gtext(&mut cx.r, 5))).collect(),
        |x| arr(x.iter().map(|(x, y)| arr(vec![text(x), text(y)])).collect()),
        |x| x.iter().map(|(x, y)| (TextStr(x), TextStr(y))).collect();
    // Numbers of which some are refused.
    KIccN(i32) => i32: |cx| *cx.r.of(&[1, 3, 4, 1, 3, 4, 0, 2, 5, -1, i32::MAX, i32::MIN]), |x| i(*x), |x| *x;
    KBits(i32) => i32: |cx| *cx.r.of(&[1, 2, 4, 8, 16, 1, 2, 4, 8, 16, 0, 3, 5, 15, 17, 32, -1, -8]), |x| i(*x), |x| *x;
    KStep(f32) => f32: |cx| if cx.r.p(30) { *cx.r.of(&[0.0, -0.0]) } else { gfloat(&mut cx.r) }, |x| f(*x), |x| *x;
    KUsage([Option<bool>; 9]) => CertificateKeyUsage:
        |cx| std::array::from_fn(|_| *cx.r.of(&[None, Some(false), Some(true)])),
        |x| v("usage", x.iter().map(|x| x.map_or(2, |x| x as i64)).collect(), vec![]),
        |x| CertificateKeyUsage {
            digital_signature: x[0],
            non_repudiation: x[1],
            key_encipherment: x[2],
            data_encipherment: x[3],
            key_agreement: x[4],
            key_cert_sign: x[5],
            crl_sign: x[6],
            encipher_only: x[7],
            decipher_only: x[8],
        };
    KSysInfo((Vec<u8>, Vec<u8>, i32)) => SystemInfo<'x>:
        |cx| (gbytes(&mut cx.r, 6), gbytes(&mut cx.r, 6), gint(&mut cx.r)),
        |x| arr(vec![st(&x.0), st(&x.1), i(x.2)]),
        |x| SystemInfo { registry: Str(&x.0), ordering: Str(&x.1), supplement: x.2 };
    KMdp(usize) => MdpSignatureType: |cx| cx.variant(4),
        |x| en(["MdpSignatureType_ApprovalSignature", "AccessPermissions_NoChanges",
            "AccessPermissions_FillAndSign", "AccessPermissions_Annotations"][*x]),
        |x| match x {
            0 => MdpSignatureType::ApprovalSignature,
            1 => MdpSignatureType::CertificationSignature(AccessPermissions::NoChanges),
            2 => MdpSignatureType::CertificationSignature(AccessPermissions::FillAndSign),
            _ => MdpSignatureType::CertificationSignature(AccessPermissions::Annotations),
        };
}

/// Any number of arguments of one kind.
pub struct KMany<Q>(pub Vec<Q>);
impl<Q: K> K for KMany<Q> {
    type A<'x> = Vec<Q::A<'x>> where Q: 'x;
    fn gen(cx: &mut Cx) -> Self {
        const NS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 100];
        let few = if cx.r.p(70) { cx.r.n(4) } else { cx.r.n(10) };
        let n = match cx.r.pick(NS) {
            Some(&n) => n,
            None if cx.sweep.is_some() && cx.r.p(50) => 1,
            None => few,
        };
        // Each next one is the next of its kind, or any.
        let sweep = cx.sweep;
        let any = cx.r.p(50);
        // Long lists of the same special value, and of any.
        let special = cx.r.special;
        if special.is_some_and(|k| k >= NS.len()) {
            cx.r.special = None;
        }
        let well = cx.r.known;
        let one = (n > 0 && cx.r.p(60)).then(|| cx.r.n(n));
        let out = (0..n).map(|j| {
            cx.r.known = well.filter(|_| one.is_none_or(|k| j == k));
            cx.sweep = sweep.filter(|_| j == 0 || !any).map(|(at, of)| (at + j, of));
            let x = Q::gen(cx);
            let of = cx.sweep.map(|x| x.1);
            cx.sweep = sweep.map(|(at, old)| (at, of.unwrap_or(old).max(old)));
            x
        }).collect::<Vec<_>>();
        cx.r.special = special;
        cx.r.known = well;
        KMany(out)
    }
    fn v(&self) -> V {
        arr(self.0.iter().map(|x| x.v()).collect())
    }
    fn a(&self) -> Vec<Q::A<'_>> {
        self.0.iter().map(|x| x.a()).collect()
    }
}

pub struct KOpt<Q>(pub Option<Q>);
impl<Q: K> K for KOpt<Q> {
    type A<'x> = Option<Q::A<'x>> where Q: 'x;
    fn gen(cx: &mut Cx) -> Self {
        KOpt(cx.r.p(60).then(|| Q::gen(cx)))
    }
    fn v(&self) -> V {
        self.0.as_ref().map_or(null(), |x| x.v())
    }
    fn a(&self) -> Option<Q::A<'_>> {
        self.0.as_ref().map(|x| x.a())
    }
}

/// One value for each side, in the order before, after, start, end.
pub struct KSides<Q>(Vec<Q>, usize);
impl<Q: K> K for KSides<Q> where for<'x> Q::A<'x>: Clone {
    type A<'x> = Sides<Q::A<'x>> where Q: 'x;
    fn gen(cx: &mut Cx) -> Self {
        let how = cx.r.n(3);
        KSides((0..4).map(|_| Q::gen(cx)).collect(), how)
    }
    fn v(&self) -> V {
        let x = &self.0;
        v("sides", vec![], (0..4).map(|k| x[if self.1 == 0 { 0 } else { k }].v()).collect())
    }
    fn a(&self) -> Sides<Q::A<'_>> {
        let x = &self.0;
        match self.1 {
            0 => Sides::uniform(x[0].a()),
            1 => Sides::new(x[0].a(), x[1].a(), x[2].a(), x[3].a()),
            _ => Sides::from_array([x[0].a(), x[1].a(), x[2].a(), x[3].a()]),
        }
    }
}

/// Enumerations that also have a variant for anything else.
macro_rules! custom {
    ($($k:ident: $t:ident { $($v:ident)* } $c:ident;)*) => {$(
        pub struct $k(usize, Vec<u8>);
        impl $k {
            const N: &'static [&'static str] = &[$(concat!(stringify!($t), "_", stringify!($v))),*];
        }
        impl K for $k {
            type A<'x> = $t<'x>;
            fn gen(cx: &mut Cx) -> Self {
                $k(cx.variant(Self::N.len() + 1), gname(&mut cx.r, 6))
            }
            fn v(&self) -> V {
                Self::N.get(self.0).map_or(name(&self.1), |s| en(s))
            }
            fn a(&self) -> $t<'_> {
                vec![$($t::$v),*].into_iter().nth(self.0).unwrap_or($t::$c(Name(&self.1)))
            }
        }
    )*};
}
custom! {
    KPhonetic: PhoneticAlphabet { Ipa XSampa Pinyin WadeGiles } Custom;
    KIcon: AnnotationIcon { Comment Key Note Help NewParagraph Paragraph Insert Graph PushPin Paperclip Tag } Custom;
    KUrlType: CertificateUrlType { Browser } Custom;
    KIntent: OutputIntentSubtype { PDFX PDFA PDFE } Custom;
    KArtifactSubtype: ArtifactSubtype { Header Footer Watermark PageNumber Bates LineNumber Redaction } Custom;
    KColorSpaceOperand: ColorSpaceOperand { DeviceGray DeviceRgb DeviceCmyk Pattern } Named;
}

pub struct KLineHeight(usize, f32);
impl K for KLineHeight {
    type A<'x> = LineHeight;
    fn gen(cx: &mut Cx) -> Self {
        KLineHeight(cx.variant(3), gfloat(&mut cx.r))
    }
    fn v(&self) -> V {
        match self.0 {
            0 => en("LineHeight_Normal"),
            1 => en("LineHeight_Auto"),
            _ => f(self.1),
        }
    }
    fn a(&self) -> LineHeight {
        match self.0 {
            0 => LineHeight::Normal,
            1 => LineHeight::Auto,
            _ => LineHeight::Custom(self.1),
        }
    }
}

pub struct KGlyph(usize, i32);
impl K for KGlyph {
    type A<'x> = GlyphOrientationVertical;
    fn gen(cx: &mut Cx) -> Self {
        KGlyph(cx.variant(2), *cx.r.of(&[-180, -90, 0, 90, 180, 270, 360]))
    }
    fn v(&self) -> V {
        if self.0 == 0 { en("GlyphOrientationVertical_Auto") } else { i(self.1) }
    }
    fn a(&self) -> GlyphOrientationVertical {
        if self.0 == 0 { GlyphOrientationVertical::Auto } else { GlyphOrientationVertical::Angle(self.1) }
    }
}

/// Roles of PDF 2.0, with headings of all levels.
pub struct KRole2(pub StructRole2, pub V);
macro_rules! roles2 {
    ($($v:ident)*) => {
        pub const ROLES2: &[(StructRole2, &'static str)] =
            &[$((StructRole2::$v, concat!("StructRole2_", stringify!($v)))),*];
    };
}
roles2! {
    Document DocumentFragment Part Sect Div Aside NonStruct P StructuredHeading Title FENote Sub
    Lbl Span Em Strong Link Annot Form Ruby RB RT RP Warichu WT WP L LI LBody Table TR TH TD THead
    TBody TFoot Caption Figure Formula Artifact
}
pub const LEVELS: &[u16] = &[1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 42, 99, 100, 999, 1000, 9999, 10000, 12345, 65535];
impl K for KRole2 {
    type A<'x> = StructRole2;
    fn gen(cx: &mut Cx) -> Self {
        let k = cx.variant(ROLES2.len() + LEVELS.len());
        if let Some((r, s)) = ROLES2.get(k) {
            KRole2(*r, en(s))
        } else {
            let n = LEVELS[k - ROLES2.len()];
            KRole2(StructRole2::Heading(NonZeroU16::new(n).unwrap()), v("heading", vec![n as i64], vec![]))
        }
    }
    fn v(&self) -> V {
        self.1.clone()
    }
    fn a(&self) -> StructRole2 {
        self.0
    }
}
