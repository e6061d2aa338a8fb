//! Streams and trees.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_stream: Stream<'_> as "Stream" + dict {
    set filter(KE<Filter>);
    sub decode_parms() w_decode_parms;
}}
walker! { w_decode_parms: DecodeParms<'_> as "DecodeParms" + dict {
    set predictor(KE<Predictor>);
    set columns(KInt);
    set k(KInt);
    set end_of_line(KBool);
    set encoded_byte_align(KBool);
    set rows(KInt);
    set end_of_block(KBool);
    set black_is_1(KBool);
    set damaged_rows_before_error(KInt);
    set jbig2_globals(KRef);
    set name(KName);
    try colors(KInt);
    try bits_per_component(KBits);
    set early_change(KBool);
    set color_transform(KBool);
    set crypt_type();
}}

/// Trees over values of any primitive type.
pub fn name_tree<Q: K + 'static, T: Primitive + 'static>(cx: &mut Cx, w: &mut NameTree<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    walk(cx, "NameTree", w, &[
        method!(sub kids() refs),
        method!(sub names() name_tree_entries::<Q, T>),
        method!(set limits(KName, KName)),
    ]);
}
pub fn name_tree_entries<Q: K + 'static, T: Primitive + 'static>(cx: &mut Cx, w: &mut NameTreeEntries<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    walk(cx, "NameTreeEntries", w, &[method!(set insert(KStr, Q))]);
}
pub fn number_tree<Q: K + 'static, T: Primitive + 'static>(cx: &mut Cx, w: &mut NumberTree<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    walk(cx, "NumberTree", w, &[
        method!(sub kids() refs),
        method!(sub nums() number_tree_entries::<Q, T>),
        method!(set limits(KInt, KInt)),
    ]);
}
pub fn number_tree_entries<Q: K + 'static, T: Primitive + 'static>(cx: &mut Cx, w: &mut NumberTreeEntries<'_, T>)
where
    Q: for<'x> K<A<'x> = T>,
{
    walk(cx, "NumberTreeEntries", w, &[method!(set insert(KInt, Q))]);
}

enums! {
    Filter: AsciiHexDecode Ascii85Decode LzwDecode FlateDecode RunLengthDecode CcittFaxDecode Jbig2Decode DctDecode JpxDecode Crypt;
    Predictor: None Tiff PngNone PngSub PngUp PngAverage PngPaeth PngOptimum;
}

pub const ROOTS: &[Root] = &[
    chunk_root!(stream stream: w_stream),
    chunk_root!(name_tree: name_tree::<KRef, Ref>),
    chunk_root!(number_tree: number_tree::<KRef, Ref>),
    root!("NameTree" NameTree<'_, i32>: name_tree::<KInt, i32>),
    root!("NameTree" NameTree<'_, Rect>: name_tree::<KRect, Rect>),
    root!("NameTreeEntries" NameTreeEntries<'_, f32>: name_tree_entries::<KF, f32>),
    root!("NumberTree" NumberTree<'_, bool>: number_tree::<KBool, bool>),
    root!("NumberTree" NumberTree<'_, Date>: number_tree::<KDate, Date>),
    root!("NumberTreeEntries" NumberTreeEntries<'_, i32>: number_tree_entries::<KInt, i32>),
    root!("DecodeParms" DecodeParms<'_>: w_decode_parms),
    root!("A" TypedArray<'_, f32>: items::<KF, f32>),
    root!("T" TypedDict<'_, Name<'_>>: name_pairs),
];
