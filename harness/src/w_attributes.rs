//! Structure attributes.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { m_attributes: Attributes<'_> as "Attributes" + dict {
    set owner(KE<AttributeOwner>, KBool);
    sub user() a_user_property;
}}
walker! { w_user_property: UserProperty<'_> as "UserProperty" + dict {
    text name();
    own value() obj;
    text format();
    set hidden(KBool);
}}
walker! { w_layout_attributes: LayoutAttributes<'_> as "LayoutAttributes" + dict {
    set placement(KE<Placement>);
    set writing_mode(KE<WritingMode>);
    set background_color(KF3);
    set color(KF3);
    set space_before(KF);
    set space_after(KF);
    set start_indent(KF);
    set end_indent(KF);
    set text_indent(KF);
    set text_align(KE<TextAlign>);
    set width(KF);
    set height(KF);
    set bbox(KRect);
    set block_align(KE<BlockAlign>);
    set inline_align(KE<InlineAlign>);
    set column_count(KInt);
    own column_widths() w_track_sizes;
    own column_gap() w_track_sizes;
    set baseline_shift(KF);
    set text_position(KE<LayoutTextPosition>);
    set text_decoration_type(KE<TextDecorationType>);
    set text_decoration_color(KF3);
    set text_decoration_thickness(KF);
    set ruby_align(KE<RubyAlign>);
    set ruby_position(KE<RubyPosition>);
    set border_color(KSides<KF3>);
    set border_style(KSides<KE<LayoutBorderStyle>>);
    set border_thickness(KSides<KF>);
    set padding(KSides<KF>);
    set table_border_style(KSides<KE<LayoutBorderStyle>>);
    set table_padding(KSides<KF>);
    set line_height(KLineHeight);
    set glyph_orientation_vertical(KGlyph);
}}
walker! { w_list_attributes: ListAttributes<'_> as "ListAttributes" + dict {
    set list_numbering(KE<ListNumbering>);
    set continued_list(KBool);
    set continued_from(KStr);
}}
walker! { w_field_attributes: FieldAttributes<'_> as "FieldAttributes" + dict {
    set role(KE<FieldRole>);
    text description();
    set checked(KE<FieldState>, KBool);
}}
walker! { w_table_attributes: TableAttributes<'_> as "TableAttributes" + dict {
    set row_span(KInt);
    set col_span(KInt);
    sub headers() str_items;
    set scope(KE<TableHeaderScope>);
    text summary();
    text short();
}}
walker! { w_artifact_attributes: ArtifactAttributes<'_> as "ArtifactAttributes" + dict {
    set artifact_type(KE<ArtifactType>);
    set bbox(KRect);
    set subtype(KArtifactSubtype);
}}
walker! { w_f_e_note_attributes: FENoteAttributes<'_> as "FENoteAttributes" + dict {
    set note_type(KE<NoteType>);
}}

/// Attributes, either of one of the known owners, or of another.
pub fn w_attributes(cx: &mut Cx, w: Attributes<'_>) {
    macro_rules! known {
        ($m:ident $f:ident) => {
            |cx, w| {
                cx.conv(stringify!($m), &[]);
                let mut s = w.$m();
                $f(cx, &mut s);
                done(cx, s);
            }
        };
    }
    once(cx, "Attributes", w, &[
        known!(layout w_layout_attributes),
        known!(list w_list_attributes),
        known!(field w_field_attributes),
        known!(table w_table_attributes),
        known!(artifact w_artifact_attributes),
        known!(note w_f_e_note_attributes),
        |cx, w| {
            let r = KRef::gen(cx);
            cx.conv("namespace", &[r.v()]);
            let mut s = w.namespace(r.a());
            dicts(cx, &mut s);
            done(cx, s);
        },
        |cx, mut w| {
            m_attributes(cx, &mut w);
            done(cx, w);
        },
        |cx, mut w| {
            // All owners, or the user's properties.
            cx.force = Some(1);
            m_attributes(cx, &mut w);
            done(cx, w);
        },
        |cx, mut w| {
            cx.force = Some(0);
            m_attributes(cx, &mut w);
            done(cx, w);
        },
    ]);
}

pub fn w_track_sizes(cx: &mut Cx, w: TrackSizes<'_>) {
    once(cx, "TrackSizes", w, &[
        |cx, w| {
            let x = KF::gen(cx);
            w.uniform(x.a());
            cx.fill("uniform", &[x.v()]);
        },
        |cx, w| {
            cx.conv("individual", &[]);
            let mut s = w.individual();
            items::<KF, f32>(cx, &mut s);
            done(cx, s);
        },
    ]);
}

nested! {
    a_attributes t_attributes own Attributes: w_attributes;
    a_user_property t_user_property UserProperty: w_user_property;
}

enums! {
    Placement: Block Inline Before Start End;
    WritingMode: LtrTtb RtlTtb TtbRtl;
    LayoutBorderStyle: None Hidden Solid Dashed Dotted Double Groove Ridge Inset Outset;
    TextAlign: Start Center End Justify;
    BlockAlign: Before Middle After Justify;
    InlineAlign: Start Center End;
    LayoutTextPosition: Normal Superscript Subscript;
    TextDecorationType: None Underline Overline LineThrough;
    RubyAlign: Start Center End Justify Distribute;
    RubyPosition: Before After Warichu Inline;
    ListNumbering: None Unordered Ordered Description Disc Circle Square Decimal LowerRoman UpperRoman LowerAlpha UpperAlpha;
    FieldRole: Button CheckBox RadioButton TextField ListBox;
    FieldState: Unchecked Checked Neutral;
    TableHeaderScope: Row Column Both;
    NoteType: Footnote Endnote None;
    AttributeOwner: Layout List PrintField Table Artifact Xml Html3_2 Html4 Html5 Oeb Rtf1_05 Css1 Css2 Css3 Rdfa1_1 Aria1_1 FENote NSO User;
}

pub const ROOTS: &[Root] = &[
    root!(own "TrackSizes" TrackSizes<'_>: w_track_sizes),
    root!(own "Attributes" Attributes<'_>: w_attributes),
    root!("UserProperty" UserProperty<'_>: w_user_property),
    root!("LayoutAttributes" LayoutAttributes<'_>: w_layout_attributes),
    root!("ListAttributes" ListAttributes<'_>: w_list_attributes),
    root!("FieldAttributes" FieldAttributes<'_>: w_field_attributes),
    root!("TableAttributes" TableAttributes<'_>: w_table_attributes),
    root!("ArtifactAttributes" ArtifactAttributes<'_>: w_artifact_attributes),
    root!("FENoteAttributes" FENoteAttributes<'_>: w_f_e_note_attributes),
];
