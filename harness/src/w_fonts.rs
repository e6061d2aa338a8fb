//! Fonts.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_type1_font: Type1Font<'_> as "Type1Font" + dict {
    set name(KName);
    set base_font(KName);
    set first_char(KU8);
    set last_char(KU8);
    set widths(KFs);
    set font_descriptor(KRef);
    set encoding_predefined(KName);
    sub encoding_custom() w_encoding;
    set to_unicode(KRef);
}}
walker! { w_type3_font: Type3Font<'_> as "Type3Font" + dict {
    set name(KName);
    set bbox(KRect);
    set matrix(KF6);
    sub char_procs() ref_pairs;
    set encoding_predefined(KName);
    sub encoding_custom() w_encoding;
    set first_char(KU8);
    set last_char(KU8);
    set widths(KFs);
    set font_descriptor(KRef);
    sub resources() w_resources;
    set to_unicode(KRef);
}}
walker! { w_encoding: Encoding<'_> as "Encoding" + dict {
    set base_encoding(KName);
    sub differences() w_differences;
}}
walker! { w_differences: Differences<'_> as "Differences" + array {
    set consecutive(KU8, KNames);
}}
walker! { w_type0_font: Type0Font<'_> as "Type0Font" + dict {
    set base_font(KName);
    set encoding_predefined(KName);
    set encoding_cmap(KRef);
    set descendant_font(KRef);
    set to_unicode(KRef);
}}
walker! { w_cid_font: CidFont<'_> as "CidFont" + dict {
    set subtype(KE<CidFontType>);
    set base_font(KName);
    set font_descriptor(KRef);
    set default_width(KF);
    sub widths() w_widths;
    set cid_to_gid_map_predefined(KName);
    set cid_to_gid_map_stream(KRef);
    set system_info(KSysInfo);
}}
walker! { w_widths: Widths<'_> as "Widths" + array {
    set consecutive(KU16, KFs);
    set same(KU16, KU16, KF);
}}
walker! { w_font_descriptor: FontDescriptor<'_> as "FontDescriptor" + dict {
    set name(KName);
    set family(KStr);
    set stretch(KE<FontStretch>);
    set flags(KFl<FontFlags>);
    set bbox(KRect);
    set italic_angle(KF);
    set ascent(KF);
    set descent(KF);
    set leading(KF);
    set cap_height(KF);
    set x_height(KF);
    set stem_v(KF);
    set stem_h(KF);
    set avg_width(KF);
    set max_width(KF);
    set missing_width(KF);
    set font_file(KRef);
    set font_file2(KRef);
    set font_file3(KRef);
    set char_set(KStr);
    sub descriptor_override() w_font_descriptor_override;
    set cid_set(KRef);
    set weight(KU16);
    set style(KU8, KU8, KPanose);
}}
walker! { w_font_descriptor_override: FontDescriptorOverride<'_> as "FontDescriptorOverride" + dict {
    sub custom_class(KName) w_font_descriptor;
    set custom_class_ref(KName, KRef);
    sub cjk_class(KE<CjkClass>) w_font_descriptor;
    set cjk_class_ref(KE<CjkClass>, KRef);
}}
walker! { w_cmap: Cmap<'_> as "Cmap" + stream {
    set name(KName);
    set writing_mode(KE<WMode>);
    set use_cmap_stream(KRef);
    set use_cmap_predefined(KName);
    set system_info(KSysInfo);
}}

enums! {
    CidFontType: Type0 Type2;
    CjkClass: Alphabetic AlphaNum Dingbats DingbatsRot Generic GenericRot Hangul Hanja Hanzi HRoman HRomanRot HKana HKanaRot HojoKanji Kana Kanji Proportional ProportionalRot Ruby;
    FontStretch: UltraCondensed ExtraCondensed Condensed SemiCondensed Normal SemiExpanded Expanded ExtraExpanded UltraExpanded;
    WMode: Horizontal Vertical;
}
flags! {
    FontFlags: FIXED_PITCH SERIF SYMBOLIC SCRIPT NON_SYMBOLIC ITALIC ALL_CAP SMALL_CAP FORCE_BOLD;
}

pub const ROOTS: &[Root] = &[
    chunk_root!(type1_font: w_type1_font),
    chunk_root!(type3_font: w_type3_font),
    root!("Encoding" Encoding<'_>: w_encoding),
    root!("Differences" Differences<'_>: w_differences),
    chunk_root!(type0_font: w_type0_font),
    chunk_root!(cid_font: w_cid_font),
    root!("Widths" Widths<'_>: w_widths),
    chunk_root!(font_descriptor: w_font_descriptor),
    root!("FontDescriptorOverride" FontDescriptorOverride<'_>: w_font_descriptor_override),
    chunk_root!(stream cmap: w_cmap),
];
