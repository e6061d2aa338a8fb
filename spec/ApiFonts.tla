-------------------------------- MODULE ApiFonts --------------------------------
(* Fonts (9.5 to 9.10). *)
EXTENDS ApiBase

FontsApi == [
    Type1Font |-> W("dict", <<Key("Type", Name("Font")), Key("Subtype", Name("Type1"))>>,
      [
        name |-> "Name", base_font |-> "BaseFont", first_char |-> "FirstChar",
        last_char |-> "LastChar", widths |-> "Widths",
        font_descriptor |-> "FontDescriptor",
        encoding_predefined |-> "Encoding", to_unicode |-> "ToUnicode"],
      [
        encoding_custom |-> <<"Encoding", "Encoding">>]),
    Type3Font |-> W("dict", <<Key("Type", Name("Font")), Key("Subtype", Name("Type3"))>>,
      [
        name |-> "Name", bbox |-> "FontBBox", matrix |-> "FontMatrix",
        encoding_predefined |-> "Encoding", first_char |-> "FirstChar",
        last_char |-> "LastChar", widths |-> "Widths",
        font_descriptor |-> "FontDescriptor", to_unicode |-> "ToUnicode"],
      [
        char_procs |-> <<"CharProcs", "T">>,
        encoding_custom |-> <<"Encoding", "Encoding">>,
        resources |-> <<"Resources", "Resources">>]),
    Encoding |-> W("dict", <<Key("Type", Name("Encoding"))>>,
      [
        base_encoding |-> "BaseEncoding"],
      [
        differences |-> <<"Differences", "Differences">>]),
    Differences |-> W("array", <<>>,
      [
        consecutive |-> "*"],
      NoSub),
    Type0Font |-> W("dict", <<Key("Type", Name("Font")), Key("Subtype", Name("Type0"))>>,
      [
        base_font |-> "BaseFont", encoding_predefined |-> "Encoding",
        encoding_cmap |-> "Encoding", descendant_font |-> "*",
        to_unicode |-> "ToUnicode"],
      NoSub),
    CidFont |-> W("dict", <<Key("Type", Name("Font"))>>,
      [
        subtype |-> "Subtype", base_font |-> "BaseFont", system_info |-> "CIDSystemInfo",
        font_descriptor |-> "FontDescriptor", default_width |-> "DW",
        cid_to_gid_map_predefined |-> "CIDToGIDMap",
        cid_to_gid_map_stream |-> "CIDToGIDMap"],
      [
        widths |-> <<"W", "Widths">>]),
    Widths |-> W("array", <<>>,
      [
        consecutive |-> "*", same |-> "*"],
      NoSub),
    FontDescriptor |-> W("dict", <<Key("Type", Name("FontDescriptor"))>>,
      [
        name |-> "FontName", family |-> "FontFamily",
        stretch |-> "FontStretch", weight |-> "FontWeight", flags |-> "Flags",
        bbox |-> "FontBBox", italic_angle |-> "ItalicAngle",
        ascent |-> "Ascent", descent |-> "Descent", leading |-> "Leading",
        cap_height |-> "CapHeight", x_height |-> "XHeight",
        stem_v |-> "StemV", stem_h |-> "StemH", avg_width |-> "AvgWidth",
        max_width |-> "MaxWidth", missing_width |-> "MissingWidth",
        font_file |-> "FontFile", font_file2 |-> "FontFile2",
        font_file3 |-> "FontFile3", char_set |-> "CharSet", style |-> "*",
        cid_set |-> "CIDSet"],
      [
        descriptor_override |-> <<"FD", "FontDescriptorOverride">>]),
    FontDescriptorOverride |-> W("dict", <<>>,
      [custom_class_ref |-> "*", cjk_class_ref |-> "*"],
      [custom_class |-> <<"*", "FontDescriptor">>, cjk_class |-> <<"*", "FontDescriptor">>]),
    Cmap |-> W("stream", <<Key("Type", Name("CMap"))>>,
      [
        name |-> "CMapName", system_info |-> "CIDSystemInfo", writing_mode |-> "WMode",
        use_cmap_stream |-> "UseCMap", use_cmap_predefined |-> "UseCMap"],
      NoSub)]

FontsNames == [
    CidFontType_Type0 |-> "CIDFontType0",
    CidFontType_Type2 |-> "CIDFontType2",
    CjkClass_Alphabetic |-> "Alphabetic", CjkClass_AlphaNum |-> "AlphaNum",
    CjkClass_Dingbats |-> "Dingbats", CjkClass_DingbatsRot |-> "DingbatsRot",
    CjkClass_Generic |-> "Generic", CjkClass_GenericRot |-> "GenericRot",
    CjkClass_Hangul |-> "Hangul", CjkClass_Hanja |-> "Hanja",
    CjkClass_Hanzi |-> "Hanzi", CjkClass_HRoman |-> "HRoman",
    CjkClass_HRomanRot |-> "HRomanRot", CjkClass_HKana |-> "HKana",
    CjkClass_HKanaRot |-> "HKanaRot", CjkClass_HojoKanji |-> "HojoKanji",
    CjkClass_Kana |-> "Kana", CjkClass_Kanji |-> "Kanji",
    CjkClass_Proportional |-> "Proportional",
    CjkClass_ProportionalRot |-> "ProportionalRot", CjkClass_Ruby |-> "Ruby",
    FontStretch_UltraCondensed |-> "UltraCondensed",
    FontStretch_ExtraCondensed |-> "ExtraCondensed",
    FontStretch_Condensed |-> "Condensed",
    FontStretch_SemiCondensed |-> "SemiCondensed",
    FontStretch_Normal |-> "Normal",
    FontStretch_SemiExpanded |-> "SemiExpanded",
    FontStretch_Expanded |-> "Expanded",
    FontStretch_ExtraExpanded |-> "ExtraExpanded",
    FontStretch_UltraExpanded |-> "UltraExpanded"]

FontsInts == [
    WMode_Horizontal |-> 0, WMode_Vertical |-> 1, FontFlags_FIXED_PITCH |-> 1,
    FontFlags_SERIF |-> 2, FontFlags_SYMBOLIC |-> 4, FontFlags_SCRIPT |-> 8,
    FontFlags_NON_SYMBOLIC |-> 32, FontFlags_ITALIC |-> 64,
    FontFlags_ALL_CAP |-> 65536, FontFlags_SMALL_CAP |-> 131072,
    FontFlags_FORCE_BOLD |-> 262144]
===============================================================================
