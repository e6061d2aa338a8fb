-------------------------------- MODULE ApiAttributes --------------------------------
(* Standard structure attributes (14.8.5). *)
EXTENDS ApiBase

AttributesApi == [
    Attributes |-> W("dict", <<>>, [owner |-> "*"], [user |-> <<"P", "A:UserProperty">>]),
    TrackSizes |-> W("slot", <<>>, NoSet, NoSub),
    UserProperty |-> W("dict", <<>>,
      [
        name |-> "N", format |-> "F", hidden |-> "H"],
      [
        value |-> <<"V", "Obj">>]),
    LayoutAttributes |-> W("dict", <<Key("O", Name("Layout"))>>,
      [
        placement |-> "Placement", writing_mode |-> "WritingMode",
        background_color |-> "BackgroundColor", border_color |-> "BorderColor",
        border_style |-> "BorderStyle", border_thickness |-> "BorderThickness", padding |-> "Padding",
        color |-> "Color", space_before |-> "SpaceBefore",
        space_after |-> "SpaceAfter", start_indent |-> "StartIndent",
        end_indent |-> "EndIndent", text_indent |-> "TextIndent",
        text_align |-> "TextAlign", width |-> "Width", height |-> "Height",
        bbox |-> "BBox", block_align |-> "BlockAlign",
        inline_align |-> "InlineAlign", table_border_style |-> "TBorderStyle",
        table_padding |-> "TPadding", column_count |-> "ColumnCount",
        line_height |-> "LineHeight", baseline_shift |-> "BaselineShift",
        text_position |-> "TextPosition",
        text_decoration_type |-> "TextDecorationType",
        text_decoration_color |-> "TextDecorationColor",
        text_decoration_thickness |-> "TextDecorationThickness",
        glyph_orientation_vertical |-> "GlyphOrientationVertical", ruby_align |-> "RubyAlign",
        ruby_position |-> "RubyPosition"],
      [
        column_widths |-> <<"ColumnWidths", "TrackSizes">>,
        column_gap |-> <<"ColumnGap", "TrackSizes">>]),
    ListAttributes |-> W("dict", <<Key("O", Name("List"))>>,
      [
        list_numbering |-> "ListNumbering",
        continued_list |-> "ContinuedList", continued_from |-> "ContinuedFrom"],
      NoSub),
    FieldAttributes |-> W("dict", <<Key("O", Name("PrintField"))>>,
      [
        role |-> "Role", checked |-> "*", description |-> "Desc"],
      NoSub),
    TableAttributes |-> W("dict", <<Key("O", Name("Table"))>>,
      [
        row_span |-> "RowSpan", col_span |-> "ColSpan", scope |-> "Scope",
        summary |-> "Summary", short |-> "Short"],
      [
        headers |-> <<"Headers", "A">>]),
    ArtifactAttributes |-> W("dict", <<Key("O", Name("Artifact"))>>,
      [
        artifact_type |-> "Type", bbox |-> "BBox", subtype |-> "Subtype"],
      NoSub),
    FENoteAttributes |-> W("dict", <<Key("O", Name("FENote"))>>,
      [
        note_type |-> "NoteType"],
      NoSub)]

AttributesNames == [
    Placement_Block |-> "Block", Placement_Inline |-> "Inline",
    Placement_Before |-> "Before", Placement_Start |-> "Start",
    Placement_End |-> "End", WritingMode_LtrTtb |-> "LrTb",
    WritingMode_RtlTtb |-> "RlTb", WritingMode_TtbRtl |-> "TbRl",
    LayoutBorderStyle_None |-> "None", LayoutBorderStyle_Hidden |-> "Hidden",
    LayoutBorderStyle_Solid |-> "Solid",
    LayoutBorderStyle_Dashed |-> "Dashed",
    LayoutBorderStyle_Dotted |-> "Dotted",
    LayoutBorderStyle_Double |-> "Double",
    LayoutBorderStyle_Groove |-> "Groove",
    LayoutBorderStyle_Ridge |-> "Ridge", LayoutBorderStyle_Inset |-> "Inset",
    LayoutBorderStyle_Outset |-> "Outset", TextAlign_Start |-> "Start",
    TextAlign_Center |-> "Center", TextAlign_End |-> "End",
    TextAlign_Justify |-> "Justify", BlockAlign_Before |-> "Before",
    BlockAlign_Middle |-> "Middle", BlockAlign_After |-> "After",
    BlockAlign_Justify |-> "Justify", InlineAlign_Start |-> "Start",
    InlineAlign_Center |-> "Center", InlineAlign_End |-> "End",
    LineHeight_Normal |-> "Normal", LineHeight_Auto |-> "Auto",
    LayoutTextPosition_Normal |-> "Normal",
    LayoutTextPosition_Superscript |-> "Sup",
    LayoutTextPosition_Subscript |-> "Sub",
    TextDecorationType_None |-> "None",
    TextDecorationType_Underline |-> "Underline",
    TextDecorationType_Overline |-> "Overline",
    TextDecorationType_LineThrough |-> "LineThrough",
    GlyphOrientationVertical_Auto |-> "Auto", RubyAlign_Start |-> "Start",
    RubyAlign_Center |-> "Center", RubyAlign_End |-> "End",
    RubyAlign_Justify |-> "Justify", RubyAlign_Distribute |-> "Distribute",
    RubyPosition_Before |-> "Before", RubyPosition_After |-> "After",
    RubyPosition_Warichu |-> "Warichu", RubyPosition_Inline |-> "Inline",
    ListNumbering_None |-> "None", ListNumbering_Unordered |-> "Unordered",
    ListNumbering_Ordered |-> "Ordered",
    ListNumbering_Description |-> "Description",
    ListNumbering_Disc |-> "Disc", ListNumbering_Circle |-> "Circle",
    ListNumbering_Square |-> "Square", ListNumbering_Decimal |-> "Decimal",
    ListNumbering_LowerRoman |-> "LowerRoman",
    ListNumbering_UpperRoman |-> "UpperRoman",
    ListNumbering_LowerAlpha |-> "LowerAlpha",
    ListNumbering_UpperAlpha |-> "UpperAlpha", FieldRole_Button |-> "pb",
    FieldRole_CheckBox |-> "cb", FieldRole_RadioButton |-> "rb",
    FieldRole_TextField |-> "tv", FieldRole_ListBox |-> "lb",
    FieldState_Unchecked |-> "off", FieldState_Checked |-> "on",
    FieldState_Neutral |-> "neutral", TableHeaderScope_Row |-> "Row",
    TableHeaderScope_Column |-> "Column", TableHeaderScope_Both |-> "Both",
    NoteType_Footnote |-> "Footnote", NoteType_Endnote |-> "Endnote",
    NoteType_None |-> "None", AttributeOwner_Layout |-> "Layout",
    AttributeOwner_List |-> "List",
    AttributeOwner_PrintField |-> "PrintField",
    AttributeOwner_Table |-> "Table", AttributeOwner_Artifact |-> "Artifact",
    AttributeOwner_Xml |-> "XML-1.00", AttributeOwner_Html3_2 |-> "HTML-3.20",
    AttributeOwner_Html4 |-> "HTML-4.01",
    AttributeOwner_Html5 |-> "HTML-5.00", AttributeOwner_Oeb |-> "OEB-1.00",
    AttributeOwner_Rtf1_05 |-> "RTF-1.05", AttributeOwner_Css3 |-> "CSS-3",
    AttributeOwner_Rdfa1_1 |-> "RDFa-1.10",
    AttributeOwner_Aria1_1 |-> "ARIA-1.1", AttributeOwner_FENote |-> "FENote",
    AttributeOwner_NSO |-> "NSO", AttributeOwner_User |-> "UserProperties"]
===============================================================================
