-------------------------------- MODULE ApiStructure --------------------------------
(* Document structure: catalog, pages, outlines, structure tree, namespaces (7.7, 12.2, 12.3, 14.7). *)
EXTENDS ApiBase

StructureApi == [
    Catalog |-> W("dict", <<Key("Type", Name("Catalog"))>>,
      [
        pages |-> "Pages", page_layout |-> "PageLayout",
        page_mode |-> "PageMode", destinations |-> "Dests",
        outlines |-> "Outlines", lang |-> "Lang", version |-> "*",
        metadata |-> "Metadata"],
      [
        page_labels |-> <<"PageLabels", "NumberTree">>,
        viewer_preferences |-> <<"ViewerPreferences", "ViewerPreferences">>,
        names |-> <<"Names", "Names">>,
        struct_tree_root |-> <<"StructTreeRoot", "StructTreeRoot">>,
        mark_info |-> <<"MarkInfo", "MarkInfo">>,
        additional_actions |-> <<"AA", "AdditionalActions">>,
        form |-> <<"AcroForm", "Form">>,
        extensions |-> <<"Extensions", "T:DeveloperExtension">>,
        separation_info |-> <<"SeparationInfo", "SeparationInfo">>,
        output_intents |-> <<"OutputIntents", "A:OutputIntent">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    DeveloperExtension |-> W("dict", <<Key("Type", Name("DeveloperExtensions"))>>,
      [
        base_version |-> "*", extension_level |-> "ExtensionLevel"],
      NoSub),
    ViewerPreferences |-> W("dict", <<>>,
      [
        hide_toolbar |-> "HideToolbar", hide_menubar |-> "HideMenubar",
        fit_window |-> "FitWindow", center_window |-> "CenterWindow",
        display_doc_title |-> "DisplayDocTitle",
        non_full_screen_page_mode |-> "NonFullScreenPageMode",
        direction |-> "Direction"],
      NoSub),
    StructTreeRoot |-> W("dict", <<Key("Type", Name("StructTreeRoot"))>>,
      [
        child |-> "K", parent_tree_next_key |-> "ParentTreeNextKey"],
      [
        children |-> <<"K", "A">>, id_tree |-> <<"IDTree", "NameTree">>,
        parent_tree |-> <<"ParentTree", "NumberTree">>,
        role_map |-> <<"RoleMap", "RoleMap">>,
        class_map |-> <<"ClassMap", "ClassMap">>,
        namespaces |-> <<"Namespaces", "A">>,
        pronunciation_lexicon |-> <<"PronunciationLexicon", "A">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    StructElement |-> W("dict", <<Key("Type", Name("StructElem"))>>,
      [
        kind |-> "S", kind_2 |-> "*", custom_kind |-> "S", parent |-> "P",
        id |-> "ID", refs |-> "Ref", page |-> "Pg", child |-> "K",
        revision |-> "R", title |-> "T", lang |-> "Lang", alt |-> "Alt",
        expanded |-> "E", actual_text |-> "ActualText", namespace |-> "NS",
        phonetic_alphabet |-> "PhoneticAlphabet", phoneme |-> "Phoneme"],
      [
        marked_content_child |-> <<"K", "MarkedRef">>,
        object_child |-> <<"K", "ObjectRef">>,
        children |-> <<"K", "StructChildren">>,
        attributes |-> <<"A", "A:Attributes">>,
        attribute_class |-> <<"C", "A">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    StructChildren |-> W("array", <<>>,
      [struct_element |-> "*", marked_content_id |-> "*"],
      [marked_content_ref |-> <<"", "MarkedRef">>, object_ref |-> <<"", "ObjectRef">>]),
    Destination |-> W("array", <<>>,
      [page |-> "*", xyz |-> "*", fit |-> "*", fit_horizontal |-> "*", fit_vertical |-> "*",
       fit_rect |-> "*", fit_bounding_box |-> "*", fit_bounding_box_horizontal |-> "*",
       fit_bounding_box_vertical |-> "*"],
      NoSub),
    MarkedRef |-> W("dict", <<Key("Type", Name("MCR"))>>,
      [
        page |-> "Pg", stream |-> "Stm", stream_owner |-> "StmOwn",
        marked_content_id |-> "MCID"],
      NoSub),
    ObjectRef |-> W("dict", <<Key("Type", Name("OBJR"))>>,
      [
        page |-> "Pg", object |-> "Obj"],
      NoSub),
    RoleMap |-> W("dict", <<>>,
      [
        insert |-> "*"],
      NoSub),
    ClassMap |-> W("dict", <<>>, NoSet,
      [single |-> <<"*", "Attributes">>, multiple |-> <<"*", "A:Attributes">>]),
    Namespace |-> W("dict", <<Key("Type", Name("Namespace"))>>,
      [
        ns |-> "NS", pdf_2_ns |-> "*", pdf_1_7_ns |-> "*", mathml_3_0_ns |-> "*"],
      [
        schema |-> <<"Schema", "FileSpec">>,
        role_map_ns |-> <<"RoleMapNS", "NamespaceRoleMap">>]),
    NamespaceRoleMap |-> W("dict", <<>>,
      [
        to_pdf_1_7 |-> "*", to_namespace |-> "*", to_pdf_2_0 |-> "*"],
      NoSub),
    MarkInfo |-> W("dict", <<>>,
      [
        marked |-> "Marked", user_properties |-> "UserProperties",
        suspects |-> "Suspects"],
      NoSub),
    PageLabel |-> W("dict", <<Key("Type", Name("PageLabel"))>>,
      [
        style |-> "S", prefix |-> "P", offset |-> "St"],
      NoSub),
    DocumentInfo |-> W("dict", <<>>,
      [
        title |-> "Title", author |-> "Author", subject |-> "Subject",
        keywords |-> "Keywords", creator |-> "Creator",
        producer |-> "Producer", creation_date |-> "CreationDate",
        modified_date |-> "ModDate", trapped |-> "Trapped"],
      NoSub),
    Pages |-> W("dict", <<Key("Type", Name("Pages"))>>,
      [
        parent |-> "Parent", kids |-> "Kids", count |-> "Count",
        media_box |-> "MediaBox"],
      [
        resources |-> <<"Resources", "Resources">>]),
    Page |-> W("dict", <<Key("Type", Name("Page"))>>,
      [
        parent |-> "Parent", last_modified |-> "LastModified",
        media_box |-> "MediaBox", crop_box |-> "CropBox",
        bleed_box |-> "BleedBox", trim_box |-> "TrimBox",
        art_box |-> "ArtBox", contents |-> "Contents",
        contents_array |-> "Contents", rotate |-> "Rotate",
        thumbnail |-> "Thumb", duration |-> "Dur", annotations |-> "Annots",
        struct_parents |-> "StructParents", tab_order |-> "Tabs",
        user_unit |-> "UserUnit", metadata |-> "Metadata"],
      [
        resources |-> <<"Resources", "Resources">>,
        group |-> <<"Group", "Group">>,
        transition |-> <<"Trans", "Transition">>,
        additional_actions |-> <<"AA", "AdditionalActions">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    Outline |-> W("dict", <<Key("Type", Name("Outlines"))>>,
      [
        first |-> "First", last |-> "Last", count |-> "Count"],
      NoSub),
    OutlineItem |-> W("dict", <<>>,
      [
        title |-> "Title", parent |-> "Parent", prev |-> "Prev",
        next |-> "Next", first |-> "First", last |-> "Last",
        count |-> "Count", dest_name |-> "Dest", color_rgb |-> "C",
        flags |-> "F"],
      [
        dest |-> <<"Dest", "Destination">>]),
    Names |-> W("dict", <<>>,
      NoSet,
      [
        destinations |-> <<"Dests", "NameTree">>,
        appearances |-> <<"AP", "NameTree">>,
        javascript |-> <<"JavaScript", "NameTree">>,
        pages |-> <<"Pages", "NameTree">>,
        templates |-> <<"Templates", "NameTree">>,
        capture_ids |-> <<"IDS", "NameTree">>,
        capture_urls |-> <<"URLS", "NameTree">>,
        embedded_files |-> <<"EmbeddedFiles", "NameTree">>,
        alternate_presentations |-> <<"AlternatePresentations", "NameTree">>,
        renditions |-> <<"Renditions", "NameTree">>]),
    Metadata |-> W("stream", <<Key("Type", Name("Metadata")), Key("Subtype", Name("XML"))>>,
      NoSet,
      NoSub)]

StructureNames == [
    PageLayout_SinglePage |-> "SinglePage",
    PageLayout_OneColumn |-> "OneColumn",
    PageLayout_TwoColumnLeft |-> "TwoColumnLeft",
    PageLayout_TwoColumnRight |-> "TwoColumnRight",
    PageLayout_TwoPageLeft |-> "TwoPageLeft",
    PageLayout_TwoPageRight |-> "TwoPageRight",
    PageMode_UseNone |-> "UseNone", PageMode_UseOutlines |-> "UseOutlines",
    PageMode_UseThumbs |-> "UseThumbs", PageMode_FullScreen |-> "FullScreen",
    PageMode_UseOC |-> "UseOC", PageMode_UseAttachments |-> "UseAttachments",
    StructRole_Document |-> "Document", StructRole_Part |-> "Part",
    StructRole_Art |-> "Art", StructRole_Sect |-> "Sect",
    StructRole_Div |-> "Div", StructRole_BlockQuote |-> "BlockQuote",
    StructRole_Caption |-> "Caption", StructRole_TOC |-> "TOC",
    StructRole_TOCI |-> "TOCI", StructRole_Index |-> "Index",
    StructRole_NonStruct |-> "NonStruct", StructRole_Private |-> "Private",
    StructRole_P |-> "P", StructRole_StructuredHeading |-> "H",
    StructRole_H1 |-> "H1", StructRole_H2 |-> "H2", StructRole_H3 |-> "H3",
    StructRole_H4 |-> "H4", StructRole_H5 |-> "H5", StructRole_H6 |-> "H6",
    StructRole_L |-> "L", StructRole_LI |-> "LI", StructRole_Lbl |-> "Lbl",
    StructRole_LBody |-> "LBody", StructRole_Table |-> "Table",
    StructRole_TR |-> "TR", StructRole_TH |-> "TH", StructRole_TD |-> "TD",
    StructRole_THead |-> "THead", StructRole_TBody |-> "TBody",
    StructRole_TFoot |-> "TFoot", StructRole_Span |-> "Span",
    StructRole_Quote |-> "Quote", StructRole_Note |-> "Note",
    StructRole_Reference |-> "Reference", StructRole_BibEntry |-> "BibEntry",
    StructRole_Code |-> "Code", StructRole_Link |-> "Link",
    StructRole_Annot |-> "Annot", StructRole_Ruby |-> "Ruby",
    StructRole_Warichu |-> "Warichu", StructRole_RB |-> "RB",
    StructRole_RT |-> "RT", StructRole_RP |-> "RP", StructRole_WT |-> "WT",
    StructRole_WP |-> "WP", StructRole_Figure |-> "Figure",
    StructRole_Formula |-> "Formula", StructRole_Form |-> "Form",
    StructRole2_Document |-> "Document",
    StructRole2_DocumentFragment |-> "DocumentFragment",
    StructRole2_Part |-> "Part", StructRole2_Sect |-> "Sect",
    StructRole2_Div |-> "Div", StructRole2_Aside |-> "Aside",
    StructRole2_NonStruct |-> "NonStruct", StructRole2_P |-> "P",
    StructRole2_StructuredHeading |-> "H", StructRole2_Title |-> "Title",
    StructRole2_FENote |-> "FENote", StructRole2_Sub |-> "Sub",
    StructRole2_Lbl |-> "Lbl", StructRole2_Span |-> "Span",
    StructRole2_Em |-> "Em", StructRole2_Strong |-> "Strong",
    StructRole2_Link |-> "Link", StructRole2_Annot |-> "Annot",
    StructRole2_Form |-> "Form", StructRole2_Ruby |-> "Ruby",
    StructRole2_RB |-> "RB", StructRole2_RT |-> "RT", StructRole2_RP |-> "RP",
    StructRole2_Warichu |-> "Warichu", StructRole2_WT |-> "WT",
    StructRole2_WP |-> "WP", StructRole2_L |-> "L", StructRole2_LI |-> "LI",
    StructRole2_LBody |-> "LBody", StructRole2_Table |-> "Table",
    StructRole2_TR |-> "TR", StructRole2_TH |-> "TH", StructRole2_TD |-> "TD",
    StructRole2_THead |-> "THead", StructRole2_TBody |-> "TBody",
    StructRole2_TFoot |-> "TFoot", StructRole2_Caption |-> "Caption",
    StructRole2_Figure |-> "Figure", StructRole2_Formula |-> "Formula",
    StructRole2_Artifact |-> "Artifact",
    PhoneticAlphabet_Ipa |-> "ipa", PhoneticAlphabet_XSampa |-> "x-sampa",
    PhoneticAlphabet_Pinyin |-> "zh-Latn-pinyin",
    PhoneticAlphabet_WadeGiles |-> "zh-Latn-wadegile",
    Direction_L2R |-> "L2R", Direction_R2L |-> "R2L",
    NumberingStyle_Arabic |-> "D", NumberingStyle_LowerRoman |-> "r",
    NumberingStyle_UpperRoman |-> "R", NumberingStyle_LowerAlpha |-> "a",
    NumberingStyle_UpperAlpha |-> "A", TrappingStatus_Trapped |-> "True",
    TrappingStatus_NotTrapped |-> "False",
    TrappingStatus_Unknown |-> "Unknown", TabOrder_RowOrder |-> "R",
    TabOrder_ColumnOrder |-> "C", TabOrder_StructureOrder |-> "S"]

StructureInts == [
    OutlineItemFlags_ITALIC |-> 1, OutlineItemFlags_BOLD |-> 2]
===============================================================================
