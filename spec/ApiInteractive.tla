-------------------------------- MODULE ApiInteractive --------------------------------
(* Annotations, actions, renditions, files, transitions (12.4.4, 12.5, 12.6, 13.2, 7.11). *)
EXTENDS ApiBase

InteractiveApi == [
    Annotation |-> W("dict", <<Key("Type", Name("Annot"))>>,
      [
        subtype |-> "Subtype", rect |-> "Rect", contents |-> "Contents",
        page |-> "P", name |-> "NM", modified |-> "M", flags |-> "F",
        appearance_state |-> "AS", border |-> "*", color_transparent |-> "*",
        color_gray |-> "*", color_rgb |-> "C", color_cmyk |-> "C",
        struct_parent |-> "StructParent", highlight |-> "H", author |-> "T",
        subject |-> "Subj", quad_points |-> "QuadPoints", line_to |-> "L",
        icon |-> "Name", parent |-> "Parent"],
      [
        appearance |-> <<"AP", "Appearance">>,
        border_style |-> <<"BS", "BorderStyle">>,
        action |-> <<"A", "Action">>,
        additional_actions |-> <<"AA", "AdditionalActions">>,
        file_spec |-> <<"FS", "FileSpec">>,
        appearance_characteristics |-> <<"MK", "AppearanceCharacteristics">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    AppearanceCharacteristics |-> W("dict", <<>>,
      [
        rotate |-> "R", border_color_transparent |-> "*",
        border_color_gray |-> "*", border_color_rgb |-> "BC",
        border_color_cymk |-> "*", background_color_transparent |-> "*",
        background_color_gray |-> "*", background_color_rgb |-> "BG",
        background_color_cymk |-> "*", normal_caption |-> "CA",
        rollover_caption |-> "RC", alternate_caption |-> "AC",
        normal_icon |-> "I", rollover_icon |-> "RI", alternate_icon |-> "IX",
        text_position |-> "TP"],
      [
        icon_fit |-> <<"IF", "IconFit">>]),
    IconFit |-> W("dict", <<>>,
      [
        scale |-> "SW", scale_type |-> "S", leftover_space |-> "A",
        fit_bounds |-> "FB"],
      NoSub),
    Appearance |-> W("dict", <<>>, NoSet,
      [normal |-> <<"N", "AppearanceEntry">>, rollover |-> <<"R", "AppearanceEntry">>,
       alternate |-> <<"D", "AppearanceEntry">>]),
    AppearanceEntry |-> W("slot", <<>>, NoSet, NoSub),
    BorderStyle |-> W("dict", <<Key("Type", Name("Border"))>>,
      [
        width |-> "W", style |-> "S", dashes |-> "D"],
      NoSub),
    Action |-> W("dict", <<Key("Type", Name("Action"))>>,
      [
        action_type |-> "S", destination_named |-> "D",
        new_window |-> "NewWindow", uri |-> "URI", is_map |-> "IsMap",
        js_string |-> "JS", js_stream |-> "JS", form_flags |-> "Flags",
        operation |-> "OP", annotation |-> "AN"],
      [
        destination |-> <<"D", "Destination">>,
        file_spec |-> <<"F", "FileSpec">>, fields |-> <<"Fields", "Fields">>,
        rendition |-> <<"R", "Rendition">>]),
    Fields |-> W("array", <<>>,
      [
        id |-> "*", ids |-> "*", name |-> "*", names |-> "*"],
      NoSub),
    AdditionalActions |-> W("dict", <<>>,
      NoSet,
      [
        annot_curser_enter |-> <<"E", "Action">>,
        annot_cursor_exit |-> <<"X", "Action">>,
        annot_mouse_press |-> <<"D", "Action">>,
        annot_mouse_release |-> <<"U", "Action">>,
        annot_page_open |-> <<"PO", "Action">>,
        annot_page_close |-> <<"PC", "Action">>,
        annot_page_visible |-> <<"PV", "Action">>,
        annot_page_invisible |-> <<"PI", "Action">>,
        widget_focus |-> <<"Fo", "Action">>,
        widget_focus_loss |-> <<"Bl", "Action">>,
        page_open |-> <<"O", "Action">>, page_close |-> <<"C", "Action">>,
        form_calculate_partial |-> <<"K", "Action">>,
        form_format |-> <<"F", "Action">>,
        form_validate |-> <<"V", "Action">>,
        form_calculate |-> <<"C", "Action">>,
        cat_before_close |-> <<"WC", "Action">>,
        cat_before_save |-> <<"WS", "Action">>,
        cat_after_save |-> <<"DS", "Action">>,
        cat_before_print |-> <<"WP", "Action">>,
        cat_after_print |-> <<"DP", "Action">>]),
    Rendition |-> W("dict", <<Key("Type", Name("Rendition"))>>,
      [
        subtype |-> "S", name |-> "N"],
      [
        media_clip |-> <<"C", "MediaClip">>,
        media_play_params |-> <<"P", "MediaPlayParams">>]),
    MediaClip |-> W("dict", <<Key("Type", Name("MediaClip"))>>,
      [
        subtype |-> "S", name |-> "N", data_type |-> "CT", alt_texts |-> "Alt"],
      [
        data |-> <<"D", "FileSpec">>,
        permissions |-> <<"P", "MediaPermissions">>]),
    MediaPlayParams |-> W("dict", <<Key("Type", Name("MediaPlayParams"))>>,
      [
        controls |-> "*"],
      NoSub),
    MediaPermissions |-> W("dict", <<Key("Type", Name("MediaPermissions"))>>,
      [
        temp_file |-> "TF"],
      NoSub),
    FileSpec |-> W("dict", <<Key("Type", Name("Filespec"))>>,
      [
        file_system |-> "FS", path |-> "F", unic_file |-> "UF",
        volatile |-> "V", description |-> "Desc", embedded_file |-> "*",
        embedded_file_with_unicode |-> "*",
        association_kind |-> "AFRelationship"],
      NoSub),
    EmbeddedFile |-> W("stream", <<Key("Type", Name("EmbeddedFile"))>>,
      [
        subtype |-> "Subtype"],
      [
        params |-> <<"Params", "EmbeddingParams">>]),
    EmbeddingParams |-> W("dict", <<>>,
      [
        size |-> "Size", creation_date |-> "CreationDate",
        modification_date |-> "ModDate", checksum |-> "CheckSum"],
      NoSub),
    Transition |-> W("dict", <<Key("Type", Name("Trans"))>>,
      [
        style |-> "S", duration |-> "D", dimension |-> "*", direction |-> "*",
        angle |-> "Di", scale |-> "SS", opaque |-> "B"],
      NoSub)]

InteractiveNames == [
    TransitionAngle_None |-> "None",
    AnnotationType_Text |-> "Text", AnnotationType_Link |-> "Link",
    AnnotationType_Line |-> "Line", AnnotationType_Square |-> "Square",
    AnnotationType_Circle |-> "Circle",
    AnnotationType_Highlight |-> "Highlight",
    AnnotationType_Underline |-> "Underline",
    AnnotationType_Squiggly |-> "Squiggly",
    AnnotationType_StrikeOut |-> "StrikeOut",
    AnnotationType_FileAttachment |-> "FileAttachment",
    AnnotationType_Widget |-> "Widget", AnnotationType_Screen |-> "Screen",
    AnnotationIcon_Comment |-> "Comment", AnnotationIcon_Key |-> "Key",
    AnnotationIcon_Note |-> "Note", AnnotationIcon_Help |-> "Help",
    AnnotationIcon_NewParagraph |-> "NewParagraph",
    AnnotationIcon_Paragraph |-> "Paragraph",
    AnnotationIcon_Insert |-> "Insert", AnnotationIcon_Graph |-> "Graph",
    AnnotationIcon_PushPin |-> "PushPin",
    AnnotationIcon_Paperclip |-> "Paperclip", AnnotationIcon_Tag |-> "Tag",
    IconScale_Always |-> "A", IconScale_Bigger |-> "B",
    IconScale_Smaller |-> "S", IconScale_Never |-> "N",
    IconScaleType_Anamorphic |-> "A", IconScaleType_Proportional |-> "P",
    HighlightEffect_None |-> "N", HighlightEffect_Invert |-> "I",
    HighlightEffect_Outline |-> "O", HighlightEffect_Push |-> "P",
    BorderType_Solid |-> "S", BorderType_Dashed |-> "D",
    BorderType_Beveled |-> "B", BorderType_Inset |-> "I",
    BorderType_Underline |-> "U", ActionType_GoTo |-> "GoTo",
    ActionType_RemoteGoTo |-> "GoToR", ActionType_Launch |-> "Launch",
    ActionType_Uri |-> "URI", ActionType_SubmitForm |-> "SubmitForm",
    ActionType_ResetForm |-> "ResetForm",
    ActionType_ImportData |-> "ImportData",
    ActionType_JavaScript |-> "JavaScript",
    ActionType_Rendition |-> "Rendition", RenditionType_Media |-> "MR",
    RenditionType_Selector |-> "SR", MediaClipType_Data |-> "MCD",
    MediaClipType_Section |-> "MCS", AssociationKind_Source |-> "Source",
    AssociationKind_Data |-> "Data",
    AssociationKind_Alternative |-> "Alternative",
    AssociationKind_Supplement |-> "Supplement",
    AssociationKind_EncryptedPayload |-> "EncryptedPayload",
    AssociationKind_FormData |-> "FormData",
    AssociationKind_Schema |-> "Schema",
    AssociationKind_Unspecified |-> "Unspecified",
    TransitionStyle_Split |-> "Split", TransitionStyle_Blinds |-> "Blinds",
    TransitionStyle_Box |-> "Box", TransitionStyle_Wipe |-> "Wipe",
    TransitionStyle_Dissolve |-> "Dissolve",
    TransitionStyle_Glitter |-> "Glitter", TransitionStyle_R |-> "R",
    TransitionStyle_Fly |-> "Fly", TransitionStyle_Push |-> "Push",
    TransitionStyle_Cover |-> "Cover", TransitionStyle_Uncover |-> "Uncover",
    TransitionStyle_Fade |-> "Fade"]

InteractiveInts == [
    TransitionAngle_LeftToRight |-> 0, TransitionAngle_BottomToTop |-> 90,
    TransitionAngle_RightToLeft |-> 180, TransitionAngle_TopToBottom |-> 270,
    TransitionAngle_TopLeftToBottomRight |-> 315,
    TextPosition_CaptionOnly |-> 0, TextPosition_IconOnly |-> 1,
    TextPosition_Below |-> 2, TextPosition_Above |-> 3,
    TextPosition_Right |-> 4, TextPosition_Left |-> 5,
    TextPosition_Overlaid |-> 6, AnnotationFlags_INVISIBLE |-> 1,
    AnnotationFlags_HIDDEN |-> 2, AnnotationFlags_PRINT |-> 4,
    AnnotationFlags_NO_ZOOM |-> 8, AnnotationFlags_NO_ROTATE |-> 16,
    AnnotationFlags_NO_VIEW |-> 32, AnnotationFlags_READ_ONLY |-> 64,
    AnnotationFlags_LOCKED |-> 128, AnnotationFlags_TOGGLE_NO_VIEW |-> 256,
    AnnotationFlags_LOCKED_CONTENTS |-> 512, RenditionOperation_Play |-> 0,
    RenditionOperation_Stop |-> 1, RenditionOperation_Pause |-> 2,
    RenditionOperation_Resume |-> 3, RenditionOperation_PlayOrResume |-> 4,
    FormActionFlags_INCLUDE_EXCLUDE |-> 1,
    FormActionFlags_INCLUDE_NO_VALUE_FIELDS |-> 2,
    FormActionFlags_EXPORT_FORMAT |-> 4, FormActionFlags_GET_METHOD |-> 8,
    FormActionFlags_SUBMIT_COORDINATES |-> 16, FormActionFlags_XFDF |-> 32,
    FormActionFlags_INCLUDE_APPEND_SAVES |-> 64,
    FormActionFlags_INCLUDE_ANNOTATIONS |-> 128,
    FormActionFlags_SUBMIT_PDF |-> 256,
    FormActionFlags_CANONICAL_FORMAT |-> 512,
    FormActionFlags_EXCLUDE_NON_USER_ANNOTS |-> 1024,
    FormActionFlags_EXCLUDE_F_KEY |-> 2048,
    FormActionFlags_EMBED_FORM |-> 8192]

\* Enumerations that are written as byte strings.
InteractiveStrings == [
    TempFileType_Never |-> "TEMPNEVER", TempFileType_Extract |-> "TEMPEXTRACT",
    TempFileType_Access |-> "TEMPACCESS", TempFileType_Always |-> "TEMPALWAYS"]
===============================================================================
