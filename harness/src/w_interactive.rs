//! Annotations, actions, renditions, files and transitions.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_annotation: Annotation<'_> as "Annotation" + dict {
    set subtype(KE<AnnotationType>);
    set rect(KRect);
    text contents();
    set page(KRef);
    text name();
    set modified(KDate);
    set flags(KFl<AnnotationFlags>);
    sub appearance() w_appearance;
    set appearance_state(KName);
    sub border_style() w_border_style;
    set color_transparent();
    set color_gray(KF);
    set color_rgb(KF, KF, KF);
    set color_cmyk(KF, KF, KF, KF);
    set struct_parent(KInt);
    sub action() w_action;
    sub additional_actions() w_additional_actions;
    set highlight(KE<HighlightEffect>);
    text author();
    text subject();
    set quad_points(KFs);
    set line_to(KF, KF, KF, KF);
    sub file_spec() w_file_spec;
    sub appearance_characteristics() w_appearance_characteristics;
    set parent(KRef);
    sub associated_files() a_file_spec;
    set border(KF, KF, KF, KOptFs);
    set icon(KIcon);
}}
walker! { w_appearance_characteristics: AppearanceCharacteristics<'_> as "AppearanceCharacteristics" + dict {
    set rotate(KInt);
    set border_color_transparent();
    set border_color_gray(KF);
    set border_color_rgb(KF, KF, KF);
    set border_color_cymk(KF, KF, KF, KF);
    set background_color_transparent();
    set background_color_gray(KF);
    set background_color_rgb(KF, KF, KF);
    set background_color_cymk(KF, KF, KF, KF);
    text normal_caption();
    text rollover_caption();
    text alternate_caption();
    set normal_icon(KRef);
    set rollover_icon(KRef);
    set alternate_icon(KRef);
    sub icon_fit() w_icon_fit;
    set text_position(KE<TextPosition>);
}}
walker! { w_icon_fit: IconFit<'_> as "IconFit" + dict {
    set scale(KE<IconScale>);
    set scale_type(KE<IconScaleType>);
    set leftover_space(KF, KF);
    set fit_bounds(KBool);
}}
walker! { w_appearance: Appearance<'_> as "Appearance" + dict {
    own normal() w_appearance_entry;
    own rollover() w_appearance_entry;
    own alternate() w_appearance_entry;
}}
walker! { w_border_style: BorderStyle<'_> as "BorderStyle" + dict {
    set width(KF);
    set style(KE<BorderType>);
    set dashes(KFs);
}}
walker! { w_action: Action<'_> as "Action" + dict {
    set action_type(KE<ActionType>);
    own destination() w_destination;
    set destination_named(KName);
    sub file_spec() w_file_spec;
    set new_window(KBool);
    set uri(KStr);
    set is_map(KBool);
    set js_string(KText);
    set js_stream(KRef);
    sub fields() w_fields;
    set form_flags(KFl<FormActionFlags>);
    set operation(KE<RenditionOperation>);
    set annotation(KRef);
    sub rendition() w_rendition;
}}
walker! { w_fields: Fields<'_> as "Fields" + array {
    set id(KRef);
    set ids(KRefs);
    set name(KText);
    set names(KTexts);
}}
walker! { w_additional_actions: AdditionalActions<'_> as "AdditionalActions" + dict {
    sub annot_curser_enter() w_action;
    sub annot_cursor_exit() w_action;
    sub annot_mouse_press() w_action;
    sub annot_mouse_release() w_action;
    sub annot_page_open() w_action;
    sub annot_page_close() w_action;
    sub annot_page_visible() w_action;
    sub annot_page_invisible() w_action;
    sub widget_focus() w_action;
    sub widget_focus_loss() w_action;
    sub page_open() w_action;
    sub page_close() w_action;
    sub form_calculate_partial() w_action;
    sub form_format() w_action;
    sub form_validate() w_action;
    sub form_calculate() w_action;
    sub cat_before_close() w_action;
    sub cat_before_save() w_action;
    sub cat_after_save() w_action;
    sub cat_before_print() w_action;
    sub cat_after_print() w_action;
}}
walker! { w_rendition: Rendition<'_> as "Rendition" + dict {
    set subtype(KE<RenditionType>);
    text name();
    sub media_clip() w_media_clip;
    sub media_play_params() w_media_play_params;
}}
walker! { w_media_clip: MediaClip<'_> as "MediaClip" + dict {
    set subtype(KE<MediaClipType>);
    text name();
    sub data() w_file_spec;
    set data_type(KStr);
    sub permissions() w_media_permissions;
    set alt_texts(KTexts);
}}
walker! { w_media_play_params: MediaPlayParams<'_> as "MediaPlayParams" + dict {
    set controls(KBool);
}}
walker! { w_media_permissions: MediaPermissions<'_> as "MediaPermissions" + dict {
    set temp_file(KE<TempFileType>);
}}
walker! { w_file_spec: FileSpec<'_> as "FileSpec" + dict {
    set file_system(KName);
    set path(KStr);
    set unic_file(KText);
    set volatile(KBool);
    text description();
    set association_kind(KE<AssociationKind>);
    set embedded_file(KRef);
    set embedded_file_with_unicode(KRef);
}}
walker! { w_embedded_file: EmbeddedFile<'_> as "EmbeddedFile" + stream {
    set subtype(KName);
    sub params() w_embedding_params;
}}
walker! { w_embedding_params: EmbeddingParams<'_> as "EmbeddingParams" + dict {
    set size(KInt);
    set creation_date(KDate);
    set modification_date(KDate);
    set checksum(KStr);
}}
walker! { w_transition: Transition<'_> as "Transition" + dict {
    set style(KE<TransitionStyle>);
    set duration(KF);
    set angle(KE<TransitionAngle>);
    set scale(KF);
    set opaque(KF);
    set dimension(KBool);
    set direction(KBool);
}}

pub fn w_appearance_entry(cx: &mut Cx, w: AppearanceEntry<'_>) {
    once(cx, "AppearanceEntry", w, &[
        |cx, w| {
            let r = KRef::gen(cx);
            w.stream(r.a());
            cx.fill("stream", &[r.v()]);
        },
        |cx, w| {
            cx.conv("streams", &[]);
            let mut s = w.streams();
            ref_pairs(cx, &mut s);
            done(cx, s);
        },
    ]);
}

nested! {
    a_file_spec t_file_spec FileSpec: w_file_spec;
}

enums! {
    AnnotationType: Text Link Line Square Circle Highlight Underline Squiggly StrikeOut FileAttachment Widget Screen;
    TextPosition: CaptionOnly IconOnly Below Above Right Left Overlaid;
    IconScale: Always Bigger Smaller Never;
    IconScaleType: Anamorphic Proportional;
    HighlightEffect: None Invert Outline Push;
    BorderType: Solid Dashed Beveled Inset Underline;
    RenditionOperation: Play Stop Pause Resume PlayOrResume;
    ActionType: GoTo RemoteGoTo Launch Uri SubmitForm ResetForm ImportData JavaScript Rendition;
    TempFileType: Never Extract Access Always;
    RenditionType: Media Selector;
    MediaClipType: Data Section;
    AssociationKind: Source Data Alternative Supplement EncryptedPayload FormData Schema Unspecified;
    TransitionStyle: Split Blinds Box Wipe Dissolve Glitter R Fly Push Cover Uncover Fade;
    TransitionAngle: LeftToRight BottomToTop RightToLeft TopToBottom TopLeftToBottomRight None;
}
flags! {
    AnnotationFlags: INVISIBLE HIDDEN PRINT NO_ZOOM NO_ROTATE NO_VIEW READ_ONLY LOCKED TOGGLE_NO_VIEW LOCKED_CONTENTS;
    FormActionFlags: INCLUDE_EXCLUDE INCLUDE_NO_VALUE_FIELDS EXPORT_FORMAT GET_METHOD SUBMIT_COORDINATES XFDF INCLUDE_APPEND_SAVES INCLUDE_ANNOTATIONS SUBMIT_PDF CANONICAL_FORMAT EXCLUDE_NON_USER_ANNOTS EXCLUDE_F_KEY EMBED_FORM;
}

pub const ROOTS: &[Root] = &[
    root!(own "AppearanceEntry" AppearanceEntry<'_>: w_appearance_entry),
    chunk_root!(annotation: w_annotation),
    root!("AppearanceCharacteristics" AppearanceCharacteristics<'_>: w_appearance_characteristics),
    root!("IconFit" IconFit<'_>: w_icon_fit),
    root!("Appearance" Appearance<'_>: w_appearance),
    root!("BorderStyle" BorderStyle<'_>: w_border_style),
    root!("Action" Action<'_>: w_action),
    root!("Fields" Fields<'_>: w_fields),
    root!("AdditionalActions" AdditionalActions<'_>: w_additional_actions),
    root!("Rendition" Rendition<'_>: w_rendition),
    root!("MediaClip" MediaClip<'_>: w_media_clip),
    root!("MediaPlayParams" MediaPlayParams<'_>: w_media_play_params),
    root!("MediaPermissions" MediaPermissions<'_>: w_media_permissions),
    chunk_root!(file_spec: w_file_spec),
    chunk_root!(stream embedded_file: w_embedded_file),
    root!("EmbeddingParams" EmbeddingParams<'_>: w_embedding_params),
    root!("Transition" Transition<'_>: w_transition),
];
