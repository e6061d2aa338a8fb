//! Document structure.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_catalog: Catalog<'_> as "Catalog" + dict {
    set pages(KRef);
    set page_layout(KE<PageLayout>);
    sub page_labels() number_tree::<KRef, Ref>;
    set page_mode(KE<PageMode>);
    sub viewer_preferences() w_viewer_preferences;
    sub names() w_names;
    set destinations(KRef);
    set outlines(KRef);
    sub struct_tree_root() w_struct_tree_root;
    sub mark_info() w_mark_info;
    set lang(KText);
    sub additional_actions() w_additional_actions;
    sub form() w_form;
    set metadata(KRef);
    sub extensions() t_developer_extension;
    sub separation_info() w_separation_info;
    sub output_intents() a_output_intent;
    sub associated_files() a_file_spec;
    set version(KU8, KU8);
}}
walker! { w_developer_extension: DeveloperExtension<'_> as "DeveloperExtension" + dict {
    set extension_level(KInt);
    set base_version(KU8, KU8);
}}
walker! { w_viewer_preferences: ViewerPreferences<'_> as "ViewerPreferences" + dict {
    set hide_toolbar(KBool);
    set hide_menubar(KBool);
    set fit_window(KBool);
    set center_window(KBool);
    set display_doc_title(KBool);
    set direction(KE<Direction>);
    try non_full_screen_page_mode(KE<PageMode>);
}}
walker! { w_struct_tree_root: StructTreeRoot<'_> as "StructTreeRoot" + dict {
    set child(KRef);
    sub children() refs;
    sub id_tree() name_tree::<KRef, Ref>;
    sub parent_tree() number_tree::<KRef, Ref>;
    set parent_tree_next_key(KInt);
    sub role_map() w_role_map;
    sub class_map() w_class_map;
    sub namespaces() refs;
    sub pronunciation_lexicon() refs;
    sub associated_files() a_file_spec;
}}
walker! { w_struct_element: StructElement<'_> as "StructElement" + dict {
    set kind(KE<StructRole>);
    set custom_kind(KName);
    set parent(KRef);
    set id(KStr);
    set refs(KRefs);
    set page(KRef);
    set child(KRef);
    sub marked_content_child() w_marked_ref;
    sub object_child() w_object_ref;
    sub children() w_struct_children;
    sub attributes() a_attributes;
    sub attribute_class() name_items;
    set revision(KInt);
    text title();
    set lang(KText);
    text alt();
    text expanded();
    text actual_text();
    sub associated_files() a_file_spec;
    set namespace(KRef);
    set phoneme(KText);
    set kind_2(KRole2, KRef);
    set phonetic_alphabet(KPhonetic);
}}
walker! { w_struct_children: StructChildren<'_> as "StructChildren" + array {
    set struct_element(KRef);
    set marked_content_id(KInt);
    sub marked_content_ref() w_marked_ref;
    sub object_ref() w_object_ref;
}}
walker! { w_marked_ref: MarkedRef<'_> as "MarkedRef" + dict {
    set page(KRef);
    set stream(KRef);
    set stream_owner(KRef);
    set marked_content_id(KInt);
}}
walker! { w_object_ref: ObjectRef<'_> as "ObjectRef" + dict {
    set page(KRef);
    set object(KRef);
}}
walker! { w_role_map: RoleMap<'_> as "RoleMap" + name_pairs {
    set insert(KName, KE<StructRole>);
}}
walker! { w_class_map: ClassMap<'_> as "ClassMap" + dict {
    own single(KName) w_attributes;
    sub multiple(KName) a_attributes;
}}
walker! { m_namespace: Namespace<'_> as "Namespace" + dict {
    set ns(KText);
    sub schema() w_file_spec;
    sub role_map_ns() w_namespace_role_map;
}}
walker! { w_namespace_role_map: NamespaceRoleMap<'_> as "NamespaceRoleMap" + dict {
    set to_pdf_1_7(KName, KE<StructRole>);
    set to_pdf_2_0(KName, KRole2, KRef);
    set to_namespace(KName, KName, KRef);
}}
walker! { w_mark_info: MarkInfo<'_> as "MarkInfo" + dict {
    set marked(KBool);
    set user_properties(KBool);
    set suspects(KBool);
}}
walker! { w_page_label: PageLabel<'_> as "PageLabel" + dict {
    set style(KE<NumberingStyle>);
    text prefix();
    set offset(KInt);
}}
walker! { w_document_info: DocumentInfo<'_> as "DocumentInfo" + dict {
    text title();
    text author();
    text subject();
    text keywords();
    text creator();
    text producer();
    set creation_date(KDate);
    set modified_date(KDate);
    set trapped(KE<TrappingStatus>);
}}
walker! { w_pages: Pages<'_> as "Pages" + dict {
    set parent(KRef);
    set kids(KRefs);
    set count(KInt);
    set media_box(KRect);
    sub resources() w_resources;
}}
walker! { w_page: Page<'_> as "Page" + dict {
    set parent(KRef);
    set last_modified(KDate);
    set media_box(KRect);
    set crop_box(KRect);
    set bleed_box(KRect);
    set trim_box(KRect);
    set art_box(KRect);
    sub resources() w_resources;
    set contents(KRef);
    set contents_array(KRefs);
    set rotate(KInt);
    sub group() w_group;
    set thumbnail(KRef);
    set duration(KF);
    sub transition() w_transition;
    set annotations(KRefs);
    set struct_parents(KInt);
    set tab_order(KE<TabOrder>);
    set user_unit(KF);
    sub additional_actions() w_additional_actions;
    set metadata(KRef);
    sub associated_files() a_file_spec;
}}
walker! { w_outline: Outline<'_> as "Outline" + dict {
    set first(KRef);
    set last(KRef);
    try count(KInt);
}}
walker! { w_outline_item: OutlineItem<'_> as "OutlineItem" + dict {
    text title();
    set parent(KRef);
    set prev(KRef);
    set next(KRef);
    set first(KRef);
    set last(KRef);
    set count(KInt);
    own dest() w_destination;
    set dest_name(KName);
    set color_rgb(KF, KF, KF);
    set flags(KFl<OutlineItemFlags>);
}}
walker! { w_names: Names<'_> as "Names" + dict {
    sub destinations() name_tree::<KRef, Ref>;
    sub appearances() name_tree::<KRef, Ref>;
    sub javascript() name_tree::<KRef, Ref>;
    sub pages() name_tree::<KRef, Ref>;
    sub templates() name_tree::<KRef, Ref>;
    sub capture_ids() name_tree::<KRef, Ref>;
    sub capture_urls() name_tree::<KRef, Ref>;
    sub embedded_files() name_tree::<KRef, Ref>;
    sub alternate_presentations() name_tree::<KRef, Ref>;
    sub renditions() name_tree::<KRef, Ref>;
}}
walker! { w_metadata: Metadata<'_> as "Metadata" + stream {

}}

/// A namespace, possibly one of the known ones, which end the writer.
pub fn w_namespace(cx: &mut Cx, mut w: Namespace<'_>) {
    m_namespace(cx, &mut w);
    if cx.probe {
        return;
    }
    let m = ["", "pdf_2_ns", "pdf_1_7_ns", "mathml_3_0_ns"][cx.r.n(4)];
    if m == "" {
        return done(cx, w);
    }
    cx.writer = "Namespace";
    cx.m(m, &[]);
    match m {
        "pdf_2_ns" => w.pdf_2_ns(),
        "pdf_1_7_ns" => w.pdf_1_7_ns(),
        _ => w.mathml_3_0_ns(),
    }
    cx.end();
}

pub fn w_destination(cx: &mut Cx, w: Destination<'_>) {
    fn page(cx: &mut Cx, mut w: Destination<'_>, f: impl for<'x> FnOnce(&mut Cx, Destination<'x>)) {
        if cx.r.p(80) {
            let r = KRef::gen(cx);
            w = w.page(r.a());
            cx.m("page", &[r.v()]);
        } else {
            // As for a destination in another file.
            let n = KInt::gen(cx);
            w.item(n.a());
            cx.ev(&format!("\"e\":\"items\",\"v\":{}", jvs(&[n.v()])));
        }
        f(cx, w);
        cx.end();
    }
    macro_rules! dest {
        ($m:ident($($x:ident: $a:ty),*)) => {
            |cx, w| page(cx, w, |cx, w| {
                $(let $x = <$a as K>::gen(cx);)*
                w.$m($($x.a()),*);
                cx.m(stringify!($m), &[$($x.v()),*]);
            })
        };
    }
    once(cx, "Destination", w, &[
        dest!(xyz(x: KF, y: KF, z: KOpt<KF>)),
        dest!(fit()),
        dest!(fit_horizontal(x: KF)),
        dest!(fit_vertical(x: KF)),
        dest!(fit_rect(x: KRect)),
        dest!(fit_bounding_box()),
        dest!(fit_bounding_box_horizontal(x: KF)),
        dest!(fit_bounding_box_vertical(x: KF)),
    ]);
}

nested! {
    a_destination t_destination own Destination: w_destination;
    a_developer_extension t_developer_extension DeveloperExtension: w_developer_extension;
}

enums! {
    PageLayout: SinglePage OneColumn TwoColumnLeft TwoColumnRight TwoPageLeft TwoPageRight;
    PageMode: UseNone UseOutlines UseThumbs FullScreen UseOC UseAttachments;
    StructRole: Document Part Art Sect Div BlockQuote Caption TOC TOCI Index NonStruct Private P StructuredHeading H1 H2 H3 H4 H5 H6 L LI Lbl LBody Table TR TH TD THead TBody TFoot Span Quote Note Reference BibEntry Code Link Annot Ruby Warichu RB RT RP WT WP Figure Formula Form;
    Direction: L2R R2L;
    NumberingStyle: Arabic LowerRoman UpperRoman LowerAlpha UpperAlpha;
    TrappingStatus: Trapped NotTrapped Unknown;
    TabOrder: RowOrder ColumnOrder StructureOrder;
}
flags! {
    OutlineItemFlags: ITALIC BOLD;
}

pub const ROOTS: &[Root] = &[
    chunk_root!(own destination: w_destination),
    chunk_root!(destinations: t_destination),
    root!("Catalog" Catalog<'_>: w_catalog),
    root!("DeveloperExtension" DeveloperExtension<'_>: w_developer_extension),
    root!("ViewerPreferences" ViewerPreferences<'_>: w_viewer_preferences),
    root!("StructTreeRoot" StructTreeRoot<'_>: w_struct_tree_root),
    chunk_root!(struct_element: w_struct_element),
    root!("StructChildren" StructChildren<'_>: w_struct_children),
    root!("MarkedRef" MarkedRef<'_>: w_marked_ref),
    root!("ObjectRef" ObjectRef<'_>: w_object_ref),
    root!("RoleMap" RoleMap<'_>: w_role_map),
    root!("ClassMap" ClassMap<'_>: w_class_map),
    chunk_root!(own namespace: w_namespace),
    root!("NamespaceRoleMap" NamespaceRoleMap<'_>: w_namespace_role_map),
    root!("MarkInfo" MarkInfo<'_>: w_mark_info),
    root!("PageLabel" PageLabel<'_>: w_page_label),
    root!("DocumentInfo" DocumentInfo<'_>: w_document_info),
    chunk_root!(pages: w_pages),
    chunk_root!(page: w_page),
    chunk_root!(outline: w_outline),
    chunk_root!(outline_item: w_outline_item),
    root!("Names" Names<'_>: w_names),
    chunk_root!(stream metadata: w_metadata),
];
