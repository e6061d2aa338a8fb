//! Colours, patterns, shadings, functions and external objects.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_icc_profile: IccProfile<'_> as "IccProfile" + stream {
    own alternate() w_color_space;
    set alternate_name(KName);
    set range(KFs);
    set metadata(KRef);
    try n(KIccN);
}}
walker! { w_separation: Separation<'_> as "Separation" {
    try alternate_device(KE<DeviceColorSpace>);
    tryown alternate_color_space() w_color_space;
    try alternate_color_space_ref(KRef);
    trysub tint_exponential() w_exponential_function;
    trysub tint_stitching() w_stitching_function;
    try tint_ref(KRef);
}}
walker! { w_device_n: DeviceN<'_> as "DeviceN" {
    try alternate_device(KE<DeviceColorSpace>);
    tryown alternate_color_space() w_color_space;
    try alternate_color_space_ref(KRef);
    trysub tint_exponential() w_exponential_function;
    trysub tint_stitching() w_stitching_function;
    try tint_ref(KRef);
    trysub attrs() w_device_n_attrs;
}}
walker! { w_device_n_attrs: DeviceNAttrs<'_> as "DeviceNAttrs" {
    set subtype(KE<DeviceNSubtype>);
    sub colorants() t_dict;
    sub process() w_device_n_process;
    sub mixing_hints() w_device_n_mixing_hints;
}}
walker! { w_device_n_process: DeviceNProcess<'_> as "DeviceNProcess" {
    set color_space(KName);
    own color_space_array() w_color_space;
    set components(KNames);
}}
walker! { w_device_n_mixing_hints: DeviceNMixingHints<'_> as "DeviceNMixingHints" {
    sub solidities() pairs::<KF, f32>;
    set printing_order(KNames);
    sub dot_gain() pairs::<KF, f32>;
}}
walker! { w_tiling_pattern: TilingPattern<'_> as "TilingPattern" + stream {
    set paint_type(KE<PaintType>);
    set tiling_type(KE<TilingType>);
    set bbox(KRect);
    sub resources() w_resources;
    set matrix(KF6);
    try x_step(KStep);
    try y_step(KStep);
}}
walker! { w_shading_pattern: ShadingPattern<'_> as "ShadingPattern" + dict {
    sub function_shading() w_function_shading;
    set shading_ref(KRef);
    set matrix(KF6);
    sub ext_graphics() w_ext_graphics_state;
}}
walker! { w_function_shading: FunctionShading<'_> as "FunctionShading" + dict {
    set shading_type(KE<FunctionShadingType>);
    own color_space() w_color_space;
    set background(KFs);
    set bbox(KRect);
    set anti_alias(KBool);
    set domain(KF4);
    set matrix(KF6);
    set function(KRef);
    set coords(KFs);
    set extend(KB2);
}}
walker! { w_stream_shading: StreamShading<'_> as "StreamShading" + stream {
    set shading_type(KE<StreamShadingType>);
    own color_space() w_color_space;
    set background(KFs);
    set bbox(KRect);
    set anti_alias(KBool);
    set function(KRef);
    set bits_per_coordinate(KInt);
    set bits_per_component(KInt);
    set bits_per_flag(KInt);
    set decode(KFs);
    set vertices_per_row(KInt);
}}
walker! { w_separation_info: SeparationInfo<'_> as "SeparationInfo" {
    set pages(KRefs);
    set device_colorant(KName);
    own color_space() w_color_space;
    set device_colorant_str(KStrText);
}}
walker! { w_output_intent: OutputIntent<'_> as "OutputIntent" {
    text output_condition();
    text output_condition_identifier();
    set registry_name(KText);
    text info();
    set dest_output_profile(KRef);
    set subtype(KIntent);
}}
walker! { w_image_x_object: ImageXObject<'_> as "ImageXObject" + stream {
    set width(KInt);
    set height(KInt);
    own color_space() w_color_space;
    set color_space_name(KName);
    set bits_per_component(KInt);
    set intent(KE<RenderingIntent>);
    set image_mask(KBool);
    set color_mask(KInts);
    set stencil_mask(KRef);
    set decode(KFs);
    set interpolate(KBool);
    set alternates(KRefs);
    set s_mask(KRef);
    set s_mask_in_data(KE<SMaskInData>);
    set struct_parent(KInt);
    set matte(KFs);
    set metadata(KRef);
    sub associated_files() a_file_spec;
}}
walker! { w_form_x_object: FormXObject<'_> as "FormXObject" + stream {
    set bbox(KRect);
    set matrix(KF6);
    sub resources() w_resources;
    sub group() w_group;
    set struct_parent(KInt);
    set struct_parents(KInt);
    sub reference() w_reference;
    set metadata(KRef);
    set last_modified(KDate);
    sub associated_files() a_file_spec;
}}
walker! { w_group: Group<'_> as "Group" + dict {
    own color_space() w_color_space;
    set isolated(KBool);
    set knockout(KBool);
    set transparency();
}}
walker! { w_reference: Reference<'_> as "Reference" + dict {
    sub file_spec() w_file_spec;
    set page_number(KInt);
    text page_label();
    set id(KStr2);
}}
walker! { w_sampled_function: SampledFunction<'_> as "SampledFunction" + stream {
    set domain(KFs);
    set range(KFs);
    set size(KInts);
    set bits_per_sample(KInt);
    set order(KE<InterpolationOrder>);
    set encode(KFs);
    set decode(KFs);
}}
walker! { w_exponential_function: ExponentialFunction<'_> as "ExponentialFunction" + dict {
    set domain(KFs);
    set range(KFs);
    set c0(KFs);
    set c1(KFs);
    set n(KF);
}}
walker! { w_stitching_function: StitchingFunction<'_> as "StitchingFunction" + dict {
    set domain(KFs);
    set range(KFs);
    set functions(KRefs);
    set bounds(KFs);
    set encode(KFs);
}}
walker! { w_post_script_function: PostScriptFunction<'_> as "PostScriptFunction" + stream {
    set domain(KFs);
    set range(KFs);

}}
walker! { m_property_list: PropertyList<'_> as "PropertyList" + dict {
    set identify(KInt);
    text actual_text();
}}
walker! { w_artifact: Artifact<'_> as "Artifact" + dict {
    set kind(KE<ArtifactType>);
    set bounding_box(KRect);
    set subtype(KArtifactSubtype);
    set attached(KMany<KE<ArtifactAttachment>>);
}}
walker! { w_resources: Resources<'_> as "Resources" + dict {
    sub x_objects() dicts;
    sub fonts() dicts;
    sub color_spaces() dicts;
    sub patterns() dicts;
    sub shadings() dicts;
    sub ext_g_states() dicts;
    sub properties() t_property_list;
    set proc_sets(KMany<KE<ProcSet>>);
    set proc_sets_all();
}}
walker! { w_ext_graphics_state: ExtGraphicsState<'_> as "ExtGraphicsState" + dict {
    set line_width(KF);
    set line_cap(KE<LineCapStyle>);
    set line_join(KE<LineJoinStyle>);
    set miter_limit(KF);
    set rendering_intent(KE<RenderingIntent>);
    set overprint(KBool);
    set overprint_fill(KBool);
    set overprint_mode(KE<OverprintMode>);
    set black_generation(KRef);
    set undercolor_removal(KRef);
    set transfer(KRef);
    set halftone(KRef);
    set flatness(KF);
    set smoothness(KF);
    set stroke_adjustment(KBool);
    set blend_mode(KE<BlendMode>);
    sub soft_mask() w_soft_mask;
    set soft_mask_name(KName);
    set stroking_alpha(KF);
    set non_stroking_alpha(KF);
    set alpha_source(KBool);
    set text_knockout(KBool);
    set dash_pattern(KFs, KF);
    set font(KName, KF);
    set black_generation_default();
    set undercolor_removal_default();
    set transfer_default();
    set halftone_default();
}}
walker! { w_soft_mask: SoftMask<'_> as "SoftMask" + dict {
    set subtype(KE<MaskType>);
    set group(KRef);
    set backdrop(KFs);
    set transfer_function(KRef);
}}

/// A property list, possibly turned into that of an artifact.
pub fn w_property_list(cx: &mut Cx, mut w: PropertyList<'_>) {
    m_property_list(cx, &mut w);
    if cx.probe {
        return;
    }
    if cx.r.p(40) {
        cx.writer = "PropertyList";
        cx.conv("artifact", &[]);
        let mut a = w.artifact();
        w_artifact(cx, &mut a);
        done(cx, a);
    } else {
        done(cx, w);
    }
}

pub fn w_color_space(cx: &mut Cx, w: ColorSpace<'_>) {
    macro_rules! fill {
        ($m:ident($($x:ident: $a:ty),*)) => {
            |cx, w| {
                $(let $x = <$a as K>::gen(cx);)*
                w.$m($($x.a()),*);
                cx.fill(stringify!($m), &[$($x.v()),*]);
            }
        };
    }
    once(cx, "ColorSpace", w, &[
        fill!(cal_rgb(a: KF3, b: KOpt<KF3>, c: KOpt<KF3>, d: KOpt<KF9>)),
        fill!(cal_gray(a: KF3, b: KOpt<KF3>, c: KOpt<KF>)),
        fill!(lab(a: KF3, b: KOpt<KF3>, c: KOpt<KF4>)),
        fill!(icc_based(a: KRef)),
        fill!(srgb()),
        fill!(adobe_rgb()),
        fill!(display_p3()),
        fill!(pro_photo()),
        fill!(eci_rgb()),
        fill!(ntsc()),
        fill!(pal()),
        fill!(d65_gray()),
        fill!(d50_gray(a: KOpt<KF>)),
        fill!(c_gray()),
        fill!(e_gray(a: KOpt<KF>)),
        fill!(device_rgb()),
        fill!(device_cmyk()),
        fill!(device_gray()),
        fill!(indexed(a: KName, b: KInt, c: KBytes)),
        fill!(pattern(a: KName)),
        |cx, w| {
            let x = KName::gen(cx);
            cx.conv("separation", &[x.v()]);
            let mut s = w.separation(x.a());
            w_separation(cx, &mut s);
            done(cx, s);
        },
        |cx, w| {
            let x = KNames::gen(cx);
            cx.conv("device_n", &[x.v()]);
            let mut s = w.device_n(x.a());
            w_device_n(cx, &mut s);
            done(cx, s);
        },
    ]);
}

nested! {
    a_output_intent t_output_intent OutputIntent: w_output_intent;
    a_property_list t_property_list own PropertyList: w_property_list;
    a_dict t_dict Dict: dicts;
}

enums! {
    DeviceColorSpace: Rgb Cmyk Gray;
    DeviceNSubtype: DeviceN NChannel;
    PaintType: Colored Uncolored;
    TilingType: ConstantSpacing NoDistortion FastConstantSpacing;
    FunctionShadingType: Function Axial Radial;
    StreamShadingType: FreeformGouraud LatticeGouraud CoonsPatch TensorProductPatch;
    SMaskInData: Ignore Use Preblended;
    InterpolationOrder: Linear Cubic;
    LineCapStyle: ButtCap RoundCap ProjectingSquareCap;
    LineJoinStyle: MiterJoin RoundJoin BevelJoin;
    RenderingIntent: AbsoluteColorimetric RelativeColorimetric Saturation Perceptual;
    TextRenderingMode: Fill Stroke FillStroke Invisible FillClip StrokeClip FillStrokeClip Clip;
    ArtifactType: Pagination Layout Page Background Inline;
    ArtifactAttachment: Left Top Right Bottom;
    ProcSet: Pdf Text ImageGrayscale ImageColor ImageIndexed;
    BlendMode: Normal Multiply Screen Overlay Darken Lighten ColorDodge ColorBurn HardLight SoftLight Difference Exclusion Hue Saturation Color Luminosity;
    OverprintMode: OverrideAllColorants IgnoreZeroChannel;
    MaskType: Alpha Luminosity;
}

/// A colour space that is a separation, or of several colorants.
fn separation_root(cx: &mut Cx, ch: &mut Chunk, id: i32) {
    cx.ev(&format!("\"e\":\"ind\",\"c\":1,\"id\":{id}"));
    cx.ev("\"e\":\"start\",\"w\":\"ColorSpace\"");
    cx.conv("separation", &[name(b"Spot")]);
    let mut s = ch.color_space(Ref::new(id)).separation(Name(b"Spot"));
    w_separation(cx, &mut s);
    done(cx, s);
}
fn device_n_root(cx: &mut Cx, ch: &mut Chunk, id: i32) {
    cx.ev(&format!("\"e\":\"ind\",\"c\":1,\"id\":{id}"));
    cx.ev("\"e\":\"start\",\"w\":\"ColorSpace\"");
    let x = KNames::gen(cx);
    cx.conv("device_n", &[x.v()]);
    let mut s = ch.color_space(Ref::new(id)).device_n(x.a());
    w_device_n(cx, &mut s);
    done(cx, s);
}

pub const ROOTS: &[Root] = &[
    chunk_root!(own color_space: w_color_space),
    ("Separation", separation_root),
    ("DeviceN", device_n_root),
    chunk_root!(stream icc_profile: w_icc_profile),
    root!("DeviceNAttrs" DeviceNAttrs<'_>: w_device_n_attrs),
    root!("DeviceNProcess" DeviceNProcess<'_>: w_device_n_process),
    root!("DeviceNMixingHints" DeviceNMixingHints<'_>: w_device_n_mixing_hints),
    chunk_root!(stream tiling_pattern: w_tiling_pattern),
    chunk_root!(shading_pattern: w_shading_pattern),
    chunk_root!(function_shading: w_function_shading),
    chunk_root!(stream stream_shading: w_stream_shading),
    root!("SeparationInfo" SeparationInfo<'_>: w_separation_info),
    root!("OutputIntent" OutputIntent<'_>: w_output_intent),
    chunk_root!(stream image_xobject: w_image_x_object),
    chunk_root!(stream form_xobject: w_form_x_object),
    root!("Group" Group<'_>: w_group),
    root!("Reference" Reference<'_>: w_reference),
    chunk_root!(stream sampled_function: w_sampled_function),
    chunk_root!(exponential_function: w_exponential_function),
    chunk_root!(stitching_function: w_stitching_function),
    chunk_root!(stream post_script_function: w_post_script_function),
    root!(own "PropertyList" PropertyList<'_>: w_property_list),
    root!("Artifact" Artifact<'_>: w_artifact),
    root!("Resources" Resources<'_>: w_resources),
    chunk_root!(ext_graphics: w_ext_graphics_state),
    root!("SoftMask" SoftMask<'_>: w_soft_mask),
];
