-------------------------------- MODULE ApiGraphics --------------------------------
(* Colour, patterns, shadings, functions, external objects, graphics state (7.10, 8, 11, 14.6). *)
EXTENDS ApiBase

GraphicsApi == [
    IccProfile |-> W("stream", <<>>,
      [
        n |-> "N", alternate_name |-> "Alternate", range |-> "Range",
        metadata |-> "Metadata"],
      [
        alternate |-> <<"Alternate", "ColorSpace">>]),
    Separation |-> W("array", <<>>,
      [alternate_device |-> "*", alternate_color_space_ref |-> "*", tint_ref |-> "*"],
      [alternate_color_space |-> <<"", "ColorSpace">>,
       tint_exponential |-> <<"", "ExponentialFunction">>,
       tint_stitching |-> <<"", "StitchingFunction">>]),
    DeviceN |-> W("array", <<>>,
      [alternate_device |-> "*", alternate_color_space_ref |-> "*", tint_ref |-> "*"],
      [alternate_color_space |-> <<"", "ColorSpace">>,
       tint_exponential |-> <<"", "ExponentialFunction">>,
       tint_stitching |-> <<"", "StitchingFunction">>,
       attrs |-> <<"", "DeviceNAttrs">>]),
    ColorSpace |-> W("slot", <<>>, NoSet, NoSub),
    DeviceNAttrs |-> W("dict", <<>>,
      [
        subtype |-> "Subtype"],
      [
        colorants |-> <<"Colorants", "T:Dict">>,
        process |-> <<"Process", "DeviceNProcess">>,
        mixing_hints |-> <<"MixingHints", "DeviceNMixingHints">>]),
    DeviceNProcess |-> W("dict", <<>>,
      [
        color_space |-> "ColorSpace", components |-> "Components"],
      [
        color_space_array |-> <<"ColorSpace", "ColorSpace">>]),
    DeviceNMixingHints |-> W("dict", <<>>,
      [
        printing_order |-> "PrintingOrder"],
      [
        solidities |-> <<"Solidities", "T">>, dot_gain |-> <<"DotGain", "T">>]),
    TilingPattern |-> W("stream", <<Key("Type", Name("Pattern")), Key("PatternType", IntV(1))>>,
      [
        paint_type |-> "PaintType", tiling_type |-> "TilingType",
        bbox |-> "BBox", x_step |-> "XStep", y_step |-> "YStep",
        matrix |-> "Matrix"],
      [
        resources |-> <<"Resources", "Resources">>]),
    ShadingPattern |-> W("dict", <<Key("Type", Name("Pattern")), Key("PatternType", IntV(2))>>,
      [
        shading_ref |-> "Shading", matrix |-> "Matrix"],
      [
        function_shading |-> <<"Shading", "FunctionShading">>,
        ext_graphics |-> <<"ExtGState", "ExtGraphicsState">>]),
    FunctionShading |-> W("dict", <<>>,
      [
        shading_type |-> "ShadingType", background |-> "Background",
        bbox |-> "BBox", anti_alias |-> "AntiAlias", domain |-> "Domain",
        matrix |-> "Matrix", function |-> "Function", coords |-> "Coords",
        extend |-> "Extend"],
      [
        color_space |-> <<"ColorSpace", "ColorSpace">>]),
    StreamShading |-> W("stream", <<>>,
      [
        shading_type |-> "ShadingType", background |-> "Background",
        bbox |-> "BBox", anti_alias |-> "AntiAlias", function |-> "Function",
        bits_per_coordinate |-> "BitsPerCoordinate",
        bits_per_component |-> "BitsPerComponent",
        bits_per_flag |-> "BitsPerFlag", decode |-> "Decode",
        vertices_per_row |-> "VerticesPerRow"],
      [
        color_space |-> <<"ColorSpace", "ColorSpace">>]),
    SeparationInfo |-> W("dict", <<>>,
      [
        pages |-> "Pages", device_colorant |-> "DeviceColorant",
        device_colorant_str |-> "DeviceColorant"],
      [
        color_space |-> <<"ColorSpace", "ColorSpace">>]),
    OutputIntent |-> W("dict", <<Key("Type", Name("OutputIntent"))>>,
      [
        subtype |-> "S", output_condition |-> "OutputCondition",
        output_condition_identifier |-> "OutputConditionIdentifier",
        registry_name |-> "RegistryName", info |-> "Info",
        dest_output_profile |-> "DestOutputProfile"],
      NoSub),
    ImageXObject |-> W("stream", <<Key("Type", Name("XObject")), Key("Subtype", Name("Image"))>>,
      [
        width |-> "Width", height |-> "Height",
        color_space_name |-> "ColorSpace",
        bits_per_component |-> "BitsPerComponent", intent |-> "Intent",
        image_mask |-> "ImageMask", color_mask |-> "Mask",
        stencil_mask |-> "Mask", decode |-> "Decode",
        interpolate |-> "Interpolate", alternates |-> "Alternates",
        s_mask |-> "SMask", s_mask_in_data |-> "SMaskInData",
        struct_parent |-> "StructParent", matte |-> "Matte",
        metadata |-> "Metadata"],
      [
        color_space |-> <<"ColorSpace", "ColorSpace">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    FormXObject |-> W("stream", <<Key("Type", Name("XObject")), Key("Subtype", Name("Form"))>>,
      [
        bbox |-> "BBox", matrix |-> "Matrix",
        struct_parent |-> "StructParent", struct_parents |-> "StructParents",
        metadata |-> "Metadata", last_modified |-> "LastModified"],
      [
        resources |-> <<"Resources", "Resources">>,
        group |-> <<"Group", "Group">>, reference |-> <<"Ref", "Reference">>,
        associated_files |-> <<"AF", "A:FileSpec">>]),
    Group |-> W("dict", <<Key("Type", Name("Group"))>>,
      [
        transparency |-> "*", isolated |-> "I", knockout |-> "K"],
      [
        color_space |-> <<"CS", "ColorSpace">>]),
    Reference |-> W("dict", <<>>,
      [
        page_number |-> "Page", page_label |-> "Page", id |-> "ID"],
      [
        file_spec |-> <<"F", "FileSpec">>]),
    SampledFunction |-> W("stream", <<Key("FunctionType", IntV(0))>>,
      [
        domain |-> "Domain", range |-> "Range",
        size |-> "Size", bits_per_sample |-> "BitsPerSample",
        order |-> "Order", encode |-> "Encode", decode |-> "Decode"],
      NoSub),
    ExponentialFunction |-> W("dict", <<Key("FunctionType", IntV(2))>>,
      [
        domain |-> "Domain", range |-> "Range",
        c0 |-> "C0", c1 |-> "C1", n |-> "N"],
      NoSub),
    StitchingFunction |-> W("dict", <<Key("FunctionType", IntV(3))>>,
      [
        domain |-> "Domain", range |-> "Range",
        functions |-> "Functions", bounds |-> "Bounds", encode |-> "Encode"],
      NoSub),
    PostScriptFunction |-> W("stream", <<Key("FunctionType", IntV(4))>>,
      [
        domain |-> "Domain", range |-> "Range"],
      NoSub),
    PropertyList |-> W("dict", <<>>,
      [
        identify |-> "MCID", actual_text |-> "ActualText"],
      NoSub),
    Artifact |-> W("dict", <<>>,
      [
        kind |-> "Type", subtype |-> "Subtype", bounding_box |-> "BBox",
        attached |-> "Attached"],
      NoSub),
    Resources |-> W("dict", <<>>,
      [
        proc_sets |-> "ProcSet", proc_sets_all |-> "*"],
      [
        x_objects |-> <<"XObject", "T">>, fonts |-> <<"Font", "T">>,
        color_spaces |-> <<"ColorSpace", "T">>,
        patterns |-> <<"Pattern", "T">>, shadings |-> <<"Shading", "T">>,
        ext_g_states |-> <<"ExtGState", "T">>,
        properties |-> <<"Properties", "T:PropertyList">>]),
    ExtGraphicsState |-> W("dict", <<Key("Type", Name("ExtGState"))>>,
      [
        line_width |-> "LW", line_cap |-> "LC", line_join |-> "LJ",
        miter_limit |-> "ML", dash_pattern |-> "D", rendering_intent |-> "RI",
        overprint |-> "OP", overprint_fill |-> "op", overprint_mode |-> "OPM",
        font |-> "Font", black_generation |-> "BG",
        black_generation_default |-> "*", undercolor_removal |-> "UCR",
        undercolor_removal_default |-> "*", transfer |-> "TR",
        transfer_default |-> "*", halftone |-> "HT", halftone_default |-> "*",
        flatness |-> "FL", smoothness |-> "SM", stroke_adjustment |-> "SA",
        blend_mode |-> "BM", soft_mask_name |-> "SMask",
        stroking_alpha |-> "CA", non_stroking_alpha |-> "ca",
        alpha_source |-> "AIS", text_knockout |-> "TK"],
      [
        soft_mask |-> <<"SMask", "SoftMask">>]),
    SoftMask |-> W("dict", <<Key("Type", Name("Mask"))>>,
      [
        subtype |-> "S", group |-> "G", backdrop |-> "BC",
        transfer_function |-> "TR"],
      NoSub)]

GraphicsNames == [
    DeviceColorSpace_Rgb |-> "DeviceRGB",
    DeviceColorSpace_Cmyk |-> "DeviceCMYK",
    DeviceColorSpace_Gray |-> "DeviceGray",
    DeviceNSubtype_DeviceN |-> "DeviceN",
    DeviceNSubtype_NChannel |-> "NChannel",
    OutputIntentSubtype_PDFX |-> "GTS_PDFX",
    OutputIntentSubtype_PDFA |-> "GTS_PDFA1",
    OutputIntentSubtype_PDFE |-> "ISO_PDFE1",
    RenderingIntent_AbsoluteColorimetric |-> "AbsoluteColorimetric",
    RenderingIntent_RelativeColorimetric |-> "RelativeColorimetric",
    RenderingIntent_Saturation |-> "Saturation",
    RenderingIntent_Perceptual |-> "Perceptual",
    ColorSpaceOperand_DeviceGray |-> "DeviceGray",
    ColorSpaceOperand_DeviceRgb |-> "DeviceRGB",
    ColorSpaceOperand_DeviceCmyk |-> "DeviceCMYK",
    ColorSpaceOperand_Pattern |-> "Pattern",
    ArtifactType_Pagination |-> "Pagination",
    ArtifactType_Layout |-> "Layout", ArtifactType_Page |-> "Page",
    ArtifactType_Background |-> "Background",
    ArtifactType_Inline |-> "Inline", ArtifactSubtype_Header |-> "Header",
    ArtifactSubtype_Footer |-> "Footer",
    ArtifactSubtype_Watermark |-> "Watermark",
    ArtifactSubtype_PageNumber |-> "PageNum",
    ArtifactSubtype_Bates |-> "Bates",
    ArtifactSubtype_LineNumber |-> "LineNum",
    ArtifactSubtype_Redaction |-> "Redaction",
    ArtifactAttachment_Left |-> "Left", ArtifactAttachment_Top |-> "Top",
    ArtifactAttachment_Right |-> "Right",
    ArtifactAttachment_Bottom |-> "Bottom", ProcSet_Pdf |-> "PDF",
    ProcSet_Text |-> "Text", ProcSet_ImageGrayscale |-> "ImageB",
    ProcSet_ImageColor |-> "ImageC", ProcSet_ImageIndexed |-> "ImageI",
    BlendMode_Normal |-> "Normal", BlendMode_Multiply |-> "Multiply",
    BlendMode_Screen |-> "Screen", BlendMode_Overlay |-> "Overlay",
    BlendMode_Darken |-> "Darken", BlendMode_Lighten |-> "Lighten",
    BlendMode_ColorDodge |-> "ColorDodge",
    BlendMode_ColorBurn |-> "ColorBurn", BlendMode_HardLight |-> "HardLight",
    BlendMode_SoftLight |-> "SoftLight",
    BlendMode_Difference |-> "Difference",
    BlendMode_Exclusion |-> "Exclusion", BlendMode_Hue |-> "Hue",
    BlendMode_Saturation |-> "Saturation", BlendMode_Color |-> "Color",
    BlendMode_Luminosity |-> "Luminosity", MaskType_Alpha |-> "Alpha",
    MaskType_Luminosity |-> "Luminosity"]

GraphicsInts == [
    PaintType_Colored |-> 1, PaintType_Uncolored |-> 2,
    TilingType_ConstantSpacing |-> 1, TilingType_NoDistortion |-> 2,
    TilingType_FastConstantSpacing |-> 3, FunctionShadingType_Function |-> 1,
    FunctionShadingType_Axial |-> 2, FunctionShadingType_Radial |-> 3,
    StreamShadingType_FreeformGouraud |-> 4,
    StreamShadingType_LatticeGouraud |-> 5,
    StreamShadingType_CoonsPatch |-> 6,
    StreamShadingType_TensorProductPatch |-> 7, SMaskInData_Ignore |-> 0,
    SMaskInData_Use |-> 1, SMaskInData_Preblended |-> 2,
    InterpolationOrder_Linear |-> 1, InterpolationOrder_Cubic |-> 3,
    LineCapStyle_ButtCap |-> 0, LineCapStyle_RoundCap |-> 1,
    LineCapStyle_ProjectingSquareCap |-> 2, LineJoinStyle_MiterJoin |-> 0,
    LineJoinStyle_RoundJoin |-> 1, LineJoinStyle_BevelJoin |-> 2,
    TextRenderingMode_Fill |-> 0, TextRenderingMode_Stroke |-> 1,
    TextRenderingMode_FillStroke |-> 2, TextRenderingMode_Invisible |-> 3,
    TextRenderingMode_FillClip |-> 4, TextRenderingMode_StrokeClip |-> 5,
    TextRenderingMode_FillStrokeClip |-> 6, TextRenderingMode_Clip |-> 7,
    OverprintMode_OverrideAllColorants |-> 0,
    OverprintMode_IgnoreZeroChannel |-> 1]
===============================================================================
