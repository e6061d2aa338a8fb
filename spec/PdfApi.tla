-------------------------------- MODULE PdfApi --------------------------------
(***************************************************************************)
(* The typed writers: what each method of each writer type contributes to  *)
(* the object under construction.  The tables name the entry that a method *)
(* writes; here are the machine's actions that follow the tables, the      *)
(* methods that do something else, and the calls that are refused.         *)
(***************************************************************************)
EXTENDS PdfDocument, ApiStructure, ApiAttributes, ApiObject, ApiFonts, ApiForms,
        ApiInteractive, ApiGraphics, ApiContent, ApiMisc

Api == StructureApi @@ AttributesApi @@ ObjectApi @@ FontsApi @@ FormsApi
       @@ InteractiveApi @@ GraphicsApi
EnumNames == StructureNames @@ AttributesNames @@ ObjectNames @@ FontsNames @@ FormsNames
             @@ InteractiveNames @@ GraphicsNames
EnumInts == StructureInts @@ ObjectInts @@ FontsInts @@ FormsInts
            @@ InteractiveInts @@ GraphicsInts
EnumStrings == InteractiveStrings

----------------------------------------------------------------------------
(* What arguments denote.                                                  *)

\* The bits of the flags; some flags (for different types of fields) share one.
RECURSIVE SumOf(_)
SumOf(bits) == IF bits = {} THEN 0 ELSE LET x == CHOOSE x \in bits: TRUE IN x + SumOf(bits \ {x})
Flags(k) == SumOf({EnumInts[k[i].t]: i \in 1..Len(k)})

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

\* Equal as numbers, not as patterns of bits: there are two zeros.
SameValue(x, y) == x = y \/ (x.t = "f32" /\ y.t = "f32" /\ IsZeroF(x.b) /\ IsZeroF(y.b))
                   \/ (x.t = "array" /\ y.t = "array" /\ Len(x.k) = Len(y.k) /\
                       \A i \in 1..Len(x.k): x.k[i] = y.k[i] \/
                          (x.k[i].t = "f32" /\ y.k[i].t = "f32" /\ IsZeroF(x.k[i].b)
                           /\ IsZeroF(y.k[i].b)))

Basic == {"null", "bool", "int", "f32", "name", "str", "ref", "text", "lang", "rect", "date",
          "dict", "near"}

RECURSIVE Denote(_)
Denote(v) ==
    CASE v.t \in Basic -> v
      [] v.t = "array" -> Arr([i \in 1..Len(v.k) |-> Denote(v.k[i])])
      [] v.t = "flags" -> IntV(Flags(v.k))
      [] v.t = "sides" ->
           \* one value for all four sides if they agree
           IF \A i \in 2..4: SameValue(v.k[i], v.k[1]) THEN Denote(v.k[1])
           ELSE Arr([i \in 1..4 |-> Denote(v.k[i])])
      [] v.t = "heading" -> NameB(<<72>> \o Decimal(v.b[1]))
      [] v.t = "usage" -> StrB([i \in 1..9 |-> IF v.b[i] = 2 THEN 88 ELSE 48 + v.b[i]])
      [] v.t \in DOMAIN EnumNames -> Name(EnumNames[v.t])
      [] v.t \in DOMAIN EnumInts -> IntV(EnumInts[v.t])
      [] OTHER -> StrB(B(EnumStrings[v.t]))

DenoteAll(a) == [i \in 1..Len(a) |-> Denote(a[i])]

SystemInfo(a) == Dct(<<Key("Registry", a.k[1]), Key("Ordering", a.k[2]), Key("Supplement", a.k[3])>>)

\* A method that writes one entry: its argument, or the array of them.
KeyMethods == {"system_info"}
Setter(key, m, a) ==
    IF m \in KeyMethods THEN Key(key, SystemInfo(a[1]))
    ELSE Key(key, IF Len(a) = 1 THEN Denote(a[1]) ELSE Arr(DenoteAll(a)))

----------------------------------------------------------------------------
(* The other methods.                                                      *)

VersionName(a) == NameB(Decimal(a[1].b[1]) \o <<46>> \o Decimal(a[2].b[1]))
OneName(key, s) == <<Key(key, Name(s))>>
Flat(k) == k
AsStr(v) == StrB(v.b)

DestinationItems(m, d) ==
    CASE m = "page" -> d
      [] m = "xyz" -> <<Name("XYZ"), d[1], d[2],
                        IF d[3].t = "null" THEN V("f32", FZero, <<>>) ELSE d[3]>>
      [] m = "fit" -> <<Name("Fit")>>
      [] m = "fit_horizontal" -> <<Name("FitH")>> \o d
      [] m = "fit_vertical" -> <<Name("FitV")>> \o d
      [] m = "fit_rect" -> <<Name("FitR")>> \o d[1].k
      [] m = "fit_bounding_box" -> <<Name("FitB")>>
      [] m = "fit_bounding_box_horizontal" -> <<Name("FitBH")>> \o d
      [] OTHER -> <<Name("FitBV")>> \o d

\* What the method m of the writer w appends, given what its arguments denote.
Special(w, m, a) ==
    LET d == DenoteAll(a) IN
    CASE w = "Destination" -> DestinationItems(m, d)
      [] m \in {"version"} -> <<Key("Version", VersionName(a))>>
      [] m = "base_version" -> <<Key("BaseVersion", VersionName(a))>>
      [] w = "StructElement" /\ m = "kind_2" -> <<Key("S", d[1]), Key("NS", d[2])>>
      [] w = "StructChildren" -> d
      [] w = "RoleMap" -> <<Ent(a[1].b, d[2])>>
      [] w = "Namespace" -> <<Key("NS", StrB(
             CASE m = "pdf_2_ns" -> B("http://iso.org/pdf2/ssn")
               [] m = "pdf_1_7_ns" -> B("http://iso.org/pdf/ssn")
               [] OTHER -> B("http://www.w3.org/1998/Math/MathML")))>>
      [] w = "NamespaceRoleMap" /\ m = "to_pdf_1_7" -> <<Ent(a[1].b, d[2])>>
      [] w = "NamespaceRoleMap" -> <<Ent(a[1].b, Arr(<<d[2], d[3]>>))>>
      [] w = "Attributes" ->
           \* PDF 2.0 as of 2020 names two owners differently
           <<Key("O", CASE a[1].t = "AttributeOwner_Css1" ->
                              Name(IF a[2].b[1] = 1 THEN "CSS-1" ELSE "CSS-1.00")
                        [] a[1].t = "AttributeOwner_Css2" ->
                              Name(IF a[2].b[1] = 1 THEN "CSS-2" ELSE "CSS-2.00")
                        [] OTHER -> d[1])>>
      [] w = "FieldAttributes" -> <<Key(IF a[2].b[1] = 1 THEN "Checked" ELSE "checked", d[1])>>
      [] w = "Differences" -> <<d[1]>> \o d[2].k
      [] w = "Widths" -> IF m = "same" THEN d ELSE d
      [] w = "Type0Font" -> <<Key("DescendantFonts", Arr(d))>>
      [] w = "FontDescriptor" ->
           <<Key("Style", Dct(<<Key("Panose", StrB(<<a[1].b[1], a[2].b[1]>> \o a[3].b))>>))>>
      [] w = "FontDescriptorOverride" -> <<Ent(IF a[1].t = "name" THEN a[1].b ELSE d[1].b, d[2])>>
      [] w = "ChoiceOptions" ->
           CASE m = "option" -> d
             [] m = "options" -> d[1].k
             [] m = "export" -> <<Arr(<<d[2], d[1]>>)>>
             [] OTHER -> [i \in 1..Len(d[1].k) |-> Arr(<<d[1].k[i].k[2], d[1].k[i].k[1]>>)]
      [] w = "SignatureTimeStamp" -> <<Key("Ff", IntV(a[1].b[1]))>>
      [] w = "Annotation" /\ m = "border" ->
           <<Key("Border", Arr(IF d[4].t = "null" THEN SubSeq(d, 1, 3) ELSE d))>>
      [] w = "Annotation" -> <<Key("C", Arr(d))>>
      [] w = "AppearanceCharacteristics" ->
           \* the arguments of `..._cymk` are in this order, those of DeviceCMYK are not
           <<Key(IF m \in {"border_color_transparent", "border_color_gray", "border_color_cymk"}
                 THEN "BC" ELSE "BG",
                 Arr(IF m \in {"border_color_cymk", "background_color_cymk"}
                     THEN <<d[1], d[3], d[2], d[4]>> ELSE d))>>
      [] w = "Fields" -> IF m \in {"id", "name"} THEN d ELSE d[1].k
      [] w = "MediaPlayParams" -> <<Key("BE", Dct(<<Key("C", d[1])>>))>>
      [] w = "FileSpec" ->
           <<Key("EF", Dct(<<Key("F", d[1])>> \o
               (IF m = "embedded_file_with_unicode" THEN <<Key("UF", d[1])>> ELSE <<>>)))>>
      [] w = "Transition" ->
           IF m = "dimension" THEN OneName("Dm", IF a[1].b[1] = 1 THEN "V" ELSE "H")
           ELSE OneName("M", IF a[1].b[1] = 1 THEN "O" ELSE "I")
      [] m = "early_change" -> <<Key("EarlyChange", IntV(a[1].b[1]))>>
      [] m = "color_transform" -> <<Key("ColorTransform", IntV(a[1].b[1]))>>
      [] m = "crypt_type" -> OneName("Type", "CryptFilterDecodeParms")
      [] w = "NameTree" -> <<Key("Limits", Arr(<<AsStr(a[1]), AsStr(a[2])>>))>>
      [] w \in {"NameTreeEntries", "NumberTreeEntries"} -> d
      [] w \in {"Separation", "DeviceN"} -> d
      [] w = "Group" -> OneName("S", "Transparency")
      [] w = "Resources" -> <<Key("ProcSet", Arr(<<Name("PDF"), Name("Text"), Name("ImageB"),
                                                  Name("ImageC"), Name("ImageI")>>))>>
      [] m = "black_generation_default" -> OneName("BG2", "Default")
      [] m = "undercolor_removal_default" -> OneName("UCR2", "Default")
      [] m = "transfer_default" -> OneName("TR2", "Default")
      [] m = "halftone_default" -> OneName("HT", "Default")

----------------------------------------------------------------------------
(* Calls that the library refuses, by panicking before it writes anything. *)

Pow2Bits == {1, 2, 4, 8, 16}

\* f: the frame of the writer.
Refused(f, w, m, a) ==
    CASE w = "IccProfile" /\ m = "n" -> a[1].b[1] \notin {1, 3, 4}
      [] w = "DecodeParms" /\ m = "colors" -> a[1].b[1] <= 0
      [] w = "DecodeParms" /\ m = "bits_per_component" -> a[1].b[1] \notin Pow2Bits
      [] w = "TilingPattern" /\ m \in {"x_step", "y_step"} -> IsZeroF(a[1].b)
      [] w = "ViewerPreferences" /\ m = "non_full_screen_page_mode" ->
            a[1].t = "PageMode_FullScreen"
      [] w = "Outline" /\ m = "count" -> a[1].b[1] < 0
      \* name, alternate space, tint transform, attributes: in this order
      [] w \in {"Separation", "DeviceN"} ->
            CASE m \in {"alternate_device", "alternate_color_space", "alternate_color_space_ref"} ->
                    Len(f.k) > 2
              [] m = "attrs" -> Len(f.k) < 4
              [] OTHER -> Len(f.k) < 3 \/ (w = "DeviceN" /\ Len(f.k) > 3)
      [] OTHER -> FALSE

----------------------------------------------------------------------------
(* The machine's actions.                                                  *)

IsArrayOf(w) == Len(w) > 2 /\ SubSeq(w, 1, 2) = "A:"
IsDictOf(w) == Len(w) > 2 /\ SubSeq(w, 1, 2) = "T:"
ElementOf(w) == SubSeq(w, 3, Len(w))

\* A frame f becomes a writer of type w.
Become(f, w) ==
    IF w = "Obj" THEN f
    ELSE IF w = "A" \/ IsArrayOf(w) THEN [f EXCEPT !.t = "array", !.w = w]
    ELSE IF w \in {"T", "Dict"} \/ IsDictOf(w) THEN [f EXCEPT !.t = "dict", !.w = w]
    ELSE [f EXCEPT !.t = Api[w].t, !.w = w, !.k = Api[w].init]

\* Methods of streams are available on all writers that are streams.
Owner(f, m) == IF f.t = "stream" /\ m \in {"filter", "decode_parms"} THEN "Stream" ELSE f.w

\* Obj::start
StartW(w) ==
    /\ stack # <<>> /\ Top.t = "slot"
    /\ stack' = [stack EXCEPT ![Len(stack)] = Become(@, w)]
    /\ UNCHANGED cont

\* A method that writes something at once.
Method(m, a, ok) ==
    /\ stack # <<>>
    /\ LET w == Owner(Top, m) IN
       /\ m \in DOMAIN Api[w].set
       /\ ok = ~Refused(Top, w, m, a)
       /\ IF ok
          THEN stack' = [stack EXCEPT ![Len(stack)].k = @ \o
                    (IF Api[w].set[m] = "*" THEN Special(w, m, a)
                     ELSE <<Setter(Api[w].set[m], m, a)>>)]
          ELSE UNCHANGED stack
    /\ UNCHANGED cont

\* A method that starts a nested writer but is refused.
SubRefused(m, a) ==
    /\ stack # <<>>
    /\ m \in DOMAIN Api[Top.w].sub
    /\ Refused(Top, Top.w, m, a)
    /\ UNCHANGED wvars

\* A method that starts a nested writer.
SubW(m, a) ==
    /\ stack # <<>>
    /\ LET w == Owner(Top, m)
           s == Api[w].sub[m]
           key == IF s[1] = "*" THEN IF a[1].t = "name" THEN a[1].b ELSE Denote(a[1]).b
                  ELSE B(s[1])
           f == Frame("slot", "", IF Top.t = "array" THEN "item" ELSE "ent", key)
           \* `Attributes::user` also names the owner
           extra == IF w = "Attributes" /\ m = "user" THEN OneName("O", "UserProperties") ELSE <<>>
       IN  /\ m \in DOMAIN Api[w].sub
           /\ ~Refused(Top, w, m, a)
           /\ stack' = Append([stack EXCEPT ![Len(stack)].k = @ \o extra], Become(f, s[2]))
    /\ UNCHANGED cont

\* TypedArray::push, TypedDict::insert
TPush ==
    /\ stack # <<>> /\ IsArrayOf(Top.w)
    /\ stack' = Append(stack, Become(Frame("slot", "", "item", <<>>), ElementOf(Top.w)))
    /\ UNCHANGED cont
TInsert(key) ==
    /\ stack # <<>> /\ IsDictOf(Top.w)
    /\ stack' = Append(stack, Become(Frame("slot", "", "ent", key), ElementOf(Top.w)))
    /\ UNCHANGED cont

\* The methods of `Chunk` that start an object of some type.
ChunkApi == [
    stream |-> "Stream", name_tree |-> "NameTree", number_tree |-> "NumberTree",
    pages |-> "Pages", page |-> "Page", outline |-> "Outline", outline_item |-> "OutlineItem",
    destination |-> "Destination", destinations |-> "T:Destination", file_spec |-> "FileSpec",
    embedded_file |-> "EmbeddedFile", struct_element |-> "StructElement",
    namespace |-> "Namespace", metadata |-> "Metadata", image_xobject |-> "ImageXObject",
    form_xobject |-> "FormXObject", ext_graphics |-> "ExtGraphicsState",
    type1_font |-> "Type1Font", type3_font |-> "Type3Font", type0_font |-> "Type0Font",
    cid_font |-> "CidFont", font_descriptor |-> "FontDescriptor", cmap |-> "Cmap",
    color_space |-> "ColorSpace", function_shading |-> "FunctionShading",
    stream_shading |-> "StreamShading", tiling_pattern |-> "TilingPattern",
    shading_pattern |-> "ShadingPattern", icc_profile |-> "IccProfile",
    sampled_function |-> "SampledFunction", exponential_function |-> "ExponentialFunction",
    stitching_function |-> "StitchingFunction", post_script_function |-> "PostScriptFunction",
    resources |-> "Resources", form_field |-> "Field", signature_field_lock |-> "SignatureFieldLock",
    signature_seed_value |-> "SignatureSeedValue", annotation |-> "Annotation",
    catalog |-> "Catalog", document_info |-> "DocumentInfo"]
ChunkMethod(c, m, id, x) ==
    /\ stack = <<>>
    /\ id > 0
    /\ stack' = <<Become(IndFrame("slot", "", c, id, x), ChunkApi[m])>>
    /\ UNCHANGED cont

----------------------------------------------------------------------------
(* Writers whose methods consume them.                                     *)

OwnedBy == [layout |-> "LayoutAttributes", list |-> "ListAttributes", field |-> "FieldAttributes",
            table |-> "TableAttributes", artifact |-> "ArtifactAttributes", note |-> "FENoteAttributes"]

Converted(f, m, a) ==
    CASE f.w = "AppearanceEntry" /\ m = "streams" -> [f EXCEPT !.t = "dict", !.w = "T"]
      [] f.w = "TrackSizes" /\ m = "individual" -> [f EXCEPT !.t = "array", !.w = "A"]
      [] f.w = "ColorSpace" /\ m = "separation" ->
            [f EXCEPT !.t = "array", !.w = "Separation", !.k = <<Name("Separation"), a[1]>>]
      [] f.w = "ColorSpace" /\ m = "device_n" ->
            [f EXCEPT !.t = "array", !.w = "DeviceN", !.k = <<Name("DeviceN"), a[1]>>]
      [] f.w = "Attributes" /\ m = "namespace" ->
            [f EXCEPT !.w = "Dict", !.k = @ \o <<Key("O", Name("NSO")), Key("NS", a[1])>>]
      [] f.w = "Attributes" ->
            [f EXCEPT !.w = OwnedBy[m], !.k = @ \o Api[OwnedBy[m]].init]
      [] f.w = "PropertyList" /\ m = "artifact" -> [f EXCEPT !.w = "Artifact"]
      [] f.w = "Field" /\ m = "into_annotation" ->
            [f EXCEPT !.w = "Annotation",
                      !.k = @ \o OneName("Type", "Annot") \o OneName("Subtype", "Widget")]

Convert(m, a) ==
    /\ stack # <<>>
    /\ stack' = [stack EXCEPT ![Len(stack)] = Converted(@, m, a)]
    /\ UNCHANGED cont

\* Known calorimetric colour spaces: standard values, which files state to
\* some precision.
Near(n) == V("near", <<n>>, <<>>)    \* n / 10^5
NearArr(s) == Arr([i \in 1..Len(s) |-> Near(s[i])])
D65 == NearArr(<<95050, 100000, 108880>>)
D50 == NearArr(<<96420, 100000, 82490>>)
IlluminantC == NearArr(<<98070, 100000, 118220>>)
IlluminantE == NearArr(<<100000, 100000, 100000>>)
Cal(kind, white, gamma, rest) ==
    Arr(<<Name(kind), Dct(<<Key("WhitePoint", white)>> \o gamma \o rest)>>)
Gamma3(g) == <<Key("Gamma", NearArr(<<g, g, g>>))>>
KnownRgb(white, gamma, matrix) ==
    Cal("CalRGB", white, Gamma3(gamma), <<Key("Matrix", NearArr(matrix))>>)
Opt(key, v) == IF v.t = "null" THEN <<>> ELSE <<Key(key, v)>>

Filled(f, m, a) ==
    CASE f.w = "AppearanceEntry" -> a[1]
      [] f.w = "TrackSizes" -> a[1]
      [] m = "cal_rgb" -> Cal("CalRGB", a[1], Opt("Gamma", a[3]),
                              Opt("BlackPoint", a[2]) \o Opt("Matrix", a[4]))
      [] m = "cal_gray" -> Cal("CalGray", a[1], Opt("Gamma", a[3]), Opt("BlackPoint", a[2]))
      [] m = "lab" -> Cal("Lab", a[1], Opt("BlackPoint", a[2]), Opt("Range", a[3]))
      [] m = "icc_based" -> Arr(<<Name("ICCBased"), a[1]>>)
      [] m = "srgb" -> KnownRgb(D65, 220000,
            <<41240, 21260, 1930, 35760, 71520, 11920, 18050, 7220, 95050>>)
      [] m = "adobe_rgb" -> KnownRgb(D65, 219922,
            <<57667, 29734, 2703, 18556, 62736, 7069, 18823, 7529, 99134>>)
      [] m = "display_p3" -> KnownRgb(D65, 260000,
            <<48657, 22970, 0, 26567, 69174, 4511, 19822, 7929, 104394>>)
      [] m = "pro_photo" -> KnownRgb(D50, 180000,
            <<79767, 28804, 0, 13519, 71187, 0, 3135, 9, 82521>>)
      [] m = "eci_rgb" -> KnownRgb(D50, 180000,
            <<65020, 32025, 0, 17808, 60207, 6784, 13594, 7768, 75737>>)
      [] m = "ntsc" -> KnownRgb(IlluminantC, 220000,
            <<60689, 29892, 0, 17350, 58660, 6610, 20035, 11448, 111622>>)
      [] m = "pal" -> KnownRgb(D65, 220000,
            <<43062, 22204, 2019, 34154, 70664, 12955, 17831, 7132, 93909>>)
      [] m = "d65_gray" -> Cal("CalGray", D65, <<Key("Gamma", Near(220000))>>, <<>>)
      [] m = "c_gray" -> Cal("CalGray", IlluminantC, <<Key("Gamma", Near(220000))>>, <<>>)
      [] m = "d50_gray" -> Cal("CalGray", D50, Opt("Gamma", a[1]), <<>>)
      [] m = "e_gray" -> Cal("CalGray", IlluminantE, Opt("Gamma", a[1]), <<>>)
      [] m = "device_rgb" -> Name("DeviceRGB")
      [] m = "device_cmyk" -> Name("DeviceCMYK")
      [] m = "device_gray" -> Name("DeviceGray")
      [] m = "indexed" -> Arr(<<Name("Indexed")>> \o a)
      [] m = "pattern" -> Arr(<<Name("Pattern")>> \o a)

Fill(m, a) == stack # <<>> /\ Top.t = "slot" /\ Deliver(Top, Filled(Top, m, a))

----------------------------------------------------------------------------
(* Content streams.                                                        *)

\* Arrays of components are written as so many operands.
RECURSIVE Spread(_, _)
Spread(d, i) ==
    IF i > Len(d) THEN <<>>
    ELSE (IF d[i].t = "array" THEN d[i].k ELSE <<d[i]>>) \o Spread(d, i + 1)

ContentOperands(m, a) ==
    LET d == DenoteAll(a) IN
    CASE m = "set_dash_pattern" -> d
      \* the vertical displacement of glyphs is zero
      [] m \in {"start_color_glyph", "start_shape_glyph"} -> <<d[1], IntV(0)>> \o Tail(d)
      [] OTHER -> Spread(d, 1)

ContentRefused(m, a) ==
    CASE m = "set_line_width" -> a[1].b[1] = 1 /\ ~IsZeroF(a[1].b)
      [] m = "set_flatness" -> a[1].b[1] \notin 0..100
      [] OTHER -> FALSE

\* Saved graphics states that were not restored; restoring needs one.
Depth(q, m) == CASE m = "save_state" -> q + 1
                 [] m = "restore_state" -> IF q = 0 THEN 0 ELSE q - 1
                 [] OTHER -> q

ContentMethod(c, m, a, ok) ==
    /\ stack = <<>>
    /\ m \in DOMAIN ContentOps
    /\ ok = ~ContentRefused(m, a)
    /\ cont' = IF ~ok THEN cont
               ELSE [cont EXCEPT ![c] =
                       [AddOps(@, <<[op |-> B(ContentOps[m]), args |-> ContentOperands(m, a)]>>)
                        EXCEPT !.q = Depth(@, m)]]
    /\ UNCHANGED stack

\* The same method without arguments, n times: n steps of the above at once.
DepthN(q, m, n) == CASE m = "save_state" -> q + n
                     [] m = "restore_state" -> IF q <= n THEN 0 ELSE q - n
                     [] OTHER -> q
ContentRepeat(c, m, n) ==
    /\ stack = <<>>
    /\ m \in DOMAIN ContentOps /\ n >= 0
    /\ cont' = [cont EXCEPT ![c] =
            [@ EXCEPT !.ops = @ \o [i \in 1..n |-> [op |-> B(ContentOps[m]), args |-> <<>>]],
                      !.q = DepthN(@, m, n)]]
    /\ UNCHANGED stack

----------------------------------------------------------------------------
(* Unicode character maps: a container with its parameters and mappings.   *)

CmapStart(c, h) ==
    /\ stack = <<>>
    /\ c = Len(cont) + 1
    /\ cont' = Append(cont, [NoCont EXCEPT !.kind = "cmap", !.head = h])
    /\ UNCHANGED stack
CmapPair(c, g, x) ==
    /\ cont[c].kind = "cmap"
    /\ cont' = [cont EXCEPT ![c].ops = Append(@, [g |-> g, x |-> x])]
    /\ UNCHANGED stack

\* Does a value contain one that is only known approximately?
RECURSIVE IsApprox(_)
IsApprox(v) == v.t = "near" \/ \E i \in 1..Len(v.k): IsApprox(v.k[i])
=============================================================================
