------------------------------- MODULE ApiMisc -------------------------------
(***************************************************************************)
(* Structure roles and their conversions (ISO 32000-1 14.8.4, ISO 32000-2  *)
(* 14.8.4), calculator functions (7.10.5), Unicode character maps (9.10.3).*)
(***************************************************************************)
EXTENDS ApiStructure, TLC

\* Name of a role type -> name of the operator or role.
Roles1 == {"Document", "Part", "Art", "Sect", "Div", "BlockQuote", "Caption", "TOC", "TOCI", "Index",
    "NonStruct", "Private", "P", "StructuredHeading", "H1", "H2", "H3", "H4", "H5", "H6", "L", "LI",
    "Lbl", "LBody", "Table", "TR", "TH", "TD", "THead", "TBody", "TFoot", "Span", "Quote", "Note",
    "Reference", "BibEntry", "Code", "Link", "Annot", "Ruby", "Warichu", "RB", "RT", "RP", "WT", "WP",
    "Figure", "Formula", "Form"}
Roles2 == {"Document", "DocumentFragment", "Part", "Sect", "Div", "Aside", "NonStruct", "P",
    "StructuredHeading", "Title", "FENote", "Sub", "Lbl", "Span", "Em", "Strong", "Link", "Annot",
    "Form", "Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP", "L", "LI", "LBody", "Table", "TR", "TH",
    "TD", "THead", "TBody", "TFoot", "Caption", "Figure", "Formula", "Artifact"}
Headings == {"H1", "H2", "H3", "H4", "H5", "H6"}
Level(r) == CHOOSE i \in 1..6: r = SubSeq("H1H2H3H4H5H6", 2 * i - 1, 2 * i)

\* From PDF 1.7: those with the same name are the same; some others have a
\* type that stands for them.
To2Special == [Quote |-> "Em", Note |-> "FENote", Reference |-> "Link", Code |-> "Strong"]
To2(r) ==
    IF r \in Headings THEN V("heading", <<Level(r)>>, <<>>)
    ELSE IF r \in Roles2 THEN V("StructRole2_" \o r, <<>>, <<>>)
    ELSE IF r \in DOMAIN To2Special THEN V("StructRole2_" \o To2Special[r], <<>>, <<>>)
    ELSE V("none", <<>>, <<>>)

\* To PDF 1.7.  opts: levels above 6 as H6 (or P), Title as H1 (or P), Sub as
\* Span (or Div).
To1Special(r, opts) ==
    CASE r \in {"DocumentFragment", "Aside"} -> "Div"
      [] r = "Title" -> IF opts[2] = 1 THEN "H1" ELSE "P"
      [] r = "Sub" -> IF opts[3] = 1 THEN "Span" ELSE "Div"
      [] r = "FENote" -> "Note"
      [] r \in {"Em", "Strong"} -> "Span"
      [] r = "Artifact" -> "Private"
\* v: a role of PDF 2.0, [same |-> is it the same role, r |-> the role]
To1(v, opts) ==
    IF v.t = "heading"
    THEN IF v.b[1] <= 6 THEN [same |-> TRUE, r |-> SubSeq("H1H2H3H4H5H6", 2 * v.b[1] - 1, 2 * v.b[1])]
         ELSE [same |-> FALSE, r |-> IF opts[1] = 1 THEN "H6" ELSE "P"]
    ELSE LET r == SubSeq(v.t, 13, Len(v.t)) IN
         IF r \in Roles1 THEN [same |-> TRUE, r |-> r]
         ELSE [same |-> FALSE, r |-> To1Special(r, opts)]

\* Sanity of these tables: what is the same role goes back and forth unchanged,
\* and what is mapped is not in the target set.
ASSUME \A r \in Roles1: LET x == To2(r) IN
    x.t = "none" \/ r \in DOMAIN To2Special \/
    \A o \in [1..3 -> 0..1]: To1(x, o) = [same |-> TRUE, r |-> r]
ASSUME \A r \in Roles2: \A o \in [1..3 -> 0..1]:
    LET x == To1(V("StructRole2_" \o r, <<>>, <<>>), o) IN
    /\ x.r \in Roles1
    /\ x.same => To2(x.r).t = "StructRole2_" \o r
ASSUME \A r \in DOMAIN To2Special: r \notin Roles2 /\ To2Special[r] \in Roles2

RoleType(r) ==
    CASE r \in {"Document", "Part", "Art", "Sect", "Div", "BlockQuote", "Caption", "TOC", "TOCI",
                "Index", "NonStruct", "Private"} -> "Grouping"
      [] r \in {"P", "StructuredHeading"} \cup Headings -> "BlockLevel(ParagraphLike)"
      [] r \in {"L", "LI", "Lbl", "LBody"} -> "BlockLevel(List)"
      [] r = "Table" -> "BlockLevel(Table)"
      [] r \in {"TR", "TH", "TD", "THead", "TBody", "TFoot"} -> "Table"
      [] r \in {"Span", "Quote", "Note", "Reference", "BibEntry", "Code", "Ruby", "Warichu"} ->
            "InlineLevel(Generic)"
      [] r = "Link" -> "InlineLevel(Link)"
      [] r = "Annot" -> "InlineLevel(Annotation)"
      [] r \in {"RB", "RT", "RP", "WT", "WP"} -> "InlineLevel(RubyWarichu)"
      [] r \in {"Figure", "Formula", "Form"} -> "Illustration"
RoleType2(r) ==
    CASE r \in {"Document", "DocumentFragment"} -> "Document"
      [] r \in {"Part", "Sect", "Div", "Aside", "NonStruct"} -> "Grouping"
      [] r \in {"P", "StructuredHeading", "Title", "FENote"} -> "BlockLevel"
      [] r = "Sub" -> "SubBlockLevel"
      [] r \in {"Lbl", "Span", "Em", "Strong", "Link", "Annot", "Form"} -> "InlineLevel(Generic)"
      [] r \in {"Ruby", "RB", "RT", "RP", "Warichu", "WT", "WP"} -> "InlineLevel(RubyWarichu)"
      [] r \in {"L", "LI", "LBody"} -> "List"
      [] r \in {"Table", "TR", "TH", "TD", "THead", "TBody", "TFoot"} -> "Table"
      [] r \in {"Caption", "Figure", "Formula", "Artifact"} -> r

En1(r) == V("StructRole_" \o r, <<>>, <<>>)
Role1Of(v) == SubSeq(v.t, 12, Len(v.t))
Role2Of(v) == SubSeq(v.t, 13, Len(v.t))
None_ == V("none", <<>>, <<>>)
Panic == V("panic", <<>>, <<>>)

RECURSIVE DecimalOf(_)
DecimalOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecimalOf(n \div 10) \o <<48 + (n % 10)>>

MaxInt == 2147483647
IsAlnum(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
LangOk(v) == Len(v.b) = 2 /\ \A i \in 1..2: IsAlnum(v.b[i])

\* What the function f gives for the arguments a.
Result(f, a) ==
    CASE f \in {"into_pdf_2_0", "try_from_1_7"} -> To2(Role1Of(a[1]))
      [] f = "role_type" -> V(RoleType(Role1Of(a[1])), <<>>, <<>>)
      [] f = "role_type_2" ->
            V(IF a[1].t = "heading" THEN "BlockLevel" ELSE RoleType2(Role2Of(a[1])), <<>>, <<>>)
      [] f = "try_from_2_0" -> LET x == To1(a[1], <<0, 0, 0>>) IN IF x.same THEN En1(x.r) ELSE None_
      [] f = "compat.role" -> En1(To1(a[1], a[2].b).r)
      [] f = "compat.into_pdf_1_7" -> LET x == To1(a[1], a[2].b) IN IF x.same THEN En1(x.r) ELSE None_
      [] f = "compat.role_mapped_1_7" -> LET x == To1(a[1], a[2].b) IN IF x.same THEN None_ ELSE En1(x.r)
      [] f = "compatibility_1_7" ->
            LET x == To1(a[1], a[2].b) IN V(IF x.same THEN "compatible" ELSE "mapping", <<>>, <<En1(x.r)>>)
      [] f = "heading_names" ->
            Arr([i \in 1..(IF a[1].b[1] = 1 THEN 255 ELSE 256) |->
                   NameB(<<72>> \o DecimalOf(a[1].b[1] + i - 1))])
      [] f = "heading_compat" ->
            Arr([i \in 1..(IF a[1].b[1] = 1 THEN 255 ELSE 256) |->
                   LET x == To1(V("heading", <<a[1].b[1] + i - 1>>, <<>>), a[2].b)
                   IN  V(IF x.same THEN "compatible" ELSE "mapping", <<>>, <<En1(x.r)>>)])
      [] f = "Ref.new" -> IF a[1].b[1] > 0 THEN a[1] ELSE Panic
      [] f = "Ref.next" -> IF a[1].b[1] < MaxInt THEN IntV(a[1].b[1] + 1) ELSE Panic
      [] f = "Ref.bump" -> IF a[1].b[1] < MaxInt THEN Arr(<<a[1], IntV(a[1].b[1] + 1)>>) ELSE Panic
      [] f = "Rect.to_quad_points" ->
            LET k == a[1].k IN Arr(<<k[1], k[2], k[3], k[2], k[3], k[4], k[1], k[4]>>)
      [] f = "from_lang" -> Bool(LangOk(a[1]))
      [] f = "from_lang_region" -> Bool(LangOk(a[1]) /\ LangOk(a[2]))

----------------------------------------------------------------------------
(* Calculator functions: `{`, tokens, `}`.                                 *)

PsNames == [
    PostScriptOp_Abs |-> "abs", PostScriptOp_Add |-> "add", PostScriptOp_Atan |-> "atan",
    PostScriptOp_Ceiling |-> "ceiling", PostScriptOp_Cos |-> "cos", PostScriptOp_Cvi |-> "cvi",
    PostScriptOp_Cvr |-> "cvr", PostScriptOp_Div |-> "div", PostScriptOp_Exp |-> "exp",
    PostScriptOp_Floor |-> "floor", PostScriptOp_Idiv |-> "idiv", PostScriptOp_Ln |-> "ln",
    PostScriptOp_Log |-> "log", PostScriptOp_Mod |-> "mod", PostScriptOp_Mul |-> "mul",
    PostScriptOp_Neg |-> "neg", PostScriptOp_Round |-> "round", PostScriptOp_Sin |-> "sin",
    PostScriptOp_Sqrt |-> "sqrt", PostScriptOp_Sub |-> "sub", PostScriptOp_Truncate |-> "truncate",
    PostScriptOp_And |-> "and", PostScriptOp_Bitshift |-> "bitshift", PostScriptOp_Eq |-> "eq",
    PostScriptOp_False |-> "false", PostScriptOp_Ge |-> "ge", PostScriptOp_Gt |-> "gt",
    PostScriptOp_Le |-> "le", PostScriptOp_Lt |-> "lt", PostScriptOp_Ne |-> "ne",
    PostScriptOp_Not |-> "not", PostScriptOp_Or |-> "or", PostScriptOp_True |-> "true",
    PostScriptOp_Xor |-> "xor", PostScriptOp_Copy |-> "copy", PostScriptOp_Dup |-> "dup",
    PostScriptOp_Exch |-> "exch", PostScriptOp_Index |-> "index", PostScriptOp_Pop |-> "pop",
    PostScriptOp_Roll |-> "roll"]

kwIf == B("if")
kwIfElse == B("ifelse")

\* The tokens from p, just after `{`, to the matching `}`: numbers, words
\* (t = "word") and blocks (t = "block").
RECURSIVE PsBlock(_, _, _)
PsBlock(b, p0, acc) ==
    LET p == SkipWs(b, p0) IN
    IF p > Len(b) THEN Err(p)
    ELSE LET c == b[p] IN
    IF c = 125 THEN R(V("block", <<>>, acc), p + 1)
    ELSE IF c = 123
    THEN LET r == PsBlock(b, p + 1, <<>>) IN
         IF IsErr(r) THEN r ELSE PsBlock(b, r.p, Append(acc, r.v))
    ELSE IF Cls[c] = 2 THEN Err(p)
    ELSE LET q == RunEnd(b, p)
             n == NumOf(b, p, q)
         IN  PsBlock(b, q, Append(acc, IF n.t = "err" THEN V("word", SubSeq(b, p, q - 1), <<>>) ELSE n))

PsProgram(b) ==
    LET p == SkipWs(b, 1) IN
    IF p > Len(b) \/ b[p] # 123 THEN Err(p)
    ELSE LET r == PsBlock(b, p + 1, <<>>) IN
         IF IsErr(r) \/ SkipWs(b, r.p) <= Len(b) THEN Err(r.p) ELSE r

\* Out of the range of integers, a number is a real without a point as well.
PsReal(v, n) == NumIsF32(n, v.b) /\ (n.b[2] = 1 \/ ~FitsI32(n))

RECURSIVE PsMatch(_, _, _, _)
\* The operators vs from the i-th on are the tokens ts from the j-th on.
PsMatch(vs, i, ts, j) ==
    IF i > Len(vs) THEN j > Len(ts)
    ELSE IF j > Len(ts) THEN FALSE
    ELSE LET v == vs[i] IN
    CASE v.t = "int" -> NumIsInt(ts[j], v.b[1]) /\ PsMatch(vs, i + 1, ts, j + 1)
      [] v.t = "f32" -> ts[j].t = "num" /\ PsReal(v, ts[j]) /\ PsMatch(vs, i + 1, ts, j + 1)
      [] v.t = "psif" ->
            /\ j + 1 <= Len(ts)
            /\ ts[j].t = "block" /\ PsMatch(v.k, 1, ts[j].k, 1)
            /\ ts[j + 1] = V("word", kwIf, <<>>)
            /\ PsMatch(vs, i + 1, ts, j + 2)
      [] v.t = "psifelse" ->
            /\ j + 2 <= Len(ts)
            /\ ts[j].t = "block" /\ PsMatch(v.k[1].k, 1, ts[j].k, 1)
            /\ ts[j + 1].t = "block" /\ PsMatch(v.k[2].k, 1, ts[j + 1].k, 1)
            /\ ts[j + 2] = V("word", kwIfElse, <<>>)
            /\ PsMatch(vs, i + 1, ts, j + 3)
      [] OTHER -> ts[j] = V("word", B(PsNames[v.t]), <<>>) /\ PsMatch(vs, i + 1, ts, j + 1)

----------------------------------------------------------------------------
(* Character maps: a PostScript program that defines a resource.           *)

RECURSIVE Tokens(_, _, _)
Tokens(b, p0, acc) ==
    LET p == SkipWs(b, p0) IN
    IF p > Len(b) THEN [ok |-> TRUE, k |-> acc]
    ELSE LET r == Val(b, p, FALSE) IN
         IF IsErr(r) THEN [ok |-> FALSE, k |-> acc] ELSE Tokens(b, r.p, Append(acc, r.v))

\* Running it.  s: operands; d: how many dictionaries are open; defs: what was
\* defined; ranges, maps: the code space ranges and mappings; in: within
\* begincmap and endcmap; done: the resource was defined.
Cm0 == [ok |-> TRUE, sec |-> "", s |-> <<>>, d |-> 0, defs |-> <<>>, ranges |-> <<>>, maps |-> <<>>,
        in |-> FALSE, done |-> FALSE, n |-> -1]
CmBad == [Cm0 EXCEPT !.ok = FALSE]
Kw(t, s) == t.t = "kw" /\ t.b = B(s)
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
At_(s, n) == s[Len(s) - n + 1]        \* the n-th from the top

\* The operands after the count of a section, in pairs.
InPairs(s) == [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
Strings(s) == \A i \in 1..Len(s): s[i].t = "str"

CmStep(m, t) ==
    IF ~m.ok THEN m
    ELSE IF t.t # "kw" THEN [m EXCEPT !.s = Append(@, t)]
    ELSE CASE Kw(t, "findresource") ->
                IF Len(m.s) >= 2 THEN [m EXCEPT !.s = Append(Drop(@, 2), V("res", <<>>, <<>>))] ELSE CmBad
           [] Kw(t, "dict") ->
                IF Len(m.s) >= 1 /\ Nat32(At_(m.s, 1)) >= 0
                THEN [m EXCEPT !.s = Append(Drop(@, 1), V("dictionary", <<>>, <<>>))] ELSE CmBad
           [] Kw(t, "dup") ->
                IF Len(m.s) >= 1 THEN [m EXCEPT !.s = Append(@, At_(@, 1))] ELSE CmBad
           [] Kw(t, "pop") -> IF Len(m.s) >= 1 THEN [m EXCEPT !.s = Drop(@, 1)] ELSE CmBad
           [] Kw(t, "begin") ->
                IF Len(m.s) >= 1 THEN [m EXCEPT !.s = Drop(@, 1), !.d = @ + 1] ELSE CmBad
           [] Kw(t, "end") -> IF m.d >= 1 THEN [m EXCEPT !.d = @ - 1] ELSE CmBad
           [] Kw(t, "def") ->
                IF Len(m.s) >= 2 /\ At_(m.s, 2).t = "name"
                THEN [m EXCEPT !.defs = Append(@, Ent(At_(m.s, 2).b, At_(m.s, 1))), !.s = Drop(@, 2)]
                ELSE CmBad
           [] Kw(t, "begincmap") -> IF m.in \/ m.done THEN CmBad ELSE [m EXCEPT !.in = TRUE]
           [] Kw(t, "endcmap") -> IF ~m.in \/ m.n # -1 THEN CmBad ELSE [m EXCEPT !.in = FALSE]
           [] Kw(t, "currentdict") -> [m EXCEPT !.s = Append(@, V("dictionary", <<>>, <<>>))]
           [] Kw(t, "CMapName") -> [m EXCEPT !.s = Append(@, Get([k |-> m.defs], B("CMapName")))]
           [] Kw(t, "defineresource") ->
                IF Len(m.s) >= 3 /\ At_(m.s, 1) = Name("CMap") /\ At_(m.s, 2).t = "dictionary"
                   /\ At_(m.s, 3).t = "name" /\ ~m.in
                THEN [m EXCEPT !.s = Append(Drop(@, 3), V("res", <<>>, <<>>)), !.done = TRUE] ELSE CmBad
           \* a section: its count, then so many entries (at most 100)
           [] Kw(t, "begincodespacerange") \/ Kw(t, "beginbfchar") ->
                IF m.in /\ m.n = -1 /\ Len(m.s) = 1 /\ Nat32(m.s[1]) \in 0..100
                THEN [m EXCEPT !.s = <<>>, !.n = Nat32(m.s[1]),
                               !.sec = IF Kw(t, "beginbfchar") THEN "char" ELSE "space"] ELSE CmBad
           [] Kw(t, "endcodespacerange") ->
                IF m.n >= 0 /\ m.sec = "space" /\ Len(m.s) = 2 * m.n /\ Strings(m.s)
                THEN [m EXCEPT !.ranges = @ \o InPairs(m.s), !.s = <<>>, !.n = -1] ELSE CmBad
           [] Kw(t, "endbfchar") ->
                IF m.n >= 0 /\ m.sec = "char" /\ Len(m.s) = 2 * m.n /\ Strings(m.s)
                THEN [m EXCEPT !.maps = @ \o InPairs(m.s), !.s = <<>>, !.n = -1] ELSE CmBad
           [] OTHER -> CmBad

RECURSIVE CmRun(_, _, _)
CmRun(m, ts, i) == IF i > Len(ts) THEN m ELSE CmRun(CmStep(m, ts[i]), ts, i + 1)

Cmap(b) == LET ts == Tokens(b, 1, <<>>) IN IF ts.ok THEN CmRun(Cm0, ts.k, 1) ELSE CmBad

CodeBytes(w, g) == IF w = 1 THEN <<g>> ELSE <<g \div 256, g % 256>>
Utf16(cs) == LET u == ToUnits(cs, 1, <<>>) IN
    [i \in 1..(2 * Len(u)) |-> IF i % 2 = 1 THEN u[(i + 1) \div 2] \div 256 ELSE u[i \div 2] % 256]

\* The comments that begin a resource: lines up to the first that is none.
RECURSIVE LineEnd(_, _)
LineEnd(x, p) == IF p > Len(x) \/ x[p] \in {10, 13} THEN p ELSE LineEnd(x, p + 1)
RECURSIVE Comments(_, _, _)
Comments(x, p, acc) ==
    IF p > Len(x) \/ x[p] # 37 THEN acc
    ELSE Comments(x, LineEnd(x, p) + 1, Append(acc, SubSeq(x, p, LineEnd(x, p) - 1)))
Plain(b) == \A i \in 1..Len(b): b[i] \in 33..126 /\ Cls[b[i]] = 0
EndsWith(x, t) ==
    LET y == IF x # <<>> /\ x[Len(x)] \in {10, 13} THEN SubSeq(x, 1, Len(x) - 1) ELSE x
    IN  Len(y) >= Len(t) /\ SubSeq(y, Len(y) - Len(t) + 1, Len(y)) = t
\* They are those of a CMap resource, and name it where its names need no care.
CmapComments(h, x) ==
    LET cs == Comments(x, 1, <<>>)
        Says(b) == \E i \in 1..Len(cs): cs[i] = b
        sys == h.info.k
    IN  /\ cs # <<>>
        /\ cs[1] = B("%!PS-Adobe-3.0 Resource-CMap")
        /\ Plain(h.name) => Says(B("%%BeginResource: CMap ") \o h.name)
        /\ (Plain(h.name) /\ Plain(sys[1].b) /\ Plain(sys[2].b)) =>
              \E i \in 1..Len(cs):
                 LET pre == B("%%Title: (") \o h.name \o <<32>> \o sys[1].b \o <<32>> \o sys[2].b \o <<32>> IN
                 /\ Len(cs[i]) > Len(pre) + 1 /\ SubSeq(cs[i], 1, Len(pre)) = pre
                 /\ cs[i][Len(cs[i])] = 41
                 /\ \A ts \in {Tokens(SubSeq(cs[i], Len(pre) + 1, Len(cs[i]) - 1), 1, <<>>)}:
                      ts.ok /\ Len(ts.k) = 1 /\ Matches(sys[3], ts.k[1])
        \* and it ends as a resource ends
        /\ EndsWith(x, B("%%EndResource") \o <<10>> \o B("%%EOF"))
           \/ EndsWith(x, B("%%EndResource") \o <<13>> \o B("%%EOF"))
           \/ EndsWith(x, B("%%EndResource") \o <<13, 10>> \o B("%%EOF"))

\* h: what the character map was started with; maps: <<code, characters>>
CmapIs(h, maps, x) ==
    LET m == Cmap(x) IN
    /\ CmapComments(h, x)
    /\ m.ok /\ m.done /\ ~m.in /\ m.d = 0 /\ m.s = <<>>
    /\ Get([k |-> m.defs], B("CMapName")) = NameB(h.name)
    /\ Get([k |-> m.defs], B("Registry")) = h.info.k[1]
    /\ Get([k |-> m.defs], B("Ordering")) = h.info.k[2]
    /\ Matches(h.info.k[3], Get([k |-> m.defs], B("Supplement")))
    /\ Matches(IntV(h.mode), Get([k |-> m.defs], B("WMode")))
    \* all codes of the width
    /\ m.ranges = <<<<StrB(CodeBytes(h.w, 0)), StrB(CodeBytes(h.w, IF h.w = 1 THEN 255 ELSE 65535))>>>>
    /\ Len(m.maps) = Len(maps)
    /\ \A i \in 1..Len(maps): m.maps[i] = <<StrB(CodeBytes(h.w, maps[i].g)), StrB(Utf16(maps[i].x))>>
=============================================================================
