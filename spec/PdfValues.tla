------------------------------ MODULE PdfValues ------------------------------
(***************************************************************************)
(* The values a user hands to pdf-writer ("API values") and what it means  *)
(* for an object found in a file to denote one of them.                    *)
(*                                                                         *)
(* API values have the same shape as the reader's values, with these tags: *)
(*   null, bool, name, str, ref, array, dict, stream   as in PdfReader     *)
(*   int      b = <<n>>                                                    *)
(*   f32      b = <<sign, exponent, fraction>>                             *)
(*   text     b = the Unicode code points                                  *)
(*   lang     k = the sections, each [t |-> "sec", b |-> code points,      *)
(*            k |-> <<[t |-> "lid", b |-> language code bytes]>>]          *)
(*   rect     k = four f32                                                 *)
(*   date     b = <<year, month, day, hour, minute, second, offset hours,  *)
(*            offset minutes>> as passed to the API, NONE for fields that  *)
(*            were not set                                                 *)
(*   near     b = <<n>>, some number close to n / 10^5                     *)
(***************************************************************************)
EXTENDS PdfReader, PdfFloat, FiniteSets
LOCAL SX == INSTANCE SequencesExt

NONE == -1000

N(t) == V(t, <<>>, <<>>)
IntV(n) == V("int", <<n>>, <<>>)
Bool(x) == V("bool", <<IF x THEN 1 ELSE 0>>, <<>>)
NameB(b) == V("name", b, <<>>)
StrB(b) == V("str", b, <<>>)
RefV(id) == V("ref", <<id, 0>>, <<>>)
Arr(k) == V("array", <<>>, k)
Dct(k) == V("dict", <<>>, k)
Ent(key, v) == V("ent", key, <<v>>)

----------------------------------------------------------------------------
(* ASCII text as bytes, so that keys can be written as TLA+ strings.       *)
Chars == ".0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[ ]^_ abcdefghijklmnopqrstuvwxyz /-#+'*\"()%!"
CharCode == [c \in {SubSeq(Chars, i, i): i \in 1..Len(Chars)} |->
    CASE c = "." -> 46 [] c = "(" -> 40 [] c = ")" -> 41 [] c = " " -> 32 [] c = "/" -> 47 [] c = "-" -> 45
      [] c = "#" -> 35 [] c = "+" -> 43 [] c = "'" -> 39 [] c = "*" -> 42
      [] c = "\"" -> 34 [] c = "%" -> 37 [] c = "!" -> 33
      [] OTHER -> 46 + CHOOSE i \in 1..Len(Chars): SubSeq(Chars, i, i) = c]
B(s) == [i \in 1..Len(s) |-> CharCode[SubSeq(s, i, i)]]
Name(s) == NameB(B(s))
Key(s, v) == Ent(B(s), v)

----------------------------------------------------------------------------
(* Text strings (7.9.2.2).                                                 *)

\* UTF-16BE: the sequence of code units, or <<-1>>.
Units(b, from) ==
    IF (Len(b) - from + 1) % 2 # 0 THEN <<-1>>
    ELSE [i \in 1..((Len(b) - from + 1) \div 2) |->
            b[from + 2 * (i - 1)] * 256 + b[from + 2 * (i - 1) + 1]]

\* Runs without surrogates (or characters that need them) are copied at once.
IsSur(c) == c < 0 \/ (c >= 55296 /\ c < 57344)
RECURSIVE FromUnits(_, _, _)
FromUnits(u, i, acc) ==
    IF i > Len(u) THEN acc
    ELSE LET c == u[i] IN
    IF ~IsSur(c) THEN LET j == FirstFrom(u, i, IsSur) IN
         FromUnits(u, j, acc \o SubSeq(u, i, j - 1))
    ELSE IF c >= 55296 /\ c < 56320 /\ i < Len(u) /\ u[i + 1] >= 56320 /\ u[i + 1] < 57344
    THEN FromUnits(u, i + 2,
            Append(acc, 65536 + (c - 55296) * 1024 + (u[i + 1] - 56320)))
    ELSE <<-1>>

IsBom(b) == Len(b) >= 2 /\ b[1] = 254 /\ b[2] = 255

\* PDFDocEncoding agrees with Unicode on these; all others are "-1" here.
DocChar(c) == IF c \in {9, 10, 13} \/ (c >= 32 /\ c <= 126) \/ c >= 161 THEN c ELSE -1
Unicode(b) ==
    IF IsBom(b) THEN FromUnits(Units(b, 3), 1, <<>>)
    ELSE [i \in 1..Len(b) |-> DocChar(b[i])]

IsAstral(c) == c >= 65536
RECURSIVE ToUnits(_, _, _)
ToUnits(cp, i, acc) ==
    IF i > Len(cp) THEN acc
    ELSE IF ~IsAstral(cp[i]) THEN LET j == FirstFrom(cp, i, IsAstral) IN
         ToUnits(cp, j, acc \o SubSeq(cp, i, j - 1))
    ELSE ToUnits(cp, i + 1, acc \o <<55296 + (cp[i] - 65536) \div 1024,
                                     56320 + ((cp[i] - 65536) % 1024)>>)

\* The code units of a text with language sections (7.9.2.2, 14.9.2).
RECURSIVE LangUnits(_, _)
LangUnits(k, i) ==
    IF i > Len(k) THEN <<>>
    ELSE <<27>> \o k[i].k[1].b \o <<27>> \o ToUnits(k[i].b, 1, <<>>)
         \o LangUnits(k, i + 1)

\* The number of bytes of a text string: as PDFDocEncoding if it is plain
\* ASCII, as UTF-16BE otherwise.
IsPlain(cp) == \A i \in 1..Len(cp): cp[i] >= 32 /\ cp[i] <= 126

----------------------------------------------------------------------------
(* Dates (7.9.4).                                                          *)

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* What a date denotes: <<year, ...>> up to the last field all of whose
\* superior fields are set; the offset counts as one field, in minutes.
DateFields(d) ==
    LET c == <<Clamp(d[1], 0, 9999), Clamp(d[2], 1, 12), Clamp(d[3], 1, 31),
               Clamp(d[4], 0, 23), Clamp(d[5], 0, 59), Clamp(d[6], 0, 59)>>
        n == IF \E i \in 2..6: d[i] = NONE
             THEN (CHOOSE i \in 2..6: d[i] = NONE /\ \A j \in 2..(i-1): d[j] # NONE) - 1
             ELSE 6
        oh == Clamp(d[7], -23, 23)
        om == IF d[8] = NONE THEN 0 ELSE Clamp(d[8], 0, 59)
    IN  IF n < 6 \/ d[7] = NONE THEN SubSeq(c, 1, n)
        ELSE c \o <<IF oh < 0 THEN -(-oh * 60 + om) ELSE oh * 60 + om>>

Two(b, p) == IF p + 1 <= Len(b) /\ IsDigit(b[p]) /\ IsDigit(b[p + 1])
             THEN (b[p] - 48) * 10 + b[p + 1] - 48 ELSE -1

RECURSIVE DateTwos(_, _, _, _)
DateTwos(b, p, n, acc) ==
    IF n = 0 \/ p > Len(b) \/ ~IsDigit(b[p]) THEN [f |-> acc, p |-> p]
    ELSE IF Two(b, p) = -1 THEN [f |-> <<-1>>, p |-> p]
    ELSE DateTwos(b, p + 2, n - 1, Append(acc, Two(b, p)))

\* The fields of `D:YYYYMMDDHHmmSSOHH'mm`, or <<-1>>.
ParseDate(b) ==
    IF Len(b) < 6 \/ ~IsAt(b, 1, <<68, 58>>) \/ Two(b, 3) = -1 \/ Two(b, 5) = -1
    THEN <<-1>>
    ELSE LET r == DateTwos(b, 7, 5, <<>>)
             head == <<Two(b, 3) * 100 + Two(b, 5)>> \o r.f
             q == r.p
         IN  IF q = Len(b) + 1 THEN head
             ELSE IF Len(r.f) # 5 THEN <<-1>>
             ELSE IF b[q] = 90 THEN IF q = Len(b) THEN Append(head, 0) ELSE <<-1>>
             ELSE IF b[q] \in {43, 45} /\ Two(b, q + 1) # -1
                     /\ At(b, q + 3) = 39 /\ Two(b, q + 4) # -1
                     /\ (Len(b) = q + 5 \/ (Len(b) = q + 6 /\ b[q + 6] = 39))
                  THEN LET o == Two(b, q + 1) * 60 + Two(b, q + 4)
                       IN  Append(head, IF b[q] = 45 THEN -o ELSE o)
             ELSE <<-1>>

----------------------------------------------------------------------------
(* Denotation: does the object `p` that was read denote the API value `e`? *)

NumIsInt(p, n) == IsIntV(p) /\ FitsI32(p) /\ IntVal(p) = n
NumIsF32(p, f) == p.t = "num" /\ RoundTrips(f, p.b)

\* Within 0.0003 of n / 10^5, for values that are only known to some precision.
RECURSIVE FixedFive(_, _, _, _)
FixedFive(b, i, n, acc) ==
    IF i > n THEN acc ELSE FixedFive(b, i + 1, n, acc * 10 + (IF i <= Len(b) THEN b[i] ELSE 0))
NumNear(p, n) ==
    /\ p.t = "num"
    /\ LET b == p.b
           whole == Len(b) - 3 - b[3]
           x == FixedFive(b, 4, 3 + whole + 5, 0)
       IN  /\ whole <= 4
           /\ (IF b[1] = 1 THEN -x ELSE x) - n \in -30..30

RECURSIVE Matches(_, _)
\* Entries in any order; keys may repeat, then the values of equal keys
\* correspond in order.
OccIdx(k, i) == Cardinality({j \in 1..i: k[j].b = k[i].b})
                 \* the how-many-th entry with that key
EntriesMatch(es, ps) ==
    /\ Len(es) = Len(ps)
    /\ \A i \in 1..Len(es):
         IF ps[i].b = es[i].b /\ Matches(es[i].k[1], ps[i].k[1]) THEN TRUE
         ELSE \E j \in 1..Len(ps):
                /\ ps[j].b = es[i].b
                /\ OccIdx(ps, j) = OccIdx(es, i)
                /\ Matches(es[i].k[1], ps[j].k[1])

Matches(e, p) ==
    CASE e.t = "null" -> p.t = "null"
      [] e.t = "bool" -> p.t = "bool" /\ p.b = e.b
      [] e.t = "int" -> NumIsInt(p, e.b[1])
      [] e.t = "f32" -> NumIsF32(p, e.b)
      [] e.t = "near" -> NumNear(p, e.b[1])
      [] e.t = "name" -> p.t = "name" /\ p.b = e.b
      [] e.t = "str" -> p.t = "str" /\ p.b = e.b
      [] e.t = "ref" -> p.t = "ref" /\ p.b = e.b
      [] e.t = "text" -> p.t = "str" /\ Unicode(p.b) = e.b
      [] e.t = "lang" -> p.t = "str" /\ IsBom(p.b) /\ Units(p.b, 3) = LangUnits(e.k, 1)
      [] e.t = "date" -> p.t = "str" /\ ParseDate(p.b) = DateFields(e.b)
      [] e.t \in {"array", "rect"} ->
           /\ p.t = "array"
           /\ Len(e.k) = Len(p.k)
           /\ \A i \in 1..Len(e.k): Matches(e.k[i], p.k[i])
      [] e.t = "dict" -> p.t = "dict" /\ EntriesMatch(e.k, p.k)
      [] e.t = "stream" ->
           \* the dictionary has the given entries and a correct /Length
           /\ p.t = "stream"
           /\ p.b = e.b
           /\ EntriesMatch(<<Ent(nLength, IntV(Len(e.b)))>> \o e.k[1].k, p.k[1].k)
      [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Implementation limits (Annex C): the maxima over all objects.  A limits *)
(* record is [int, real, name, str, arr, dict]; `real` is a float; `int`   *)
(* ranges over integer objects, `ids` over object numbers, which may or    *)
(* may not be counted as integers.                                         *)

Lim0 == [int |-> 0, ids |-> 0, real |-> FZero, name |-> 0, str |-> 0, arr |-> 0, dict |-> 0]
Max(a, b) == IF a < b THEN b ELSE a
AbsI(n) == IF n >= 0 THEN n ELSE IF n < -2147483647 THEN 2147483647 ELSE -n
LimMerge(a, b) ==
    [int |-> Max(a.int, b.int), ids |-> Max(a.ids, b.ids), real |-> AbsMax(a.real, b.real),
     name |-> Max(a.name, b.name), str |-> Max(a.str, b.str), arr |-> Max(a.arr, b.arr),
     dict |-> Max(a.dict, b.dict)]

DateLen(d) == LET f == DateFields(d) IN
    IF Len(f) < 7 THEN 6 + 2 * (Len(f) - 1) ELSE IF f[7] = 0 THEN 17 ELSE 22

RECURSIVE LimOf(_), LimOfSeq(_, _, _)
LimOfSeq(k, i, acc) ==
    SX!FoldLeft(LAMBDA m, x: LimMerge(m, LimOf(x)), acc, SubSeq(k, i, Len(k)))
LimOf(e) ==
    CASE e.t = "int" -> [Lim0 EXCEPT !.int = AbsI(e.b[1])]
      [] e.t = "f32" -> LET n == FloatInt(e.b) IN
                        IF n[1] THEN [Lim0 EXCEPT !.int = AbsI(n[2])]
                        ELSE [Lim0 EXCEPT !.real = Abs(e.b)]
      [] e.t = "name" -> [Lim0 EXCEPT !.name = Len(e.b)]
      [] e.t = "str" -> [Lim0 EXCEPT !.str = Len(e.b)]
      [] e.t = "ref" -> [Lim0 EXCEPT !.ids = e.b[1]]
      [] e.t = "text" -> [Lim0 EXCEPT !.str =
            IF IsPlain(e.b) THEN Len(e.b) ELSE 2 + 2 * Len(ToUnits(e.b, 1, <<>>))]
      [] e.t = "lang" -> [Lim0 EXCEPT !.str = 2 + 2 * Len(LangUnits(e.k, 1))]
      [] e.t = "date" -> [Lim0 EXCEPT !.str = DateLen(e.b)]
      [] e.t \in {"array", "rect"} ->
            LimOfSeq(e.k, 1, [Lim0 EXCEPT !.arr = Len(e.k)])
      [] e.t = "dict" -> LimOfSeq(e.k, 1, [Lim0 EXCEPT !.dict = Len(e.k)])
      [] e.t = "ent" -> LimOfSeq(e.k, 1, [Lim0 EXCEPT !.name = Len(e.b)])
      [] e.t = "op" -> LimOfSeq(e.k, 1, Lim0)
      [] e.t = "stream" ->
            \* with the /Length entry
            LimMerge([Lim0 EXCEPT !.dict = Len(e.k[1].k) + 1, !.int = Len(e.b), !.name = 6],
                     LimOfSeq(e.k[1].k, 1, Lim0))
      [] OTHER -> Lim0

\* The limits as reported by the API, `rep` = <<int, real, name, str, arr, dict>>
\* with real = <<sign, exponent, fraction>>.
LimAgree(m, rep) ==
    /\ rep.int >= m.int /\ rep.int <= Max(m.int, m.ids)
    /\ rep.real = m.real
    /\ rep.name = m.name /\ rep.str = m.str /\ rep.arr = m.arr /\ rep.dict = m.dict
=============================================================================
