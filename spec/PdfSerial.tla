------------------------------ MODULE PdfSerial ------------------------------
(***************************************************************************)
(* A model of how documents are written: the design that the library       *)
(* follows, in terms of bytes.  It is checked against the reader           *)
(* (PdfReader, PdfFile, PdfJudge) for all small documents, which tells     *)
(* that design and reader fit together, and which is where the judgements  *)
(* that are applied to the library are shown to be neither empty nor too   *)
(* strict.  `Bug` plants mistakes in the design that must be noticed.      *)
(***************************************************************************)
EXTENDS PdfJudge

CONSTANT Bug

RECURSIVE DigitsOf(_, _)
DigitsOf(n, acc) ==
    IF n < 10 THEN <<48 + n>> \o acc ELSE DigitsOf(n \div 10, <<48 + (n % 10)>> \o acc)
SerInt(n) == IF n < 0 THEN <<45>> \o DigitsOf(-n, <<>>) ELSE DigitsOf(n, <<>>)
RECURSIVE Padded(_, _)
Padded(d, n) == IF Len(d) >= n THEN d ELSE Padded(<<48>> \o d, n)

HexUp == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
Hex2(c) == <<HexUp[(c \div 16) + 1], HexUp[(c % 16) + 1]>>

RECURSIVE Concat(_, _, _)
Concat(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Concat(ss, i + 1, acc \o ss[i])
RECURSIVE Joined(_, _, _, _)
Joined(ss, sep, i, acc) ==
    IF i > Len(ss) THEN acc
    ELSE Joined(ss, sep, i + 1, IF i = 1 THEN ss[i] ELSE acc \o sep \o ss[i])

\* Strings: literal if all bytes are ASCII, with escapes; parentheses are
\* escaped only if they are not balanced.
RECURSIVE Depths(_, _, _)
Depths(b, i, d) == \* -1: not balanced
    IF d < 0 THEN -1 ELSE IF i > Len(b) THEN IF d = 0 THEN 0 ELSE -1
    ELSE Depths(b, i + 1, IF b[i] = 40 THEN d + 1 ELSE IF b[i] = 41 THEN d - 1 ELSE d)
RECURSIVE ParenSum(_, _, _)
ParenSum(b, i, d) ==
    IF i > Len(b) THEN d
    ELSE ParenSum(b, i + 1, IF b[i] = 40 THEN d + 1 ELSE IF b[i] = 41 THEN d - 1 ELSE d)
Balanced(b) == IF Bug = "parens" THEN ParenSum(b, 1, 0) = 0 ELSE Depths(b, 1, 0) = 0
Octal(c) == <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
EscByte(c, bal) ==
    CASE c = 92 -> IF Bug = "backslash" THEN <<92>> ELSE <<92, 92>>
      [] c \in {40, 41} -> IF bal THEN <<c>> ELSE <<92, c>>
      [] c \in 32..126 -> <<c>>
      [] c = 10 -> <<92, 110>>
      [] c = 13 -> IF Bug = "cr" THEN <<13>> ELSE <<92, 114>>
      [] c = 9 -> <<92, 116>>
      [] c = 8 -> <<92, 98>>
      [] c = 12 -> <<92, 102>>
      [] OTHER -> IF Bug = "octal" THEN <<92, 48 + (c \div 8), 48 + (c % 8)>> ELSE Octal(c)
SerStr(b) ==
    IF \A i \in 1..Len(b): b[i] < 128
    THEN <<40>> \o Concat([i \in 1..Len(b) |-> EscByte(b[i], Balanced(b))], 1, <<>>) \o <<41>>
    ELSE <<60>> \o Concat([i \in 1..Len(b) |-> Hex2(b[i])], 1, <<>>) \o <<62>>

NameByte(c) ==
    IF c \in 33..126 /\ Cls[c] = 0 /\ (c # 35 \/ Bug = "hash") THEN <<c>>
    ELSE <<35>> \o Hex2(c)
SerName(b) == <<47>> \o Concat([i \in 1..Len(b) |-> NameByte(b[i])], 1, <<>>)

\* In compact style, a space is needed between two values only if both of
\* the adjoining characters are regular (and after an empty name).
Regular(c) == Cls[c] = 0
Glue(x, y) ==
    IF \/ Regular(x[Len(x)]) /\ Regular(y[1])
       \/ x[Len(x)] = 47 /\ Regular(y[1]) /\ Bug # "emptyname"
    THEN x \o <<32>> \o y ELSE x \o y
RECURSIVE GlueAll(_, _, _)
GlueAll(ss, i, acc) ==
    IF i > Len(ss) THEN acc
    ELSE GlueAll(ss, i + 1, IF i = 1 THEN ss[1] ELSE Glue(acc, ss[i]))

Nl == <<10>>
Spaces(n) == [i \in 1..(2 * n) |-> 32]
RECURSIVE Ser(_, _, _)
Ser(v, pretty, ind) ==
    CASE v.t = "null" -> kwNull
      [] v.t = "bool" -> IF v.b[1] = 1 THEN kwTrue ELSE kwFalse
      [] v.t = "int" -> SerInt(v.b[1])
      [] v.t = "name" -> SerName(v.b)
      [] v.t = "str" -> SerStr(v.b)
      [] v.t = "ref" -> SerInt(v.b[1]) \o <<32, 48, 32, 82>>
      [] v.t = "array" ->
           LET items == [i \in 1..Len(v.k) |-> Ser(v.k[i], pretty, ind + 1)] IN
           IF pretty THEN <<91>> \o Joined(items, <<32>>, 1, <<>>) \o <<93>>
           ELSE <<91>> \o GlueAll(items, 1, <<>>) \o <<93>>
      [] v.t = "dict" ->
           LET ent(i, p) == IF p THEN Nl \o Spaces(ind + 1) \o SerName(v.k[i].b) \o <<32>>
                                      \o Ser(v.k[i].k[1], p, ind + 1)
                            ELSE Glue(SerName(v.k[i].b), Ser(v.k[i].k[1], p, ind + 1))
               ents == [i \in 1..Len(v.k) |-> ent(i, pretty)]
           IN  IF pretty
               THEN <<60, 60>> \o Concat(ents, 1, <<>>)
                    \o (IF v.k = <<>> THEN <<>> ELSE Nl \o Spaces(ind)) \o <<62, 62>>
               ELSE <<60, 60>> \o GlueAll(ents, 1, <<>>) \o <<62, 62>>
      [] v.t = "stream" ->
           Ser([v.k[1] EXCEPT !.t = "dict",
                              !.k = <<Key("Length", IntV(Len(v.b)))>> \o v.k[1].k], pretty, ind)
           \o Nl \o kwStream \o Nl \o v.b
           \o (IF Bug = "endstream" THEN <<>> ELSE Nl) \o kwEndstream

SerInd(o, pretty) ==
    SerInt(o.id) \o <<32, 48, 32>> \o kwObj \o Nl \o Ser(o.v, pretty, 0) \o Nl \o kwEndobj \o Nl
    \o (IF pretty THEN Nl ELSE <<>>)

RECURSIVE SerObjs(_, _, _, _, _)
\* [x |-> bytes, at |-> 0-based offset of each object]
SerObjs(objs, pretty, i, x, at) ==
    IF i > Len(objs) THEN [x |-> x, at |-> at]
    ELSE SerObjs(objs, pretty, i + 1, x \o SerInd(objs[i], pretty), Append(at, Len(x)))

----------------------------------------------------------------------------
(* The cross-reference entries of the sorted sequence of <<number, offset>> *)
(* (step by step in MCXref).                                               *)
NextFree(ids, n) == \* the next number after n that is not in ids, 0 past the end
    LET m == CHOOSE m \in (n + 1)..(n + 1 + Cardinality(ids)):
                m \notin ids /\ \A k \in (n + 1)..(m - 1): k \in ids
        top == CHOOSE x \in ids \cup {0}: \A y \in ids: y <= x
    IN  IF m > top THEN 0 ELSE IF Bug = "freelink" /\ m > n + 2 THEN m - 1 ELSE m

EntriesOf(offs) == \* offs: number -> offset
    LET ids == DOMAIN offs
        top == CHOOSE x \in ids \cup {0}: \A y \in ids: y <= x
    IN  [i \in 1..(top + 1) |->
            IF i - 1 \in ids THEN [id |-> i - 1, used |-> TRUE, a |-> offs[i - 1], g |-> 0]
            ELSE [id |-> i - 1, used |-> FALSE, a |-> NextFree(ids, i - 1),
                  g |-> IF i = 1 THEN 65535 ELSE 0]]

SerTable(ents) ==
    kwXref \o Nl \o <<48, 32>> \o SerInt(Len(ents)) \o Nl
    \o Concat([i \in 1..Len(ents) |->
          Padded(SerInt(ents[i].a), 10) \o <<32>> \o Padded(SerInt(ents[i].g), 5) \o <<32>>
          \o <<IF ents[i].used THEN 110 ELSE 102>> \o <<13, 10>>], 1, <<>>)

RECURSIVE BytesOf(_, _)
BytesOf(n, w) == IF w = 0 THEN <<>> ELSE BytesOf(n \div 256, w - 1) \o <<n % 256>>
Width(n) == IF n = 0 THEN 0 ELSE IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE 3
XrefData(ents, w) ==
    Concat([i \in 1..Len(ents) |->
        <<IF ents[i].used THEN 1 ELSE 0>> \o BytesOf(ents[i].a, w) \o BytesOf(ents[i].g, 2)], 1, <<>>)

SerHeader(ct) ==
    <<37, 80, 68, 70, 45, 48 + ct.major, 46, 48 + ct.minor, 10, 37>> \o ct.marker \o <<10, 10>>
SerEnd(off) == kwStartxref \o Nl \o SerInt(off) \o Nl \o kwEof

\* The whole document; mode and xid as in PdfJudge.
SerDoc(ct, mode, xid, pretty) ==
    LET body == SerObjs(ct.objs, pretty, 1, SerHeader(ct), <<>>)
        at == Len(body.x)
        offs == [id \in Ids(ct.objs) |-> body.at[IndexOf(ct, id)]]
    IN  IF mode = 0
        THEN LET ents == EntriesOf(offs)
             IN  body.x \o SerTable(ents) \o kwTrailer \o Nl
                 \o Ser(Dct(TrailerEntries(ct, Len(ents))), pretty, 0) \o Nl
                 \o SerEnd(IF Bug = "startxref" THEN at + 1 ELSE at) \o Nl
        ELSE LET ents == EntriesOf((xid :> at) @@ offs)
                 w == Width(IF Bug = "width" THEN at ELSE Max(at, Len(ents)))
             IN  body.x
                 \o SerInd([id |-> xid,
                            v |-> V("stream", XrefData(ents, w),
                                <<Dct(<<Key("Type", Name("XRef"))>>
                                      \o TrailerEntries(ct, Len(ents))
                                      \o <<Key("W", Arr(<<IntV(1), IntV(w), IntV(2)>>))>>)>>)],
                           pretty)
                 \o SerEnd(at)

Observe(x, mode, xid) ==
    [n |-> Len(x), segs |-> <<[o |-> 0, x |-> x]>>, mode |-> mode, xid |-> xid, raw |-> <<>>]
----------------------------------------------------------------------------
(* The scanner that renumbers objects in their bytes.                      *)

White == {c \in 0..255: Cls[c] = 1}
Digit == 48..57
RECURSIVE BackWhile(_, _, _)
BackWhile(x, i, S) == IF i = 0 THEN 0 ELSE IF x[i] \notin S THEN i ELSE BackWhile(x, i - 1, S)
RECURSIVE NumberOf(_, _, _, _)
NumberOf(x, i, j, acc) == IF i > j THEN acc ELSE NumberOf(x, i + 1, j, 10 * acc + x[i] - 48)
\* The reference whose R is at i: [ok, from (first byte), id]
RefBefore(x, i) ==
    LET e1 == BackWhile(x, i - 1, White)
        s1 == BackWhile(x, e1, Digit)
        e2 == BackWhile(x, s1, White)
        s2 == IF Bug = "scandigits" THEN e2 - 1 ELSE BackWhile(x, e2, Digit)
    IN  IF e1 = i - 1 \/ s1 = e1 \/ e2 = s1 \/ s2 = e2 \/ s2 < 0 \/ e2 - s2 > 9
        THEN [ok |-> FALSE, from |-> 0, id |-> 0]
        ELSE [ok |-> TRUE, from |-> s2 + 1, id |-> NumberOf(x, s2 + 1, e2, 0)]
StreamAt(x, i) ==
    /\ i + 5 <= Len(x) /\ SubSeq(x, i, i + 5) = kwStream
    /\ LET e == BackWhile(x, i - 1, White) IN e >= 2 /\ x[e] = 62 /\ x[e - 1] = 62
RECURSIVE StringEnd(_, _, _)
StringEnd(x, i, d) ==
    CASE i > Len(x) -> i
      [] x[i] = 40 -> StringEnd(x, i + 1, d + 1)
      [] x[i] = 41 -> IF d = 1 THEN i ELSE StringEnd(x, i + 1, d - 1)
      [] x[i] = 92 /\ Bug # "scanescape" -> StringEnd(x, i + 2, d)
      [] OTHER -> StringEnd(x, i + 1, d)
RECURSIVE Scan(_, _, _, _, _)
\* x[w..] is not yet copied, x[i..] not yet seen
Scan(x, w, i, f, acc) ==
    IF i > Len(x) THEN acc \o SubSeq(x, w, Len(x))
    ELSE IF x[i] = 82 /\ RefBefore(x, i).ok
    THEN LET r == RefBefore(x, i) IN
         Scan(x, i + 1, i + 1, f,
              acc \o SubSeq(x, w, r.from - 1)
                  \o SerInt(IF r.id \in DOMAIN f THEN f[r.id] ELSE r.id) \o <<32, 48, 32, 82>>)
    ELSE IF x[i] = 40 /\ Bug # "scanstring" THEN Scan(x, w, StringEnd(x, i, 0) + 1, f, acc)
    ELSE IF x[i] = 115 /\ StreamAt(x, i) /\ Bug # "scanstream" THEN acc \o SubSeq(x, w, Len(x))
    ELSE Scan(x, w, i + 1, f, acc)
Scanned(x, f) == Scan(x, 1, 1, f, <<>>)
=============================================================================
