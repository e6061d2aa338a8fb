------------------------------- MODULE PdfFile -------------------------------
(***************************************************************************)
(* The structure of a PDF file (ISO 32000-1, 7.5): header, body, cross-    *)
(* reference table or stream, trailer; as a conforming reader finds it,    *)
(* starting from the end of the file.                                      *)
(*                                                                         *)
(* A file is given as its length and its literal segments [o, x]: the      *)
(* bytes x from offset o (0-based).  Long runs of a filler byte inside of  *)
(* stream data are left out of the segments; small files are one segment.  *)
(***************************************************************************)
EXTENDS PdfValues

kwXref == <<120, 114, 101, 102>>
kwTrailer == <<116, 114, 97, 105, 108, 101, 114>>
kwStartxref == <<115, 116, 97, 114, 116, 120, 114, 101, 102>>
kwEof == <<37, 37, 69, 79, 70>>

\* The segment that contains an offset (0 if none does).
SegAt(segs, off) ==
    LET is == {i \in 1..Len(segs): segs[i].o <= off /\ off < segs[i].o + Len(segs[i].x)}
    IN  IF is = {} THEN 0 ELSE CHOOSE i \in is: TRUE

\* IsEol: PdfReader
EolEnd(x, p) ==
    IF At(x, p) = 13 THEN IF At(x, p + 1) = 10 THEN p + 2 ELSE p + 1
    ELSE IF At(x, p) = 10 THEN p + 1 ELSE 0

----------------------------------------------------------------------------
(* 7.5.2: `%PDF-M.m`, and a comment with four bytes on the second line.    *)
HeaderOk(x, major, minor, marker) ==
    /\ IsAt(x, 1, <<37, 80, 68, 70, 45, 48 + major, 46, 48 + minor>>)
    /\ LET p == EolEnd(x, 9) IN
       /\ p # 0
       /\ IsAt(x, p, <<37>> \o marker)

----------------------------------------------------------------------------
(* 7.5.5: `startxref`, the byte offset, `%%EOF` at the very end.           *)
RECURSIVE LastAt(_, _, _)
LastAt(x, p, w) == IF p < 1 THEN 0 ELSE IF IsAt(x, p, w) THEN p ELSE LastAt(x, p - 1, w)

\* The offset given by `startxref`, or -1.
StartXref(x) ==
    LET s == LastAt(x, Len(x), kwStartxref)
        p == IF s = 0 THEN 0 ELSE EolEnd(x, s + 9)
        q == IF p = 0 THEN 0 ELSE DigitsEnd(x, p)
        e == IF q = p THEN 0 ELSE EolEnd(x, q)
    IN  IF e = 0 \/ ~IsAt(x, e, kwEof) THEN -1
        ELSE IF e + 5 # Len(x) + 1 /\ EolEnd(x, e + 5) # Len(x) + 1 THEN -1
        ELSE IF s > 1 /\ Cls[x[s - 1]] # 1 THEN -1
        ELSE Nat32(NumOf(x, p, q))

----------------------------------------------------------------------------
(* 7.5.4: the cross-reference table.                                       *)
(* Entries are [id, used, a, g]: offset and generation, or the next free   *)
(* object and its generation.                                              *)
NoEntries == <<[id |-> -1, used |-> FALSE, a |-> -1, g |-> -1]>>

AllDigits(x, p, n) == \A i \in p..(p + n - 1): i <= Len(x) /\ IsDigit(x[i])

\* Twenty bytes: nnnnnnnnnn ggggg n eol
Entry(x, p, id) ==
    IF /\ AllDigits(x, p, 10) /\ At(x, p + 10) = 32
       /\ AllDigits(x, p + 11, 5) /\ At(x, p + 16) = 32
       /\ At(x, p + 17) \in {102, 110}
       /\ <<At(x, p + 18), At(x, p + 19)>> \in {<<32, 13>>, <<32, 10>>, <<13, 10>>}
    THEN [id |-> id, used |-> x[p + 17] = 110, a |-> Nat32(NumOf(x, p, p + 10)),
          g |-> Nat32(NumOf(x, p + 11, p + 16))]
    ELSE [id |-> -1, used |-> FALSE, a |-> -1, g |-> -1]

RECURSIVE Sections(_, _, _)
Sections(x, p, acc) ==
    IF ~IsDigit(At(x, p)) THEN [e |-> acc, p |-> p]
    ELSE LET e1 == DigitsEnd(x, p)
             e2 == DigitsEnd(x, e1 + 1)
             first == Nat32(NumOf(x, p, e1))
             n == IF At(x, e1) = 32 /\ e2 > e1 + 1 THEN Nat32(NumOf(x, e1 + 1, e2)) ELSE -1
             d == SkipSp(x, e2)
         IN  IF n < 0 \/ first < 0 \/ d + 20 * n - 1 > Len(x) THEN [e |-> NoEntries, p |-> p]
             ELSE Sections(x, d + 20 * n,
                    acc \o [i \in 1..n |-> Entry(x, d + 20 * (i - 1), first + i - 1)])

\* [ok, ents, dict]: the entries and the trailer dictionary.
NoXref == [ok |-> FALSE, ents |-> <<>>, dict |-> V("dict", <<>>, <<>>)]
XrefTable(x, p) ==
    IF ~IsAt(x, p, kwXref) \/ EolEnd(x, p + 4) = 0 THEN NoXref
    ELSE LET s == Sections(x, EolEnd(x, p + 4), <<>>) IN
         IF \E i \in 1..Len(s.e): s.e[i].id < 0 \/ s.e[i].a < 0 THEN NoXref
         ELSE LET t == SkipWs(x, s.p) IN
              IF ~IsAt(x, t, kwTrailer) THEN NoXref
              ELSE LET r == Val(x, t + 7, TRUE) IN
                   IF r.v.t # "dict" THEN NoXref
                   ELSE [ok |-> TRUE, ents |-> s.e, dict |-> r.v]

----------------------------------------------------------------------------
(* 7.5.8: cross-reference streams.                                         *)
RECURSIVE BE(_, _, _, _)
BE(d, p, n, acc) == IF n = 0 THEN acc
                    ELSE IF acc > 8388607 THEN -1
                    ELSE BE(d, p + 1, n - 1, acc * 256 + d[p])

\* The entries from the decoded data `d` and the dictionary.
StreamEntries(dict, d) ==
    LET w == Get(dict, B("W"))
        size == Nat32(Get(dict, B("Size")))
        idx == Get(dict, B("Index"))
        w1 == Nat32(w.k[1])
        w2 == Nat32(w.k[2])
        w3 == Nat32(w.k[3])
        row == w1 + w2 + w3
        E(i) == LET o == 1 + row * (i - 1)
                    ty == IF w1 = 0 THEN 1 ELSE BE(d, o, w1, 0)
                IN  [id |-> i - 1, used |-> ty = 1,
                     a |-> IF ty \in {0, 1} THEN BE(d, o + w1, w2, 0) ELSE -1,
                     g |-> BE(d, o + w1 + w2, w3, 0)]
    IN  IF \/ w.t # "array" \/ Len(w.k) # 3 \/ size < 0
           \/ \E i \in 1..3: Nat32(w.k[i]) < 0
        THEN NoEntries
        ELSE IF \/ idx.t # "err" /\ (\/ idx.t # "array" \/ Len(idx.k) # 2
                                     \/ Nat32(idx.k[1]) # 0 \/ Nat32(idx.k[2]) # size)
                \/ Len(d) # row * size
             THEN NoEntries
        ELSE <<>> \o [i \in 1..size |-> E(i)]

----------------------------------------------------------------------------
(* What the entries must say.                                              *)

\* Exactly the objects 0..n-1 are listed, each once, in order.
EntriesTotal(ents, n) == Len(ents) = n /\ \A i \in 1..n: ents[i].id = i - 1

\* 7.5.4: the free entries form a linked list that starts and ends at object
\* 0, which has generation 65535, and visits each free entry exactly once:
\* the links permute the free entries, and object 0 is reached from each.
RECURSIVE AllReach(_, _)
AllReach(f, k) ==
    \/ \A i \in 1..Len(f): f[i] = 1
    \/ k > 0 /\ \A g \in {<<>> \o [i \in 1..Len(f) |-> f[f[i]]]}: AllReach(g, k - 1)
FreeListOk(ents) ==
    LET n == Len(ents)
        free == {i \in 1..n: ~ents[i].used}
    IN  /\ n >= 1
        /\ ~ents[1].used
        /\ ents[1].g = 65535
        /\ \A i \in free: ents[i].a < n /\ ~ents[ents[i].a + 1].used
        /\ Cardinality({ents[i].a: i \in free}) = Cardinality(free)
        /\ \A f \in {<<>> \o [i \in 1..n |-> IF i = 1 \/ ents[i].used THEN 1 ELSE ents[i].a + 1]}:
             AllReach(f, 24)
=============================================================================
