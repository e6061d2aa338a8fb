------------------------------ MODULE PdfJudge ------------------------------
(***************************************************************************)
(* What a finished file must be, given the container ct that describes the *)
(* document, and an observation ev of the file:                            *)
(*   n     its length        segs  its literal segments                    *)
(*   mode  0: cross-reference table, else stream (1: no filter, ...)       *)
(*   xid   number of the stream    raw   <<the data before filtering>>     *)
(* Used for observations of the library (PdfTrace) and of the model of it  *)
(* (MCDocument) alike.                                                     *)
(***************************************************************************)
EXTENDS PdfDocument

\* The bytes x[from..to-1] are the objects, in order.
ObjectsAre(objs, x, from, to) ==
    LET ps == Body(x, from, to, <<>>)
    IN  /\ Len(ps) = Len(objs)
        /\ \A i \in 1..Len(ps):
             /\ ps[i].ok
             /\ ps[i].id = objs[i].id
             /\ ps[i].gen = 0
             /\ Matches(objs[i].v, ps[i].v)

\* The segment with the end of the file.
LastSeg(ev) == ev.segs[Len(ev.segs)]
EndsFile(ev) == LastSeg(ev).o + Len(LastSeg(ev).x) = ev.n

\* The cross-reference data of a file: [ok, ents, dict, off, data, id]
XrefOf(ev) ==
    LET last == LastSeg(ev)
        off == StartXref(last.x)
    IN  IF ~EndsFile(ev) \/ off < last.o \/ off >= ev.n
        THEN NoXref @@ [off |-> -1, data |-> <<>>, id |-> 0]
        ELSE IF ev.mode = 0
             THEN XrefTable(last.x, off - last.o + 1) @@ [off |-> off, data |-> <<>>, id |-> 0]
        ELSE LET o == Indirect(last.x, off - last.o + 1) IN
             IF ~o.ok \/ o.v.t # "stream" \/ o.gen # 0
             THEN NoXref @@ [off |-> -1, data |-> <<>>, id |-> 0]
             ELSE [ok |-> TRUE,
                   ents |-> StreamEntries(o.v.k[1],
                              IF ev.raw = <<>> THEN o.v.b ELSE ev.raw[1]),
                   dict |-> o.v.k[1], off |-> off, data |-> o.v.b, id |-> o.id]

\* Number of table entries: one more than the largest object number.
SizeOf(ct, ev) == 1 + Max(MaxId(ct.objs), ev.xid)

\* Object number -> index into ct.objs (0: the cross-reference stream, or none)
IndexOf(ct, id) ==
    LET is == {i \in 1..Len(ct.objs): ct.objs[i].id = id}
    IN  IF is = {} THEN 0 ELSE CHOOSE i \in is: TRUE

\* Following an entry finds exactly the object that was written.
Resolves(ct, ev, e, xr) ==
    IF ev.mode # 0 /\ e.id = ev.xid THEN e.a = xr.off /\ xr.id = ev.xid /\ e.g = 0
    ELSE LET i == IndexOf(ct, e.id)
             s == SegAt(ev.segs, e.a)
         IN  /\ i # 0 /\ s # 0 /\ e.g = 0
             /\ LET seg == ev.segs[s]
                    p == e.a - seg.o + 1
                    h == Header(seg.x, p)
                IN  /\ IsDigit(At(seg.x, p))
                    /\ p = 1 \/ Cls[At(seg.x, p - 1)] # 0
                    /\ h.ok /\ h.id = e.id /\ h.gen = 0
                    /\ Len(ev.segs) > 1 \/
                       LET o == Indirect(seg.x, p) IN o.ok /\ Matches(ct.objs[i].v, o.v)

Used(ct, ev) == Ids(ct.objs) \cup (IF ev.mode # 0 THEN {ev.xid} ELSE {})

\* Every object is found through the cross-reference data, and nothing else.
XrefFinds(ct, ev) == \A xr \in {XrefOf(ev)}:
    /\ xr.ok
    /\ EntriesTotal(xr.ents, SizeOf(ct, ev))
    /\ \A i \in 1..Len(xr.ents):
         /\ xr.ents[i].used <=> (xr.ents[i].id \in Used(ct, ev))
         /\ xr.ents[i].used => Resolves(ct, ev, xr.ents[i], xr)

FreeListFor(ct, ev) == \A xr \in {XrefOf(ev)}:
    /\ xr.ok
    /\ EntriesTotal(xr.ents, SizeOf(ct, ev))
    /\ \A i \in 1..Len(xr.ents): ~xr.ents[i].used <=> (xr.ents[i].id \notin Used(ct, ev))
    /\ FreeListOk(xr.ents)

FilterNames(mode) ==
    CASE mode = 2 -> Name("ASCIIHexDecode")
      [] mode = 3 -> Arr(<<Name("ASCIIHexDecode")>>)
      [] mode = 4 -> Arr(<<Name("ASCIIHexDecode"), Name("ASCIIHexDecode")>>)
      [] mode = 5 -> Arr(<<Name("ASCIIHexDecode"), Name("RunLengthDecode")>>)
      [] OTHER -> Arr(<<>>)

\* ASCIIHexDecode and RunLengthDecode (7.4.2, 7.4.5); err is <<-1>>.
HexDecode(d) ==
    LET n == Len(d) \div 2 IN
    IF Len(d) # 2 * n + 1 \/ d[Len(d)] # 62 \/ \E i \in 1..(2 * n): HexVal[d[i]] = -1
    THEN <<-1>>
    ELSE <<>> \o [i \in 1..n |-> HexVal[d[2 * i - 1]] * 16 + HexVal[d[2 * i]]]
RECURSIVE RunDecode(_, _, _)
RunDecode(d, p, acc) ==
    IF p > Len(d) THEN <<-1>>
    ELSE IF d[p] = 128 THEN IF p = Len(d) THEN acc ELSE <<-1>>
    ELSE IF d[p] < 128
         THEN IF p + d[p] + 1 > Len(d) THEN <<-1>>
              ELSE RunDecode(d, p + d[p] + 2, acc \o SubSeq(d, p + 1, p + d[p] + 1))
    ELSE IF p + 1 > Len(d) THEN <<-1>>
         ELSE RunDecode(d, p + 2, acc \o [i \in 1..(257 - d[p]) |-> d[p + 1]])
\* (The set comprehension makes TLC evaluate the argument once.)
RECURSIVE Decode(_, _, _)
Decode(fs, i, d) ==
    IF i > Len(fs) THEN d
    ELSE CHOOSE r \in {Decode(fs, i + 1, x): x \in
                         {IF fs[i] = Name("ASCIIHexDecode") THEN HexDecode(d)
                          ELSE RunDecode(d, 1, <<>>)}}: TRUE

\* The cross-reference stream declares what was applied to its data.
XrefFiltersFor(ct, ev) == \A xr \in {XrefOf(ev)}:
    LET f == Get(xr.dict, B("Filter"))
    IN  /\ xr.ok
        /\ Get(xr.dict, B("Type")) = Name("XRef")
        /\ IF ev.mode = 1 THEN f.t = "err" /\ ev.raw = <<>>
           ELSE /\ f = FilterNames(ev.mode)
                /\ Len(ev.raw) = 1
                /\ \A d \in {xr.data}:
                     Decode(IF f.t = "name" THEN <<f>> ELSE f.k, 1, d) = ev.raw[1]

\* The trailer says what the user determined.
TrailerFor(ct, ev) == \A xr \in {XrefOf(ev)}:
    LET es == TrailerEntries(ct, SizeOf(ct, ev))
        own == IF ev.mode = 0 THEN {} ELSE {B("Type"), B("W"), B("Length"), B("Filter"), B("Index")}
        k == SelectSeq(xr.dict.k, LAMBDA e: e.b \notin own)
    IN  xr.ok /\ EntriesMatch(es, k)

FileHeaderFor(ct, ev) ==
    ev.segs[1].o = 0 /\ HeaderOk(ev.segs[1].x, ct.major, ct.minor, ct.marker)

\* The body of a (small) file is the described objects in order.
FileBodyFor(ct, ev) == Len(ev.segs) = 1 =>
    LET xr == XrefOf(ev) IN
    xr.ok /\ ObjectsAre(ct.objs, ev.segs[1].x, 1, xr.off + 1)
=============================================================================
