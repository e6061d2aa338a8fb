----------------------------- MODULE PdfDocument -----------------------------
(***************************************************************************)
(* Chunk assembly, renumbering and whole documents on top of PdfWriter.    *)
(***************************************************************************)
EXTENDS PdfWriter

\* Chunk::extend
Extend(d, s) ==
    /\ stack = <<>>
    /\ cont' = [cont EXCEPT ![d].objs = @ \o cont[s].objs,
                            ![d].lim = LimMerge(@, cont[s].lim)]
    /\ UNCHANGED stack

\* Chunk::clone
Clone(d, s) ==
    /\ stack = <<>>
    /\ cont' = IF d = Len(cont) + 1 THEN Append(cont, cont[s]) ELSE [cont EXCEPT ![d] = cont[s]]
    /\ UNCHANGED stack

\* Chunk::merge_limits with the limits of another container
MergeLimits(d, s) ==
    /\ stack = <<>>
    /\ cont' = [cont EXCEPT ![d].lim = LimMerge(@, cont[s].lim)]
    /\ UNCHANGED stack

Ids(objs) == {objs[i].id: i \in 1..Len(objs)}

\* Every reference in a value mapped by f.
RECURSIVE MapRefs(_, _)
MapRefs(v, f) ==
    IF v.t = "ref" THEN V("ref", <<f[v.b[1]], v.b[2]>>, <<>>)
    ELSE IF v.k = <<>> THEN v
    ELSE [v EXCEPT !.k = [i \in 1..Len(v.k) |-> MapRefs(v.k[i], f)]]

\* Chunk::renumber_into: appends renumbered copies of all objects.
RenumberObjs(objs, f) ==
    [i \in 1..Len(objs) |-> [id |-> f[objs[i].id], v |-> MapRefs(objs[i].v, f)]]
MaxId(objs) == IF objs = <<>> THEN 0
               ELSE LET is == {objs[i].id: i \in 1..Len(objs)}
                    IN  CHOOSE m \in is: \A i \in is: i <= m
RECURSIVE MaxRef(_)
MaxRef(v) == IF v.t = "ref" THEN v.b[1]
             ELSE LET s == {MaxRef(v.k[i]): i \in 1..Len(v.k)} \cup {0}
                  IN  CHOOSE m \in s: \A i \in s: i <= m
\* The mapping is consulted for exactly the numbers that occur.
RECURSIVE RefsIn(_)
RefsIn(v) == IF v.t = "ref" THEN {v.b[1]} ELSE UNION {RefsIn(v.k[i]): i \in 1..Len(v.k)}
Numbers(objs) == Ids(objs) \cup UNION {RefsIn(objs[i].v): i \in 1..Len(objs)}

Renumbered(ct, s, f) ==
    LET new == RenumberObjs(cont[s].objs, f)
        ids == [Lim0 EXCEPT !.ids =
                  LET m == {MaxId(new)} \cup {MaxRef(new[i].v): i \in 1..Len(new)}
                  IN  CHOOSE x \in m: \A y \in m: y <= x]
    IN  [ct EXCEPT !.objs = @ \o new, !.lim = LimMerge(@, LimMerge(cont[s].lim, ids))]

RenumberInto(d, s, f) ==
    /\ stack = <<>>
    /\ DOMAIN f = Numbers(cont[s].objs)
    /\ cont' = [cont EXCEPT ![d] = Renumbered(@, s, f)]
    /\ UNCHANGED stack

\* Chunk::renumber
RenumberNew(d, s, f) ==
    /\ stack = <<>>
    /\ DOMAIN f = Numbers(cont[s].objs)
    /\ LET ct == Renumbered([NoCont EXCEPT !.kind = "chunk"], s, f)
       IN  cont' = IF d = Len(cont) + 1 THEN Append(cont, ct) ELSE [cont EXCEPT ![d] = ct]
    /\ UNCHANGED stack

\* Pdf::set_version, Pdf::set_binary_marker, Pdf::set_file_id
SetVersion(c, major, minor) ==
    /\ stack = <<>>
    /\ cont' = [cont EXCEPT ![c].major = IF major < 10 THEN major ELSE @,
                            ![c].minor = IF minor < 10 THEN minor ELSE @]
    /\ UNCHANGED stack
SetMarker(c, m) ==
    stack = <<>> /\ cont' = [cont EXCEPT ![c].marker = m] /\ UNCHANGED stack
SetFileId(c, a, b) ==
    stack = <<>> /\ cont' = [cont EXCEPT ![c].fid = <<a, b>>] /\ UNCHANGED stack

\* Pdf::catalog, Pdf::document_info: an indirect dictionary that is also
\* registered with the trailer.
BeginRegistered(c, id, which) ==
    /\ stack = <<>>
    /\ cont' = IF which = "catalog" THEN [cont EXCEPT ![c].root = id]
               ELSE [cont EXCEPT ![c].info = id]
    /\ stack' = <<[IndFrame("dict", IF which = "catalog" THEN "Catalog" ELSE "DocumentInfo",
                            c, id, <<>>)
                   EXCEPT !.k = IF which = "catalog"
                                THEN <<Key("Type", Name("Catalog"))>> ELSE <<>>]>>

----------------------------------------------------------------------------
(* Finishing a document.                                                   *)

HasDuplicate(objs) == Cardinality(Ids(objs)) # Len(objs)

\* The object numbers that will be taken, with the cross-reference stream's.
AllIds(c, xid) == [i \in 1..(Len(cont[c].objs) + (IF xid > 0 THEN 1 ELSE 0)) |->
    IF i <= Len(cont[c].objs) THEN cont[c].objs[i] ELSE [id |-> xid, v |-> N("null")]]

\* Pdf::finish* succeeds iff no object number was used twice.
FinishOk(c, xid) == stack = <<>> /\ ~HasDuplicate(AllIds(c, xid)) /\ UNCHANGED wvars
FinishPanics(c, xid) == stack = <<>> /\ HasDuplicate(AllIds(c, xid)) /\ UNCHANGED wvars

\* The trailer entries that the user determined.
TrailerEntries(ct, size) ==
    <<Key("Size", IntV(size))>>
    \o (IF ct.root # 0 THEN <<Key("Root", RefV(ct.root))>> ELSE <<>>)
    \o (IF ct.info # 0 THEN <<Key("Info", RefV(ct.info))>> ELSE <<>>)
    \o (IF ct.fid # <<>> THEN <<Key("ID", Arr(<<StrB(ct.fid[1]), StrB(ct.fid[2])>>))>>
        ELSE <<>>)
=============================================================================
