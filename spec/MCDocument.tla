----------------------------- MODULE MCDocument -----------------------------
(***************************************************************************)
(* All small documents: every way to write, assemble, renumber and finish  *)
(* up to MaxOps steps with object numbers up to MaxNum.                    *)
(*                                                                         *)
(* Checked for the model itself: what the design (PdfSerial) writes is     *)
(* what the machine describes.  Every finished behaviour is printed as a   *)
(* program, which the harness runs on the library; the recorded execution  *)
(* is then judged by PdfTrace.                                             *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS MaxNum, MaxOps, Dump

VARIABLES
    hist,   \* the calls so far
    n,      \* number of steps so far
    out     \* <<>>, or <<mode, xid, did it finish>> at the end
vars == <<cont, stack, hist, n, out>>

Log(es) == hist' = hist \o es
E(e) == [e |-> e]

Init ==
    /\ cont = <<[NoCont EXCEPT !.kind = "pdf"], [NoCont EXCEPT !.kind = "chunk"]>>
    /\ stack = <<>>
    /\ hist = <<[e |-> "new", c |-> 1, kind |-> "pdf", pretty |-> FALSE],
                [e |-> "new", c |-> 2, kind |-> "chunk", pretty |-> FALSE]>>
    /\ n = 0
    /\ out = <<>>

Can == out = <<>> /\ stack = <<>> /\ n < MaxOps
Tick == n' = n + 1 /\ UNCHANGED out

\* An object that refers to the object after it.
Write(c, id) ==
    /\ Can /\ Tick
    /\ BeginInd(c, id)
    /\ Log(<<[e |-> "ind", c |-> c, id |-> id]>>)
Value ==
    /\ out = <<>> /\ stack # <<>> /\ Top.t = "slot"
    /\ LET v == RefV(1 + (Top.id % MaxNum)) IN Prim(v) /\ Log(<<[e |-> "prim", v |-> v]>>)
    /\ UNCHANGED <<n, out>>

WriteStream(c, id) ==
    /\ Can /\ Tick
    /\ BeginStream(c, id, <<48 + id, 13>>)
    /\ Log(<<[e |-> "strm", c |-> c, id |-> id, x |-> <<48 + id, 13>>], E("end")>>)
EndStream == out = <<>> /\ stack # <<>> /\ Top.t \in {"stream", "dict"} /\ Close
             /\ UNCHANGED <<hist, n, out>>

DoExtend == Can /\ Tick /\ cont[2].objs # <<>> /\ Extend(1, 2)
            /\ Log(<<[e |-> "ext", d |-> 1, s |-> 2]>>)

DoRenumber(k) ==
    /\ Can /\ Tick /\ cont[2].objs # <<>>
    /\ RenumberInto(1, 2, [i \in Numbers(cont[2].objs) |-> i + k])
    /\ Log(<<[e |-> "ren", d |-> 1, s |-> 2, plus |-> k]>>)

Catalog(id) == Can /\ Tick /\ cont[1].root = 0 /\ BeginRegistered(1, id, "catalog")
               /\ Log(<<[e |-> "cat", c |-> 1, id |-> id], E("end")>>)

Finish(mode, xid) ==
    /\ out = <<>> /\ stack = <<>>
    /\ out' = <<mode, xid, ~HasDuplicate(AllIds(1, xid))>>
    /\ IF HasDuplicate(AllIds(1, xid)) THEN FinishPanics(1, xid) ELSE FinishOk(1, xid)
    /\ Log(<<[e |-> "fin", c |-> 1, mode |-> mode, xid |-> xid]>>)
    /\ UNCHANGED n

Next ==
    \/ \E id \in 1..MaxNum: Write(1, id) \/ Write(2, id) \/ Catalog(id) \/ WriteStream(1, id)
    \/ Value \/ EndStream
    \/ DoExtend
    \/ \E k \in {1, MaxNum}: DoRenumber(k)
    \/ Finish(0, 0)
    \/ \E xid \in 1..(MaxNum + 2): Finish(1, xid)
    \/ n <= 1 /\ Finish(1, 300)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == out # <<>> /\ out[3]
File(pretty) == Observe(SerDoc(cont[1], out[1], out[2], pretty), out[1], out[2])

Print_ == (out # <<>> /\ Dump) => PrintT(<<"PROGRAM", ToJson(hist)>>)

\* The design satisfies the properties of finished files.
DesignFinds == Done => \A p \in {FALSE, TRUE}: \A f \in {File(p)}: XrefFinds(cont[1], f)
DesignFreeList == Done => \A f \in {File(FALSE)}: FreeListFor(cont[1], f)
DesignTrailer == Done => \A f \in {File(TRUE)}: TrailerFor(cont[1], f) /\ FileHeaderFor(cont[1], f)
DesignBody == Done => \A f \in {File(FALSE)}: FileBodyFor(cont[1], f)

\* The machine: limits are maxima, a chunk that is extended by keeps its objects.
LimitsAreMaxima == \A c \in 1..2: \A i \in 1..Len(cont[c].objs):
    LimMerge(cont[c].lim, LimOf(cont[c].objs[i].v)) = cont[c].lim
OnlyAppends == [][\A c \in 1..2:
    /\ Len(cont'[c].objs) >= Len(cont[c].objs)
    /\ SubSeq(cont'[c].objs, 1, Len(cont[c].objs)) = cont[c].objs]_vars
\* What the mapping does not reach stays: values differ only in references.
RenumberKeepsShape == [][\A i \in 1..Len(cont[2].objs): cont'[2].objs[i] = cont[2].objs[i]]_vars
=============================================================================
