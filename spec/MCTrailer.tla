------------------------------ MODULE MCTrailer ------------------------------
(***************************************************************************)
(* What a document determines about its file: every sequence of up to      *)
(* MaxOps settings and objects, then either way to finish.                 *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS MaxOps, Dump

VARIABLES hist, n, out
vars == <<cont, stack, hist, n, out>>

Init ==
    /\ cont = <<[NoCont EXCEPT !.kind = "pdf"]>> /\ stack = <<>> /\ n = 0 /\ out = <<>>
    /\ hist = <<[e |-> "new", c |-> 1, kind |-> "pdf", pretty |-> FALSE]>>
Step(es) == out = <<>> /\ n < MaxOps /\ n' = n + 1 /\ hist' = hist \o es /\ UNCHANGED out

Registered(id, which) ==
    /\ BeginRegistered(1, id, which)
    /\ Step(<<[e |-> IF which = "catalog" THEN "cat" ELSE "info", c |-> 1, id |-> id], [e |-> "end"]>>)
Next ==
    \/ stack = <<>> /\
        \/ \E v \in {<<1, 4>>, <<2, 0>>}: SetVersion(1, v[1], v[2])
             /\ Step(<<[e |-> "ver", c |-> 1, a |-> v[1], b |-> v[2]]>>)
        \/ \E m \in {<<200, 10, 13, 37>>, <<128, 128, 128, 255>>}: SetMarker(1, m)
             /\ Step(<<[e |-> "mark", c |-> 1, x |-> m]>>)
        \/ \E f \in {<<<<1, 40>>, <<>>>>, <<<<97>>, <<98, 255>>>>}: SetFileId(1, f[1], f[2])
             /\ Step(<<[e |-> "fid", c |-> 1, a |-> f[1], b |-> f[2]]>>)
        \/ \E id \in {n + 1, n + 7}, w \in {"catalog", "info"}: Registered(id, w)
        \/ BeginStream(1, 50 + n, <<n>>)
             /\ Step(<<[e |-> "strm", c |-> 1, id |-> 50 + n, x |-> <<n>>], [e |-> "end"]>>)
        \/ \E mode \in {0, 1}: LET xid == mode * 30 IN
             /\ out = <<>> /\ FinishOk(1, xid) /\ out' = <<mode, xid>>
             /\ hist' = hist \o <<[e |-> "fin", c |-> 1, mode |-> mode, xid |-> xid]>> /\ UNCHANGED n
    \/ stack # <<>> /\ Close /\ UNCHANGED <<hist, n, out>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
DesignTrailer == out # <<>> => \A f \in {Observe(SerDoc(cont[1], out[1], out[2], FALSE), out[1], out[2])}:
    TrailerFor(cont[1], f) /\ FileHeaderFor(cont[1], f) /\ FileBodyFor(cont[1], f)
\* The last setting of each kind counts.
Last_(es, p(_)) == LET is == {i \in 1..Len(es): p(es[i])} IN
    IF is = {} THEN 0 ELSE CHOOSE i \in is: \A j \in is: j <= i
LastCounts ==
    /\ LET i == Last_(hist, LAMBDA x: x.e = "ver") IN
       <<cont[1].major, cont[1].minor>> = IF i = 0 THEN <<1, 7>> ELSE <<hist[i].a, hist[i].b>>
    /\ LET i == Last_(hist, LAMBDA x: x.e = "cat") IN cont[1].root = IF i = 0 THEN 0 ELSE hist[i].id
    /\ LET i == Last_(hist, LAMBDA x: x.e = "info") IN cont[1].info = IF i = 0 THEN 0 ELSE hist[i].id
Print_ == (out # <<>> /\ Dump) => PrintT(<<"PROGRAM", ToJson(hist)>>)
=============================================================================
