------------------------------ MODULE MCSyntax ------------------------------
(***************************************************************************)
(* All small objects: every way to open, fill and close nested writers     *)
(* with at most MaxNodes values.  Two chunks, one for each style, are      *)
(* written by the same calls.                                              *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS MaxNodes, Dump, Small

VARIABLES hist, n
vars == <<cont, stack, hist, n>>

\* Values whose forms could run together with what is before or after.
Atoms ==
    {N("null"), Bool(TRUE), IntV(0), IntV(-5), IntV(10), RefV(3), NameB(<<>>), NameB(<<65>>),
     StrB(<<>>), StrB(<<41>>)}
    \cup (IF Small THEN {} ELSE
    {Bool(FALSE), IntV(7), RefV(12), NameB(<<35>>), NameB(<<32, 48>>), NameB(<<82>>), NameB(<<48>>),
     StrB(<<40>>), StrB(<<92>>), StrB(<<128>>), StrB(<<10>>)})
Keys == {<<>>, <<65>>, <<47>>} \cup (IF Small THEN {} ELSE {<<48, 32>>, <<35>>})

Log(e) == hist' = hist \o <<e>>
Ev(e) == [e |-> e]

Init ==
    /\ cont = <<[NoCont EXCEPT !.kind = "chunk"]>>
    /\ stack = <<>> /\ n = 0 /\ hist = <<>>

Begin == /\ n = 0 /\ stack = <<>> /\ BeginInd(1, 7)
         /\ Log([e |-> "ind", c |-> 1, id |-> 7]) /\ UNCHANGED n
\* Items are pushed and entries inserted only while there are values left.
Room == n < MaxNodes
Put(v) == Room /\ Prim(v) /\ n' = n + 1 /\ Log([e |-> "prim", v |-> v])
OpenW(t) == Room /\ Open(t) /\ n' = n + 1 /\ Log(Ev(IF t = "array" THEN "arr" ELSE "dict"))
PushItem == Room /\ Push /\ UNCHANGED n /\ Log(Ev("push"))
InsertKey(k) == Room /\ Insert(k) /\ UNCHANGED n /\ Log([e |-> "ins", key |-> k])
CloseW == Close /\ UNCHANGED n /\ Log(Ev("end"))

Next ==
    \/ Begin
    \/ \E v \in Atoms: Put(v)
    \/ \E t \in {"array", "dict"}: OpenW(t)
    \/ PushItem
    \/ \E k \in Keys: InsertKey(k)
    \/ CloseW

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Complete == stack = <<>> /\ n > 0
Bytes(pretty) == SerObjs(cont[1].objs, pretty, 1, <<>>, <<>>).x

\* The design: both styles denote what was described.
DesignRoundTrip == Complete => \A p \in {FALSE, TRUE}: \A x \in {Bytes(p)}:
    ObjectsAre(cont[1].objs, x, 1, Len(x) + 1)

\* The machine: writers are closed in the order of opening, and every value
\* goes to exactly one place.
RECURSIVE Size(_)
Size(v) == CASE v.t = "ent" -> Size(v.k[1])
             [] v.t \in {"array", "dict"} ->
                  LET s[i \in 0..Len(v.k)] == IF i = 0 THEN 1 ELSE s[i - 1] + Size(v.k[i]) IN s[Len(v.k)]
             [] OTHER -> 1
Conserved == Complete => Size(cont[1].objs[1].v) = n
Nested == \A i \in 1..Len(stack):
    /\ (stack[i].to = "ind") = (i = 1)
    /\ i > 1 => stack[i - 1].t = (IF stack[i].to = "item" THEN "array" ELSE "dict")

\* The same calls in two chunks, one per style, side by side.
Program == <<[e |-> "new", c |-> 1, kind |-> "chunk", pretty |-> FALSE],
             [e |-> "new", c |-> 2, kind |-> "chunk", pretty |-> TRUE]>>
           \o hist \o [i \in 1..Len(hist) |-> IF hist[i].e = "ind" THEN [hist[i] EXCEPT !.c = 2] ELSE hist[i]]
           \o <<[e |-> "obs", c |-> 1], [e |-> "obs", c |-> 2], [e |-> "twin", c |-> 1, d |-> 2]>>
Print_ == (Complete /\ Dump) => PrintT(<<"PROGRAM", ToJson(Program)>>)
=============================================================================
