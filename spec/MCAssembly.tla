----------------------------- MODULE MCAssembly -----------------------------
(***************************************************************************)
(* Assembly of chunks: every sequence of up to MaxOps writes, extensions,  *)
(* clones, merges of limits and renumberings among a few chunks.           *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS Chunks, MaxOps, Dump

VARIABLES hist, n
vars == <<cont, stack, hist, n>>

Init ==
    /\ cont = [i \in 1..Chunks |-> [NoCont EXCEPT !.kind = "chunk"]] /\ stack = <<>> /\ n = 0
    /\ hist = [i \in 1..Chunks |-> [e |-> "new", c |-> i, kind |-> "chunk", pretty |-> i % 2 = 0]]

Step(es) == n < MaxOps /\ n' = n + 1 /\ hist' = hist \o es

\* Each object is different: the number is the step; the value has its own
\* integer, string length, name length and array length.
Value(k) ==
    CASE k % 4 = 0 -> IntV(100 * (n + 1))
      [] k % 4 = 1 -> StrB([i \in 1..(n + 3) |-> 97])
      [] k % 4 = 2 -> RefV(n + 1)
      [] OTHER -> Arr([i \in 1..(n + 2) |-> RefV(i)])
Calls(v) == IF v.t = "array" THEN <<[e |-> "arr"], [e |-> "items", v |-> v.k], [e |-> "end"]>>
            ELSE <<[e |-> "prim", v |-> v]>>
Write(c, k) ==
    LET id == 10 * (n + 1) + c
        v == Value(k)
    IN  /\ Step(<<[e |-> "ind", c |-> c, id |-> id]>> \o Calls(v))
        /\ cont' = [cont EXCEPT ![c].objs = Append(@, [id |-> id, v |-> v]),
                                ![c].lim = LimMerge(@, LimMerge(LimOf(v), [Lim0 EXCEPT !.ids = id]))]
        /\ UNCHANGED stack
Next ==
    \/ \E c \in 1..Chunks: Write(c, n + c)
    \/ \E d, s \in 1..Chunks: d # s /\
        \/ Extend(d, s) /\ Step(<<[e |-> "ext", d |-> d, s |-> s]>>)
        \/ Clone(d, s) /\ Step(<<[e |-> "clone", d |-> d, s |-> s]>>)
        \/ MergeLimits(d, s) /\ Step(<<[e |-> "mlim", d |-> d, s |-> s]>>)
        \/ RenumberInto(d, s, [i \in Numbers(cont[s].objs) |-> i + 9])
           /\ Step(<<[e |-> "ren", d |-> d, s |-> s, fresh |-> FALSE, plus |-> 9]>>)
        \/ RenumberNew(d, s, [i \in Numbers(cont[s].objs) |-> i + 9])
           /\ Step(<<[e |-> "ren", d |-> d, s |-> s, fresh |-> TRUE, plus |-> 9]>>)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Nothing is lost or made up: every object was written or renumbered.
LimitsAreMaxima == \A c \in 1..Chunks: \A i \in 1..Len(cont[c].objs):
    LimMerge(cont[c].lim, LimOf(cont[c].objs[i].v)) = cont[c].lim
\* A step changes at most one chunk.
Isolated == [][Cardinality({c \in 1..Chunks: cont'[c] # cont[c]}) <= 1]_vars
\* The design writes what each chunk has.
DesignBodies == \A c \in 1..Chunks: \A x \in {SerObjs(cont[c].objs, c % 2 = 0, 1, <<>>, <<>>).x}:
    ObjectsAre(cont[c].objs, x, 1, Len(x) + 1)
Program == hist \o [i \in 1..Chunks |-> [e |-> "obs", c |-> i]]
Print_ == (n = MaxOps /\ Dump) => PrintT(<<"PROGRAM", ToJson(Program)>>)
=============================================================================
