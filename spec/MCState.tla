------------------------------- MODULE MCState -------------------------------
(***************************************************************************)
(* The nesting depth of graphics states: every sequence of saves, restores *)
(* and other operations up to a length.                                    *)
(***************************************************************************)
EXTENDS PdfApi, Json

CONSTANTS MaxOps, Dump

VARIABLE hist
vars == <<cont, stack, hist>>

Init == /\ cont = <<[NoCont EXCEPT !.kind = "content"]>> /\ stack = <<>>
        /\ hist = <<[e |-> "new", c |-> 1, kind |-> "content", pretty |-> TRUE]>>
Next == /\ Len(hist) <= MaxOps
        /\ \E m \in {"save_state", "restore_state", "end_path"}:
             ContentMethod(1, m, <<>>, TRUE) /\ hist' = Append(hist, [e |-> "cop", c |-> 1, m |-> m])
Spec == Init /\ [][Next]_vars

\* The depth, from the sequence of operators as a whole: how many saves are
\* not matched by a later restore (restores without a save match nothing).
Kinds == [i \in 1..(Len(hist) - 1) |-> hist[i + 1].m]
Delta(m) == IF m = "save_state" THEN 1 ELSE IF m = "restore_state" THEN -1 ELSE 0
Sum(i, j) == LET s[k \in (i - 1)..j] == IF k = i - 1 THEN 0 ELSE s[k - 1] + Delta(Kinds[k]) IN s[j]
\* = max over suffixes of their balance
DepthIsOpenSaves == LET n == Len(Kinds) IN
    cont[1].q = LET S == {Sum(i, n): i \in 1..n} \cup {0} IN CHOOSE x \in S: \A y \in S: y <= x
AllWritten == Len(cont[1].ops) = Len(Kinds)
\* Repeating a step is the same as many steps.
RepeatIsSteps == \A q \in 0..MaxOps, n \in 1..MaxOps, m \in {"save_state", "restore_state", "end_path"}:
    DepthN(q, m, n) = DepthN(Depth(q, m), m, n - 1) /\ DepthN(q, m, 0) = q
NeverNegative == cont[1].q >= 0
Print_ == (Dump /\ Len(hist) = MaxOps + 1) => PrintT(<<"PROGRAM", ToJson(hist)>>)
=============================================================================
