------------------------------- MODULE MCXref -------------------------------
(***************************************************************************)
(* The algorithm that turns the (sorted) object numbers and offsets into   *)
(* cross-reference entries, step by step as the library does it: fill the  *)
(* gap before each object with free entries, linking each to the next free *)
(* number, then write the entry of the object.                             *)
(***************************************************************************)
EXTENDS PdfSerial

CONSTANTS MaxNum, MaxObjs

VARIABLES
    offs,   \* <<number, offset>>, sorted
    i,      \* the object at hand
    out,    \* entries so far
    pc      \* "fill", "done" or "panic"
vars == <<cont, stack, offs, i, out, pc>>

Sorted(s) == \A j, k \in 1..Len(s): j < k => s[j][1] <= s[k][1]
Init ==
    /\ WInit
    /\ \E n \in 0..MaxObjs: \E ids \in [1..n -> 1..MaxNum]:
         offs = [j \in 1..n |-> <<ids[j], 1000 + j>>]
    /\ Sorted(offs)
    /\ i = 1 /\ out = <<>> /\ pc = "fill"

Top_ == IF offs = <<>> THEN 0 ELSE offs[Len(offs)][1]
XrefLen == 1 + Top_
Written == Len(out)

\* The first number after `next` that no object from j on has.
RECURSIVE Skip(_, _)
Skip(j, next) == IF j > Len(offs) \/ next < offs[j][1] THEN next ELSE Skip(j + 1, offs[j][1] + 1)

Free(id, next) == Append(out, [id |-> id, used |-> FALSE,
                               a |-> next % XrefLen, g |-> IF id = 0 THEN 65535 ELSE 0])
Fill ==
    /\ pc = "fill" /\ i <= Len(offs) /\ Written < offs[i][1]
    /\ out' = Free(Written, IF Written + 1 = offs[i][1] THEN Skip(i, Written + 1) ELSE Written + 1)
    /\ UNCHANGED <<offs, i, pc>>
Use ==
    /\ pc = "fill" /\ i <= Len(offs) /\ Written = offs[i][1]
    /\ out' = Append(out, [id |-> Written, used |-> TRUE, a |-> offs[i][2], g |-> 0])
    /\ i' = i + 1
    /\ UNCHANGED <<offs, pc>>
Panic == pc = "fill" /\ i <= Len(offs) /\ Written > offs[i][1] /\ pc' = "panic" /\ UNCHANGED <<offs, i, out>>
Empty == pc = "fill" /\ offs = <<>> /\ out = <<>> /\ out' = Free(0, 0) /\ UNCHANGED <<offs, i, pc>>
Done_ == pc = "fill" /\ i > Len(offs) /\ out # <<>> /\ pc' = "done" /\ UNCHANGED <<offs, i, out>>
Next == (Fill \/ Use \/ Panic \/ Empty \/ Done_) /\ UNCHANGED wvars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
InOrder == \A k \in 1..Len(out): out[k].id = k - 1
\* Free entries link forward, or back to 0 from the last.
Forward == \A k \in 1..Len(out): ~out[k].used => out[k].a = 0 \/ out[k].a > out[k].id
Total == pc = "done" => EntriesTotal(out, XrefLen)
FreeList == pc = "done" => FreeListOk(out)
UsedExactly == pc = "done" =>
    {<<out[k].id, out[k].a>>: k \in {k \in 1..Len(out): out[k].used}} = {offs[k]: k \in 1..Len(offs)}
Duplicates == Cardinality({offs[k][1]: k \in 1..Len(offs)}) # Len(offs)
PanicsIffDuplicate == (pc = "panic" => Duplicates) /\ (pc = "done" => ~Duplicates)
\* It refines the description in one step.
Refines == pc = "done" => out = EntriesOf([id \in {offs[k][1]: k \in 1..Len(offs)} |->
    offs[CHOOSE k \in 1..Len(offs): offs[k][1] = id][2]])
Terminates == <>(pc \in {"done", "panic"})
=============================================================================
