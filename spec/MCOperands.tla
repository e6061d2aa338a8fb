----------------------------- MODULE MCOperands -----------------------------
(***************************************************************************)
(* Raw operations: every short sequence of operands whose forms could run  *)
(* together with each other, with the operator or with the next operation. *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS MaxOperands, Dump

VARIABLES hist, n
vars == <<cont, stack, hist, n>>

Atoms == {N("null"), Bool(FALSE), IntV(0), IntV(-5), NameB(<<>>), NameB(<<65>>), NameB(<<41>>),
          StrB(<<>>), StrB(<<40>>), StrB(<<200>>)}
Operators == {<<113>>, <<84, 42>>, <<39>>}

Init == /\ cont = <<[NoCont EXCEPT !.kind = "content"]>> /\ stack = <<>> /\ n = 0
        /\ hist = <<[e |-> "new", c |-> 1, kind |-> "content", pretty |-> FALSE]>>
Log(e) == hist' = Append(hist, e)
Next ==
    \/ n < 2 /\ stack = <<>> /\ n' = n + 1
       /\ \E op \in IF n = 0 THEN Operators ELSE {<<100, 48>>}:
            BeginOp(1, op) /\ Log([e |-> "bop", c |-> 1, op |-> op])
    \/ stack # <<>> /\ Len(Top.k) < (IF n = 1 THEN MaxOperands ELSE 1) /\ UNCHANGED n
       /\ \E v \in Atoms: Operands(<<v>>) /\ Log([e |-> "opnd", v |-> <<v>>])
    \/ stack # <<>> /\ EndOp /\ UNCHANGED n /\ Log([e |-> "end"])
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Line(o) == LET ps == [i \in 1..(Len(o.args) + 1) |-> IF i > Len(o.args) THEN o.op ELSE Ser(o.args[i], FALSE, 0)]
           IN  GlueAll(ps, 1, <<>>) \o Nl
DesignOperations == stack = <<>> =>
    \A x \in {Concat([i \in 1..Len(cont[1].ops) |-> Line(cont[1].ops[i])], 1, <<>>)}:
    LET p == Ops(x, 1, <<>>) IN
    p.ok /\ Len(p.ops) = Len(cont[1].ops) /\
    \A i \in 1..Len(p.ops): p.ops[i].op = cont[1].ops[i].op /\ Len(p.ops[i].args) = Len(cont[1].ops[i].args) /\
        \A j \in 1..Len(p.ops[i].args): Matches(cont[1].ops[i].args[j], p.ops[i].args[j])
Print_ == (Dump /\ n = 2 /\ stack = <<>>) => PrintT(<<"PROGRAM", ToJson(hist)>>)
=============================================================================
