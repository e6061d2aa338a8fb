------------------------------ MODULE MCStrings ------------------------------
(***************************************************************************)
(* All short byte strings over the bytes that matter, as strings and as    *)
(* names: one state per prefix, with all continuations of up to two bytes. *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS MaxPrefix, Dump

VARIABLE p
Alphabet == {40, 41, 92, 10, 13, 48, 97, 35, 128, 1}

Init == p = <<>> /\ WInit
Next == Len(p) < MaxPrefix /\ \E c \in Alphabet: p' = Append(p, c) /\ UNCHANGED wvars
Spec == Init /\ [][Next]_<<p, cont, stack>>

\* As a sequence.
AlphaSeq == <<40, 41, 92, 10, 13, 48, 97, 35, 128, 1>>
All == <<p>> \o [i \in 1..10 |-> Append(p, AlphaSeq[i])]
       \o [i \in 1..100 |-> p \o <<AlphaSeq[((i - 1) \div 10) + 1], AlphaSeq[((i - 1) % 10) + 1]>>]

DesignStrings == \A i \in 1..Len(All): LET x == SerStr(All[i]) IN
    Val(x, 1, TRUE) = R(StrB(All[i]), Len(x) + 1)
DesignNames == \A i \in 1..Len(All): LET x == SerName(All[i]) IN
    Val(x, 1, TRUE) = R(NameB(All[i]), Len(x) + 1)

Program(pretty) ==
    <<[e |-> "new", c |-> 1, kind |-> "chunk", pretty |-> pretty], [e |-> "ind", c |-> 1, id |-> 1],
      [e |-> "arr"], [e |-> "items", v |-> [i \in 1..Len(All) |-> StrB(All[i])]], [e |-> "end"],
      [e |-> "ind", c |-> 1, id |-> 2], [e |-> "arr"],
      [e |-> "items", v |-> [i \in 1..Len(All) |-> NameB(All[i])]], [e |-> "end"],
      [e |-> "obs", c |-> 1]>>
Print_ == Dump => PrintT(<<"PROGRAM", ToJson(Program(Len(p) % 2 = 0))>>)
=============================================================================
