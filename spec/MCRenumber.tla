----------------------------- MODULE MCRenumber -----------------------------
(***************************************************************************)
(* Renumbering: one or two objects made of values that are or resemble     *)
(* references and object boundaries, under every mapping of their numbers. *)
(***************************************************************************)
EXTENDS PdfSerial, Json

CONSTANTS Targets, Dump

VARIABLES hist, phase
vars == <<cont, stack, hist, phase>>

Nums == <<1, 2, 10>>
\* `1 0 R`, `1 0 obj`, `endobj` and the like, as what they are and as content.
Fake == <<49, 32, 48, 32, 82>>
FakeObj == <<10, 101, 110, 100, 111, 98, 106, 10, 49, 32, 48, 32, 111, 98, 106, 10>>
Values == {
    Arr(<<RefV(1), RefV(2)>>), Arr(<<RefV(10), RefV(1), RefV(10)>>),
    Arr(<<IntV(1), IntV(0), RefV(2)>>), Arr(<<IntV(1), IntV(0), NameB(<<82>>), RefV(1)>>),
    Arr(<<IntV(2), RefV(1), IntV(0)>>), Arr(<<StrB(Fake), RefV(2)>>),
    Arr(<<StrB(<<40>>), RefV(1), StrB(<<41>>)>>), Arr(<<StrB(<<41, 92>>), RefV(2), StrB(<<92>>)>>),
    Arr(<<StrB(FakeObj), RefV(1)>>),
    Dct(<<Ent(<<82>>, RefV(1)), Ent(Fake, RefV(2)), Ent(<<>>, IntV(10))>>),
    Dct(<<Ent(<<49>>, NameB(Fake)), Ent(<<65>>, Arr(<<RefV(2)>>))>>),
    V("stream", Fake, <<Dct(<<Ent(<<65>>, RefV(1))>>)>>),
    V("stream", FakeObj, <<Dct(<<>>)>>),
    Arr(<<IntV(5), RefV(1), IntV(3)>>), Arr(<<NameB(kwStream), RefV(2)>>),
    Arr(<<StrB(<<200>>), RefV(1), StrB(<<92, 40>>)>>), Dct(<<Ent(<<65>>, Dct(<<>>)), Ent(kwStream, RefV(1))>>),
    RefV(1), IntV(1)}

\* The calls that write v into a slot.
RECURSIVE Calls(_)
Calls(v) ==
    IF v.t = "array"
    THEN <<[e |-> "arr"], [e |-> "items", v |-> v.k], [e |-> "end"]>>
    ELSE IF v.t = "dict"
    THEN <<[e |-> "dict"]>>
         \o Concat([i \in 1..Len(v.k) |-> <<[e |-> "ins", key |-> v.k[i].b]>> \o Calls(v.k[i].k[1])], 1, <<>>)
         \o <<[e |-> "end"]>>
    ELSE <<[e |-> "prim", v |-> v]>>
CallsFor(id, v) ==
    IF v.t = "stream"
    THEN <<[e |-> "strm", c |-> 1, id |-> id, x |-> v.b]>>
         \o (IF v.k[1].k = <<>> THEN <<>> ELSE <<[e |-> "pairs", v |-> v.k[1].k]>>) \o <<[e |-> "end"]>>
    ELSE <<[e |-> "ind", c |-> 1, id |-> id]>> \o Calls(v)

Init ==
    /\ cont = <<[NoCont EXCEPT !.kind = "chunk"]>> /\ stack = <<>> /\ phase = 0
    /\ hist = <<[e |-> "new", c |-> 1, kind |-> "chunk", pretty |-> FALSE]>>

\* The machine's steps for one object, composed.
Write(id, v) ==
    /\ phase < 2
    /\ phase' = phase + 1
    /\ cont' = [cont EXCEPT ![1].objs = Append(@, [id |-> id, v |-> v]),
                            ![1].lim = LimMerge(@, LimMerge(LimOf(v), [Lim0 EXCEPT !.ids = id]))]
    /\ UNCHANGED stack
    /\ hist' = hist \o CallsFor(id, v)

Map(f) ==
    /\ phase \in 1..2
    /\ phase' = 3
    /\ RenumberNew(2, 1, f)
    /\ hist' = hist \o <<[e |-> "ren", d |-> 2, s |-> 1, fresh |-> TRUE,
                          m |-> LET D == SelectSeq(Nums, LAMBDA i: i \in DOMAIN f)
                                IN  [i \in 1..Len(D) |-> <<D[i], f[D[i]]>>]],
                         [e |-> "obs", c |-> 1], [e |-> "obs", c |-> 2]>>

Next ==
    \/ phase = 0 /\ \E id \in {1, 10}, v \in Values: Write(id, v)
    \/ phase = 1 /\ Write(2, Dct(<<Ent(<<65>>, RefV(10))>>))
    \/ \E f \in [Numbers(cont[1].objs) -> Targets]: Map(f)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
PairMap_(m) == [x \in {m[i][1]: i \in 1..Len(m)} |-> m[CHOOSE i \in 1..Len(m): m[i][1] = x][2]]
\* The design: renumbering in the bytes is renumbering of the values.
DesignRenumber == phase = 3 => \A x \in {SerObjs(cont[2].objs, FALSE, 1, <<>>, <<>>).x}:
    ObjectsAre(cont[2].objs, x, 1, Len(x) + 1)
\* The design: the scanner turns the bytes of each object into those of its
\* image, in either style.
DesignScan == phase = 3 =>
    LET f == PairMap_(hist[Len(hist) - 2].m) IN
    \A i \in 1..Len(cont[1].objs): \A p \in {FALSE, TRUE}:
        Scanned(Ser(cont[1].objs[i].v, p, 0), f) = Ser(cont[2].objs[i].v, p, 0)
\* Only numbers change, each to its image, and the source stays.
RECURSIVE Erase(_)
Erase(v) == IF v.t = "ref" THEN N("ref") ELSE [v EXCEPT !.k = [i \in 1..Len(v.k) |-> Erase(v.k[i])]]
OnlyNumbers == phase = 3 =>
    /\ Len(cont[2].objs) = Len(cont[1].objs)
    /\ \A i \in 1..Len(cont[1].objs): Erase(cont[2].objs[i].v) = Erase(cont[1].objs[i].v)
    /\ Numbers(cont[2].objs) \subseteq Targets
\* Mapping one to one and back gives the same again.
Invertible == phase = 3 =>
    LET f == hist[Len(hist) - 2].m
        back == [y \in {f[i][2]: i \in 1..Len(f)} |-> f[CHOOSE i \in 1..Len(f): f[i][2] = y][1]]
    IN  Cardinality(DOMAIN back) = Len(f) => RenumberObjs(cont[2].objs, back) = cont[1].objs
Print_ == (phase = 3 /\ Dump) => PrintT(<<"PROGRAM", ToJson(hist)>>)
=============================================================================
