------------------------------ MODULE PdfWriter ------------------------------
(***************************************************************************)
(* The abstract machine behind the pdf-writer API.                         *)
(*                                                                         *)
(* State: a set of containers (chunks, documents, content streams), each   *)
(* with the indirect objects or operations completed so far, and the stack *)
(* of open writers.  One action per API call.  The machine knows nothing   *)
(* about bytes: an object is the value that the user described.            *)
(*                                                                         *)
(* A frame of the stack is an open writer:                                 *)
(*   t    "slot" (an `Obj`, nothing written yet), "array", "dict",         *)
(*        "stream" or "op"                                                 *)
(*   w    the API type of the writer, for typed writers                    *)
(*   to   where the finished value goes: "ind" (an indirect object of the  *)
(*        container `c` with number `id`), "item", "ent" (under `key`),    *)
(*        "arg" (operand of the operation below)                           *)
(*   k,b  the value so far, as in PdfValues                                *)
(***************************************************************************)
EXTENDS PdfFile

VARIABLES
    cont,   \* sequence of containers
    stack   \* sequence of frames, the innermost writer last

wvars == <<cont, stack>>

NoCont == [kind |-> "none", objs |-> <<>>, ops |-> <<>>, lim |-> Lim0, q |-> 0, qmax |-> 0,
           root |-> 0, info |-> 0, fid |-> <<>>, major |-> 1, minor |-> 7,
           marker |-> <<128, 128, 128, 128>>, head |-> <<>>]

Top == stack[Len(stack)]
Below(s) == SubSeq(s, 1, Len(s) - 1)

Frame(t, w, to, key) ==
    [t |-> t, w |-> w, to |-> to, key |-> key, c |-> 0, id |-> 0, b |-> <<>>, k |-> <<>>]
IndFrame(t, w, c, id, b) ==
    [Frame(t, w, "ind", <<>>) EXCEPT !.c = c, !.id = id, !.b = b]

\* The value of a finished frame.
ValueOf(f) == IF f.t = "stream" THEN V("stream", f.b, <<Dct(f.k)>>) ELSE V(f.t, f.b, f.k)

\* The finished value v of the innermost frame f goes to its destination.
\* Requires Len(stack) >= 1; f need not be on the stack as it is.
Deliver(f, v) ==
    IF f.to = "ind"
    THEN /\ cont' = [cont EXCEPT ![f.c].objs = Append(@, [id |-> f.id, v |-> v]),
                                 ![f.c].lim = LimMerge(@, LimMerge(LimOf(v),
                                        [Lim0 EXCEPT !.ids = f.id]))]
         /\ stack' = Below(stack)
    ELSE LET s == Below(stack)
             n == Len(s)
             item == IF f.to = "ent" THEN Ent(f.key, v) ELSE v
         IN  /\ stack' = [s EXCEPT ![n].k = Append(@, item)]
             /\ UNCHANGED cont

----------------------------------------------------------------------------
WInit == cont = <<>> /\ stack = <<>>

\* Chunk::new, Pdf::new, Content::new and friends.
NewCont(c, kind) ==
    /\ stack = <<>>
    /\ c = Len(cont) + 1 \/ c <= Len(cont)
    /\ cont' = IF c = Len(cont) + 1 THEN Append(cont, [NoCont EXCEPT !.kind = kind])
               ELSE [cont EXCEPT ![c] = [NoCont EXCEPT !.kind = kind]]
    /\ UNCHANGED stack

\* Chunk::indirect
BeginInd(c, id) ==
    /\ stack = <<>>
    /\ id > 0
    /\ stack' = <<IndFrame("slot", "", c, id, <<>>)>>
    /\ UNCHANGED cont

\* Chunk::stream
BeginStream(c, id, data) ==
    /\ stack = <<>>
    /\ id > 0
    /\ stack' = <<IndFrame("stream", "Stream", c, id, data)>>
    /\ UNCHANGED cont

\* Obj::primitive
Prim(v) == stack # <<>> /\ Top.t = "slot" /\ Deliver(Top, v)

\* Obj::array, Obj::dict: the slot becomes an open array or dictionary.
Open(t) ==
    /\ stack # <<>> /\ Top.t = "slot"
    /\ stack' = [stack EXCEPT ![Len(stack)].t = t]
    /\ UNCHANGED cont

\* Array::item(s)
Items_(vs) ==
    /\ stack # <<>> /\ Top.t = "array"
    /\ stack' = [stack EXCEPT ![Len(stack)].k = @ \o vs]
    /\ UNCHANGED cont

IsDictLike(f) == f.t \in {"dict", "stream"}

\* Dict::pair(s)
Pairs(es) ==
    /\ stack # <<>> /\ IsDictLike(Top)
    /\ stack' = [stack EXCEPT ![Len(stack)].k = @ \o es]
    /\ UNCHANGED cont

\* Array::push
Push ==
    /\ stack # <<>> /\ Top.t = "array"
    /\ stack' = Append(stack, Frame("slot", "", "item", <<>>))
    /\ UNCHANGED cont

\* Dict::insert
Insert(key) ==
    /\ stack # <<>> /\ IsDictLike(Top)
    /\ stack' = Append(stack, Frame("slot", "", "ent", key))
    /\ UNCHANGED cont

\* A writer goes out of scope (or is finished).
Close ==
    /\ stack # <<>> /\ Top.t \in {"array", "dict", "stream"}
    /\ Deliver(Top, ValueOf(Top))

\* Array::len, Dict::len
WriterLen(n) == stack # <<>> /\ Len(Top.k) + (IF Top.t = "stream" THEN 1 ELSE 0) = n
                /\ UNCHANGED wvars

----------------------------------------------------------------------------
(* Content streams.                                                        *)
BeginOp(c, op) ==
    /\ stack = <<>>
    /\ stack' = <<[Frame("op", "", "op", op) EXCEPT !.c = c]>>
    /\ UNCHANGED cont
Operands(vs) ==
    /\ stack # <<>> /\ Top.t = "op"
    /\ stack' = [stack EXCEPT ![Len(stack)].k = @ \o vs]
    /\ UNCHANGED cont
OperandObj ==
    /\ stack # <<>> /\ Top.t = "op"
    /\ stack' = Append(stack, Frame("slot", "", "arg", <<>>))
    /\ UNCHANGED cont

LimOfOps(ops) == LimOfSeq([i \in 1..Len(ops) |-> V("op", <<>>, ops[i].args)], 1, Lim0)
AddOps(ct, ops) ==
    [ct EXCEPT !.ops = @ \o ops, !.lim = LimMerge(@, LimOfOps(ops))]

EndOp ==
    /\ stack # <<>> /\ Top.t = "op"
    /\ cont' = [cont EXCEPT ![Top.c] = AddOps(@, <<[op |-> Top.key, args |-> Top.k]>>)]
    /\ stack' = <<>>
=============================================================================
