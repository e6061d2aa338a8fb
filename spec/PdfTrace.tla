------------------------------- MODULE PdfTrace -------------------------------
(***************************************************************************)
(* Conformance: recorded executions of pdf-writer against the machine.     *)
(*                                                                         *)
(* Each line of the trace file is one execution: the API calls in order,   *)
(* and observations of what the library produced.  Every call is one       *)
(* action of the machine; an execution that the machine cannot follow      *)
(* (a panic where none is due, a count that is wrong) deadlocks.  What was *)
(* observed is judged by invariants on the state after the observation.    *)
(***************************************************************************)
EXTENDS PdfApi, PdfJudge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    tr,     \* which execution
    l       \* how many of its events have happened

vars == <<cont, stack, tr, l>>
View == <<tr, l>>
Short == [tr |-> tr, l |-> l]

Ev(t, i) == Traces[t].ev[i]
Cur == Ev(tr, l)
IsCur(e) == l > 0 /\ Cur.e = e

TInit == WInit /\ tr \in 1..Len(Traces) /\ l = 0

PairMap(m) == [x \in {m[i][1]: i \in 1..Len(m)} |-> m[CHOOSE i \in 1..Len(m): m[i][1] = x][2]]

Step(ev) ==
    CASE ev.e = "new" -> NewCont(ev.c, ev.kind)
      [] ev.e = "ind" -> BeginInd(ev.c, ev.id)
      [] ev.e = "strm" -> BeginStream(ev.c, ev.id, ev.x)
      [] ev.e = "prim" -> Prim(ev.v)
      [] ev.e = "arr" -> Open("array")
      [] ev.e = "dict" -> Open("dict")
      [] ev.e = "items" -> Items_(ev.v)
      [] ev.e = "pairs" -> Pairs(ev.v)
      [] ev.e = "push" -> Push
      [] ev.e = "ins" -> Insert(ev.key)
      [] ev.e = "end" -> IF Top.t = "op" THEN EndOp ELSE Close
      [] ev.e = "len" -> WriterLen(ev.n) /\ ev.z = (ev.n = 0)
      [] ev.e = "ext" -> Extend(ev.d, ev.s)
      [] ev.e = "clone" -> Clone(ev.d, ev.s)
      [] ev.e = "mlim" -> MergeLimits(ev.d, ev.s)
      [] ev.e = "ren" -> IF ev.fresh THEN RenumberNew(ev.d, ev.s, PairMap(ev.m))
                         ELSE RenumberInto(ev.d, ev.s, PairMap(ev.m))
      [] ev.e = "ver" -> SetVersion(ev.c, ev.a, ev.b)
      [] ev.e = "mark" -> SetMarker(ev.c, ev.x)
      [] ev.e = "fid" -> SetFileId(ev.c, ev.a, ev.b)
      [] ev.e = "cat" -> BeginRegistered(ev.c, ev.id, "catalog")
      [] ev.e = "info" -> BeginRegistered(ev.c, ev.id, "info")
      [] ev.e \in {"obs", "twin"} -> stack = <<>> /\ UNCHANGED wvars
      [] ev.e = "start" -> StartW(ev.w)
      [] ev.e = "chk" -> ChunkMethod(ev.c, ev.m, ev.id, ev.x)
      [] ev.e = "m" -> Method(ev.m, ev.a, ev.ok) \/ (~ev.ok /\ SubRefused(ev.m, ev.a))
      [] ev.e = "sub" -> SubW(ev.m, ev.a)
      [] ev.e = "tpush" -> TPush
      [] ev.e = "tins" -> TInsert(ev.key)
      [] ev.e = "conv" -> Convert(ev.m, ev.a)
      [] ev.e = "fill" -> Fill(ev.m, ev.a)
      [] ev.e = "crep" -> ContentRepeat(ev.c, ev.m, ev.n)
      [] ev.e = "cop" -> ContentMethod(ev.c, ev.m, ev.a, ev.ok)
      [] ev.e = "bop" -> BeginOp(ev.c, ev.op)
      [] ev.e = "opnd" -> Operands(ev.v)
      [] ev.e = "oobj" -> OperandObj
      [] ev.e = "qd" -> cont[ev.c].q = ev.n /\ UNCHANGED wvars
      [] ev.e \in {"cobs", "cfin", "ctwin"} -> stack = <<>> /\ UNCHANGED wvars
      [] ev.e = "cmap" -> CmapStart(ev.c, ev)
      [] ev.e = "cpair" -> CmapPair(ev.c, ev.g, ev.x)
      [] ev.e = "cmfin" -> stack = <<>> /\ UNCHANGED wvars
      [] ev.e \in {"psenc", "fn"} -> UNCHANGED wvars
      [] ev.e = "fin" -> IF ev.ok THEN FinishOk(ev.c, ev.xid) ELSE FinishPanics(ev.c, ev.xid)
      [] OTHER -> FALSE

TNext ==
    \/ /\ l < Len(Traces[tr].ev)
       /\ l' = l + 1
       /\ tr' = tr
       /\ Step(Ev(tr, l + 1))
    \/ /\ l = Len(Traces[tr].ev)
       /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_vars

----------------------------------------------------------------------------
(* Observations of a chunk.                                                *)

Objects == IsCur("obs") => ObjectsAre(cont[Cur.c].objs, Cur.x, 1, Len(Cur.x) + 1)

\* The chunk reports its size and the numbers of its objects.
RefsReported == IsCur("obs") =>
    /\ Cur.n = Len(Cur.x)
    /\ Cur.refs = [i \in 1..Len(cont[Cur.c].objs) |-> cont[Cur.c].objs[i].id]
    /\ Cur.nrefs = Len(Cur.refs)

\* The chunk reports the maxima over its objects.
LimitsReported == IsCur("obs") =>
    \/ \E i \in 1..Len(cont[Cur.c].objs): IsApprox(cont[Cur.c].objs[i].v)
    \/ LimAgree(cont[Cur.c].lim, Cur.lim)

----------------------------------------------------------------------------
(* Observations of a content stream.                                       *)

OpsAre(ops, x) ==
    LET p == Ops(x, 1, <<>>) IN
    /\ p.ok
    /\ Len(p.ops) = Len(ops)
    /\ \A i \in 1..Len(ops):
         /\ p.ops[i].op = ops[i].op
         /\ Len(p.ops[i].args) = Len(ops[i].args)
         /\ \A j \in 1..Len(ops[i].args): Matches(ops[i].args[j], p.ops[i].args[j])

\* Its bytes are the requested operations, in order.
Operations == IsCur("cobs") \/ IsCur("cfin") =>
    Cur.n = Len(Cur.x) /\ OpsAre(cont[Cur.c].ops, Cur.x)

ContentLimits == IsCur("cfin") => LimAgree(cont[Cur.c].lim, Cur.lim)

ContentStylesAgree == IsCur("ctwin") =>
    /\ LET p == Ops(Cur.x.x, 1, <<>>) IN p.ok /\ p.ops = Ops(Cur.y.x, 1, <<>>).ops
    /\ Cur.x.lim = Cur.y.lim
    /\ OpsAre(cont[Cur.x.c].ops, Cur.x.x)

ContentDeterministic == IsCur("ctwin") => Cur.x.x = Cur.y.x /\ Cur.x.lim = Cur.y.lim

----------------------------------------------------------------------------
(* Character maps, calculator functions, functions on plain values.        *)

CharacterMap == IsCur("cmfin") => CmapIs(cont[Cur.c].head, cont[Cur.c].ops, Cur.x)

Calculator == IsCur("psenc") =>
    LET p == PsProgram(Cur.x) IN ~IsErr(p) /\ PsMatch(Cur.v, 1, p.v.k, 1)

Functions_ == IsCur("fn") => Cur.r = Result(Cur.f, Cur.a)

----------------------------------------------------------------------------
(* Two chunks side by side, made by the same calls.                        *)

\* In different styles: the same objects, numbers and limits.
Objs(x) ==
    LET ps == Body(x, 1, Len(x) + 1, <<>>)
    IN  [i \in 1..Len(ps) |-> [ok |-> ps[i].ok, id |-> ps[i].id, gen |-> ps[i].gen, v |-> ps[i].v]]
StylesAgree == IsCur("twin") =>
    /\ LET ps == Objs(Cur.x.x) IN ps = Objs(Cur.y.x) /\ \A i \in 1..Len(ps): ps[i].ok
    /\ Cur.x.refs = Cur.y.refs
    /\ Cur.x.lim = Cur.y.lim
    /\ ObjectsAre(cont[Cur.x.c].objs, Cur.x.x, 1, Len(Cur.x.x) + 1)

\* In the same style: the same bytes.
Deterministic == IsCur("twin") =>
    /\ Cur.x.x = Cur.y.x
    /\ Cur.x.refs = Cur.y.refs
    /\ Cur.x.lim = Cur.y.lim

----------------------------------------------------------------------------
(* Observations of a finished file.                                        *)

IsFile == IsCur("fin") /\ Cur.ok
C == cont[Cur.c]
XrefTableFinds == (IsFile /\ Cur.mode = 0) => XrefFinds(C, Cur)
XrefStreamFinds == (IsFile /\ Cur.mode # 0) => XrefFinds(C, Cur)
FreeList == IsFile => FreeListFor(C, Cur)
XrefFilters == (IsFile /\ Cur.mode # 0) => XrefFiltersFor(C, Cur)
Trailer == IsFile => TrailerFor(C, Cur)
FileHeader == IsFile => FileHeaderFor(C, Cur)
FileBody == IsFile => FileBodyFor(C, Cur)
=============================================================================
