------------------------------- MODULE ApiBase -------------------------------
(***************************************************************************)
(* The tables of typed writers.  A writer type is described by             *)
(*   t    what it writes: "dict", "array", "stream", or "slot" for one     *)
(*        whose calls determine it                                         *)
(*   init the entries (or items) that it begins with                       *)
(*   set  method |-> the key of the entry that it writes; "*" if the       *)
(*        method is described by `Special` in PdfApi                       *)
(*   sub  method |-> <<key, type of the nested writer>>                    *)
(* Types of nested writers are those of the tables, and "A", "T" (array    *)
(* and dictionary of primitives), "A:X", "T:X" (of X), "Obj".              *)
(***************************************************************************)
EXTENDS PdfValues

W(t, init, set, sub) == [t |-> t, init |-> init, set |-> set, sub |-> sub]
NoSet == [none |-> ""]
NoSub == [none |-> <<>>]
=============================================================================
