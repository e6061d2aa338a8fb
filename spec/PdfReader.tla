------------------------------ MODULE PdfReader ------------------------------
(***************************************************************************)
(* A reader for PDF syntax (ISO 32000-1, 7.2, 7.3, 7.5 and 7.8.2), written *)
(* from the standard and independent of how pdf-writer writes.  It is the  *)
(* observer of every conformance check: what a sequence of API calls means *)
(* is what this reader finds in the bytes they produced.                   *)
(*                                                                         *)
(* Bytes are sequences over 0..255; positions are 1-based.  All values     *)
(* have the same shape, [t |-> tag, b |-> Seq(Int), k |-> Seq(value)]:     *)
(*   null                                                                  *)
(*   bool    b = <<0>> or <<1>>                                            *)
(*   num     b = <<neg, real, scale, d1, ..., dn>>: (-1)^neg * 0.d * ...   *)
(*           the digits without leading zeros, times 10^-scale; `real` is  *)
(*           1 iff the token had a decimal point                           *)
(*   name, str, kw   b = the decoded bytes                                 *)
(*   ref     b = <<id, gen>>                                               *)
(*   array   k = the items                                                 *)
(*   dict    k = the entries [t |-> "ent", b |-> key, k |-> <<value>>]     *)
(*   stream  k = <<dict>>, b = the data                                    *)
(*   err     b = <<position>>                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

V(t, b, k) == [t |-> t, b |-> b, k |-> k]
R(v, p) == [v |-> v, p |-> p]
Err(p) == R(V("err", <<p>>, <<>>), p)
IsErr(r) == r.v.t = "err"

----------------------------------------------------------------------------
(* Characters (7.2.2).  0: regular, 1: white space, 2: delimiter.          *)

Cls == [c \in 0..255 |->
    IF c \in {0, 9, 10, 12, 13, 32} THEN 1
    ELSE IF c \in {40, 41, 60, 62, 91, 93, 123, 125, 47, 37} THEN 2
    ELSE 0]

IsDigit(c) == c >= 48 /\ c <= 57
HexVal == [c \in 0..255 |->
    IF c >= 48 /\ c <= 57 THEN c - 48
    ELSE IF c >= 65 /\ c <= 70 THEN c - 55
    ELSE IF c >= 97 /\ c <= 102 THEN c - 87
    ELSE -1]

At(b, p) == IF p >= 1 /\ p <= Len(b) THEN b[p] ELSE -1
ClsAt(b, p) == IF p >= 1 /\ p <= Len(b) THEN Cls[b[p]] ELSE 1

\* The first position from p on whose element passes, or Len(b) + 1 (looked
\* for in windows, which is only a matter of speed).
FirstIn(b, p, q, T(_)) ==
    LET k == SelectInSeq(SubSeq(b, p, q), T) IN IF k = 0 THEN 0 ELSE p + k - 1
FirstFrom(b, p, T(_)) ==
    LET n == Len(b)
        i == IF p > n THEN 0 ELSE FirstIn(b, p, IF p + 63 < n THEN p + 63 ELSE n, T)
    IN  IF i # 0 THEN i ELSE IF p + 64 > n THEN n + 1 ELSE
        LET j == FirstIn(b, p + 64, IF p + 1087 < n THEN p + 1087 ELSE n, T)
        IN  IF j # 0 THEN j ELSE IF p + 1088 > n THEN n + 1 ELSE
            LET k == FirstIn(b, p + 1088, n, T) IN IF k # 0 THEN k ELSE n + 1

\* Does `w` occur in `b` at position `p`?
IsAt(b, p, w) ==
    /\ p >= 1
    /\ p + Len(w) - 1 <= Len(b)
    /\ \A i \in 1..Len(w): b[p + i - 1] = w[i]

\* ... and is it followed by something that ends the token?
IsTokAt(b, p, w) == IsAt(b, p, w) /\ ClsAt(b, p + Len(w)) # 0

\* The end of the token; short ones are followed byte by byte.
IsEnd(c) == Cls[c] # 0
RECURSIVE RunEndIn(_, _, _)
RunEndIn(b, p, n) ==
    IF n = 0 THEN FirstFrom(b, p, IsEnd)
    ELSE IF p <= Len(b) /\ Cls[b[p]] = 0 THEN RunEndIn(b, p + 1, n - 1) ELSE p
RunEnd(b, p) == RunEndIn(b, p, 24)

IsEol(c) == c \in {10, 13}
SkipComment(b, p) == FirstFrom(b, p, IsEol)

RECURSIVE SkipWs(_, _)
SkipWs(b, p) ==
    IF p > Len(b) THEN p
    ELSE IF Cls[b[p]] = 1 THEN SkipWs(b, p + 1)
    ELSE IF b[p] = 37 THEN SkipWs(b, SkipComment(b, p + 1))
    ELSE p

\* White space only, no comments.
RECURSIVE SkipSp(_, _)
SkipSp(b, p) ==
    IF p <= Len(b) /\ Cls[b[p]] = 1 THEN SkipSp(b, p + 1) ELSE p

----------------------------------------------------------------------------
(* Numbers (7.3.3): an optional sign, digits, at most one point.           *)

RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, p) == IF p <= Len(b) /\ IsDigit(b[p]) THEN DigitsEnd(b, p + 1) ELSE p

RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d

RECURSIVE StripTrail(_, _)
StripTrail(d, s) ==
    IF s > 0 /\ d # <<>> /\ d[Len(d)] = 0
    THEN StripTrail(SubSeq(d, 1, Len(d) - 1), s - 1)
    ELSE <<s>> \o StripLead(d)

DigitVals(b, p, q) == [i \in 1..(q - p) |-> b[p + i - 1] - 48]

\* Whether the regular-character run p..q-1 is a number, and its value.
NumOf(b, p, q) ==
    LET c == b[p]
        neg == IF c = 45 THEN 1 ELSE 0
        s == IF c = 45 \/ c = 43 THEN p + 1 ELSE p
        m == DigitsEnd(b, s)
        dot == m < q /\ b[m] = 46
        e == IF dot THEN DigitsEnd(b, m + 1) ELSE m
    IN  IF e # q \/ (IF dot THEN (m - s) + (e - m - 1) ELSE m - s) = 0
        THEN V("err", <<p>>, <<>>)
        ELSE LET frac == IF dot THEN e - m - 1 ELSE 0
                 ds == IF dot
                       THEN DigitVals(b, s, m) \o DigitVals(b, m + 1, e)
                       ELSE DigitVals(b, s, m)
                 nn == StripTrail(ds, frac)
             IN  V("num", <<neg, IF dot THEN 1 ELSE 0>> \o nn, <<>>)

IsIntV(v) == v.t = "num" /\ v.b[2] = 0

\* The value of an integer token in 32 bits; folded with negative partial
\* sums so that -2^31 is representable.  Callers bound the digits.
RECURSIVE NegFold(_, _, _)
NegFold(d, i, acc) == IF i > Len(d) THEN acc ELSE NegFold(d, i + 1, acc * 10 - d[i])
FitsI32(v) ==
    \/ Len(v.b) - 3 < 10
    \/ /\ Len(v.b) - 3 = 10
       /\ LET lim == <<2, 1, 4, 7, 4, 8, 3, 6, 4, IF v.b[1] = 1 THEN 8 ELSE 7>>
              d == SubSeq(v.b, 4, 13)
          IN  d = lim \/ \E i \in 1..10: d[i] < lim[i] /\ \A j \in 1..(i-1): d[j] = lim[j]
IntVal(v) == LET n == NegFold(v.b, 4, 0) IN IF v.b[1] = 1 THEN n ELSE -n
\* A non-negative integer token that fits, else -1.
Nat32(v) == IF IsIntV(v) /\ FitsI32(v) /\ (v.b[1] = 0 \/ Len(v.b) = 3)
            THEN IntVal(v) ELSE -1

----------------------------------------------------------------------------
(* Strings (7.3.4) and names (7.3.5).                                      *)

IsOct(c) == c >= 48 /\ c <= 55
\* The first position from p on with one of the bytes that mean something.
IsStrMeta(c) == c \in {13, 40, 41, 92}
PlainEnd(b, p) == FirstFrom(b, p, IsStrMeta)
RECURSIVE LitStr(_, _, _, _)
LitStr(b, p, depth, acc) ==
    IF p > Len(b) THEN Err(p)
    ELSE LET c == b[p] IN
    CASE c = 41 -> IF depth = 0 THEN R(V("str", acc, <<>>), p + 1)
                   ELSE LitStr(b, p + 1, depth - 1, Append(acc, 41))
      [] c = 40 -> LitStr(b, p + 1, depth + 1, Append(acc, 40))
      [] c = 13 -> LitStr(b, IF At(b, p + 1) = 10 THEN p + 2 ELSE p + 1, depth,
                          Append(acc, 10))
      [] c = 92 ->
           LET e == At(b, p + 1) IN
           CASE e = 110 -> LitStr(b, p + 2, depth, Append(acc, 10))
             [] e = 114 -> LitStr(b, p + 2, depth, Append(acc, 13))
             [] e = 116 -> LitStr(b, p + 2, depth, Append(acc, 9))
             [] e = 98  -> LitStr(b, p + 2, depth, Append(acc, 8))
             [] e = 102 -> LitStr(b, p + 2, depth, Append(acc, 12))
             [] e = 10  -> LitStr(b, p + 2, depth, acc)
             [] e = 13  -> LitStr(b, IF At(b, p + 2) = 10 THEN p + 3 ELSE p + 2,
                                  depth, acc)
             [] IsOct(e) ->
                  LET e2 == At(b, p + 2)
                      e3 == At(b, p + 3)
                  IN  IF IsOct(e2)
                      THEN IF IsOct(e3)
                           THEN LitStr(b, p + 4, depth, Append(acc,
                                 ((e - 48) * 64 + (e2 - 48) * 8 + (e3 - 48)) % 256))
                           ELSE LitStr(b, p + 3, depth, Append(acc,
                                 (e - 48) * 8 + (e2 - 48)))
                      ELSE LitStr(b, p + 2, depth, Append(acc, e - 48))
             [] OTHER -> \* the solidus is ignored
                  IF e = -1 THEN Err(p) ELSE LitStr(b, p + 2, depth, Append(acc, e))
      [] OTHER -> LET q == PlainEnd(b, p) IN LitStr(b, q, depth, acc \o SubSeq(b, p, q - 1))

\* hi = -1: no pending digit.
RECURSIVE HexStrAny(_, _, _, _)
HexStrAny(b, p, hi, acc) ==
    IF p > Len(b) THEN Err(p)
    ELSE LET c == b[p] IN
    IF c = 62
    THEN R(V("str", IF hi = -1 THEN acc ELSE Append(acc, hi * 16), <<>>), p + 1)
    ELSE IF Cls[c] = 1 THEN HexStrAny(b, p + 1, hi, acc)
    ELSE IF HexVal[c] = -1 THEN Err(p)
    ELSE IF hi = -1 THEN HexStrAny(b, p + 1, HexVal[c], acc)
    ELSE HexStrAny(b, p + 1, -1, Append(acc, hi * 16 + HexVal[c]))
\* The usual form, pairs of digits and nothing else, at once.
NoHex(c) == HexVal[c] = -1
HexStr(b, p) ==
    LET q == FirstFrom(b, p, NoHex) IN
    IF At(b, q) = 62 /\ (q - p) % 2 = 0
    THEN R(V("str", [i \in 1..((q - p) \div 2) |->
                HexVal[b[p + 2 * i - 2]] * 16 + HexVal[b[p + 2 * i - 1]]], <<>>), q + 1)
    ELSE HexStrAny(b, p, -1, <<>>)

\* Decodes the `#xx` sequences of the name that spans p..q-1.
IsHash(c) == c = 35
RECURSIVE NameBytes(_, _, _, _)
NameBytes(b, p, q, acc) ==
    IF p >= q THEN acc
    ELSE IF b[p] # 35
         THEN LET k == SelectInSeq(SubSeq(b, p, q - 1), IsHash)
                  e == IF k = 0 THEN q ELSE p + k - 1
              IN  NameBytes(b, e, q, acc \o SubSeq(b, p, e - 1))
    ELSE IF p + 2 < q /\ HexVal[b[p + 1]] # -1 /\ HexVal[b[p + 2]] # -1
         THEN NameBytes(b, p + 3, q, Append(acc, HexVal[b[p+1]] * 16 + HexVal[b[p+2]]))
         ELSE <<-1>> \* a number sign must be followed by two digits
NameOf(b, p, q) ==
    LET bs == NameBytes(b, p, q, <<>>)
    IN  IF \/ \E i \in 1..Len(bs): bs[i] = -1
           \/ \E i \in p..(q - 1): b[i] < 33 \/ b[i] > 126
        THEN V("err", <<p>>, <<>>) ELSE V("name", bs, <<>>)

----------------------------------------------------------------------------
(* Objects (7.3).                                                          *)

kwTrue == <<116, 114, 117, 101>>
kwFalse == <<102, 97, 108, 115, 101>>
kwNull == <<110, 117, 108, 108>>
kwObj == <<111, 98, 106>>
kwEndobj == <<101, 110, 100, 111, 98, 106>>
kwStream == <<115, 116, 114, 101, 97, 109>>
kwEndstream == <<101, 110, 100, 115, 116, 114, 101, 97, 109>>
nLength == <<76, 101, 110, 103, 116, 104>>

\* After the unsigned integer `v` ending before p: the position just after
\* `G R` if it makes an indirect reference, else 0.
RefEnd(b, p) ==
    IF ClsAt(b, p) # 1 THEN 0
    ELSE LET s == SkipWs(b, p)
             e == DigitsEnd(b, s)
         IN  IF e = s \/ ClsAt(b, e) # 1 THEN 0
             ELSE LET r == SkipWs(b, e)
                  IN  IF At(b, r) = 82 /\ ClsAt(b, r + 1) # 0 THEN r + 1 ELSE 0
RefGen(b, p) == LET s == SkipWs(b, p) IN NumOf(b, s, DigitsEnd(b, s))

\* A keyword that is not a direct object: t = "kw" (an operator, `endobj`, ...)
RECURSIVE Val(_, _, _), Items(_, _, _, _), Entries(_, _, _, _),
          ItemsRun(_, _, _, _, _), EntriesRun(_, _, _, _, _)
Val(b, p0, refs) ==
    LET p == SkipWs(b, p0) IN
    IF p > Len(b) THEN Err(p)
    ELSE LET c == b[p] IN
    CASE c = 47 -> LET q == RunEnd(b, p + 1) IN R(NameOf(b, p + 1, q), q)
      [] c = 40 -> LitStr(b, p + 1, 0, <<>>)
      [] c = 91 -> Items(b, p + 1, <<>>, refs)
      [] c = 60 -> IF At(b, p + 1) = 60 THEN Entries(b, p + 2, <<>>, refs)
                   ELSE HexStr(b, p + 1)
      [] Cls[c] = 2 -> Err(p)
      [] OTHER ->
           LET q == RunEnd(b, p) IN
           IF IsDigit(c) \/ c = 45 \/ c = 43 \/ c = 46
           THEN LET v == NumOf(b, p, q) IN
                IF v.t = "err" THEN R(v, q)
                ELSE IF ~refs \/ ~IsDigit(c) \/ v.b[2] = 1 THEN R(v, q)
                ELSE LET re == RefEnd(b, q) IN
                     IF re = 0 THEN R(v, q)
                     ELSE R(V("ref", <<Nat32(v), Nat32(RefGen(b, q))>>, <<>>), re)
           ELSE IF IsTokAt(b, p, kwTrue) THEN R(V("bool", <<1>>, <<>>), q)
           ELSE IF IsTokAt(b, p, kwFalse) THEN R(V("bool", <<0>>, <<>>), q)
           ELSE IF IsTokAt(b, p, kwNull) THEN R(V("null", <<>>, <<>>), q)
           ELSE R(V("kw", SubSeq(b, p, q - 1), <<>>), q)

\* Up to k of the items or entries; t = "more" if there are others.
\* (In runs of limited length, which is only a matter of speed.)
ItemsRun(b, p0, acc, refs, k) ==
    LET p == SkipWs(b, p0) IN
    IF At(b, p) = 93 THEN R(V("array", <<>>, acc), p + 1)
    ELSE IF k = 0 THEN R(V("more", <<>>, acc), p)
    ELSE LET r == Val(b, p, refs) IN
         IF r.v.t \in {"err", "kw"} THEN Err(p)
         ELSE ItemsRun(b, r.p, Append(acc, r.v), refs, k - 1)

Items(b, p0, acc, refs) ==
    LET r == ItemsRun(b, p0, <<>>, refs, 64) IN
    IF r.v.t = "more" THEN Items(b, r.p, acc \o r.v.k, refs)
    ELSE IF IsErr(r) \/ acc = <<>> THEN r
    ELSE R(V("array", <<>>, acc \o r.v.k), r.p)

EntriesRun(b, p0, acc, refs, k) ==
    LET p == SkipWs(b, p0) IN
    IF At(b, p) = 62
    THEN IF At(b, p + 1) = 62 THEN R(V("dict", <<>>, acc), p + 2) ELSE Err(p)
    ELSE IF At(b, p) # 47 THEN Err(p)
    ELSE IF k = 0 THEN R(V("more", <<>>, acc), p)
    ELSE LET key == Val(b, p, refs) IN
         IF IsErr(key) THEN key
         ELSE LET r == Val(b, key.p, refs) IN
              IF r.v.t \in {"err", "kw"} THEN Err(key.p)
              ELSE EntriesRun(b, r.p, Append(acc, V("ent", key.v.b, <<r.v>>)), refs, k - 1)

Entries(b, p0, acc, refs) ==
    LET r == EntriesRun(b, p0, <<>>, refs, 64) IN
    IF r.v.t = "more" THEN Entries(b, r.p, acc \o r.v.k, refs)
    ELSE IF IsErr(r) \/ acc = <<>> THEN r
    ELSE R(V("dict", <<>>, acc \o r.v.k), r.p)

\* The value of the (first) entry with the given key; t = "err" if absent.
Get(d, key) ==
    LET is == {i \in 1..Len(d.k): d.k[i].b = key}
    IN  IF is = {} THEN V("err", <<0>>, <<>>)
        ELSE d.k[CHOOSE i \in is: \A j \in is: i <= j].k[1]
Has(d, key) == \E i \in 1..Len(d.k): d.k[i].b = key

----------------------------------------------------------------------------
(* Indirect objects (7.3.10) and streams (7.3.8).                          *)

\* [ok, id, gen, v, p]; p is the position after `endobj`.
Bad(p) == [ok |-> FALSE, id |-> -1, gen |-> -1, v |-> V("err", <<p>>, <<>>), p |-> p]

\* The object header `id gen obj`: p is the position after it.
Header(b, p0) ==
    LET p == SkipWs(b, p0)
        e1 == DigitsEnd(b, p)
        s2 == SkipSp(b, e1)
        e2 == DigitsEnd(b, s2)
        s3 == SkipSp(b, e2)
    IN  IF e1 = p \/ s2 = e1 \/ e2 = s2 \/ s3 = e2 \/ ~IsTokAt(b, s3, kwObj)
        THEN Bad(p)
        ELSE [ok |-> TRUE, id |-> Nat32(NumOf(b, p, e1)), gen |-> Nat32(NumOf(b, s2, e2)),
              v |-> V("null", <<>>, <<>>), p |-> s3 + 3]

\* The position of the first byte of stream data, given the position after
\* the dictionary, or 0 if no stream follows (`stream` + LF or CRLF).
DataStart(b, p0) ==
    LET p == SkipWs(b, p0) IN
    IF ~IsAt(b, p, kwStream) THEN 0
    ELSE IF At(b, p + 6) = 10 THEN p + 7
    ELSE IF At(b, p + 6) = 13 /\ At(b, p + 7) = 10 THEN p + 8
    ELSE 0

\* After the data: an end-of-line that does not belong to it, `endstream`;
\* the position after.
DataEnd(b, p) ==
    LET q == IF At(b, p) = 13 /\ At(b, p + 1) = 10 THEN p + 2
             ELSE IF At(b, p) = 10 \/ At(b, p) = 13 THEN p + 1 ELSE 0
    IN  IF q # 0 /\ IsTokAt(b, q, kwEndstream) THEN q + 9 ELSE 0

Indirect(b, p0) ==
    LET h == Header(b, p0) IN
    IF ~h.ok THEN h
    ELSE LET r == Val(b, h.p, TRUE) IN
    IF r.v.t \in {"err", "kw"} THEN Bad(r.p)
    ELSE LET ds == IF r.v.t = "dict" THEN DataStart(b, r.p) ELSE 0 IN
    IF ds = 0
    THEN LET q == SkipWs(b, r.p) IN
         IF IsTokAt(b, q, kwEndobj)
         THEN [h EXCEPT !.v = r.v, !.p = q + 6]
         ELSE Bad(q)
    ELSE LET n == Nat32(Get(r.v, nLength)) IN
         IF n < 0 \/ n > Len(b) - ds + 1 THEN Bad(ds)
         ELSE LET de == DataEnd(b, ds + n) IN
         IF de = 0 THEN Bad(ds + n)
         ELSE LET q == SkipWs(b, de) IN
         IF IsTokAt(b, q, kwEndobj)
         THEN [h EXCEPT !.v = V("stream", SubSeq(b, ds, ds + n - 1), <<r.v>>),
                        !.p = q + 6]
         ELSE Bad(q)

\* All indirect objects from p up to position n (exclusive): a sequence of
\* records [id, gen, v, at, p]; a record with ok = FALSE if it does not parse.
\* (In runs of limited length, which is only a matter of speed.)
RECURSIVE BodyRun(_, _, _, _, _), Body(_, _, _, _)
BodyRun(b, p0, n, acc, k) ==
    LET p == SkipWs(b, p0) IN
    IF p >= n \/ k = 0 THEN [os |-> acc, p |-> p]
    ELSE LET o == Indirect(b, p) IN
         IF ~o.ok THEN [os |-> Append(acc, [o EXCEPT !.p = p] @@ [at |-> p]), p |-> n]
         ELSE BodyRun(b, o.p, n, Append(acc, o @@ [at |-> p]), k - 1)
Body(b, p0, n, acc) ==
    LET r == BodyRun(b, p0, n, <<>>, 64) IN
    IF r.p >= n THEN acc \o r.os ELSE Body(b, r.p, n, acc \o r.os)

----------------------------------------------------------------------------
(* Content streams (7.8.2): operands followed by an operator.              *)

\* One operation: its operands up to the keyword.
RECURSIVE Operation(_, _, _)
Operation(b, p0, args) ==
    LET p == SkipWs(b, p0) IN
    IF p > Len(b) THEN [ok |-> FALSE, op |-> <<>>, args |-> args, p |-> p]
    ELSE LET r == Val(b, p, FALSE) IN
         IF IsErr(r) THEN [ok |-> FALSE, op |-> <<>>, args |-> args, p |-> p]
         ELSE IF r.v.t = "kw" THEN [ok |-> TRUE, op |-> r.v.b, args |-> args, p |-> r.p]
         ELSE Operation(b, r.p, Append(args, r.v))

RECURSIVE OpsRun(_, _, _, _), Ops(_, _, _)
OpsRun(b, p0, acc, k) ==
    LET p == SkipWs(b, p0) IN
    IF p > Len(b) \/ k = 0 THEN [ok |-> TRUE, ops |-> acc, p |-> p]
    ELSE LET o == Operation(b, p, <<>>) IN
         IF ~o.ok THEN [ok |-> FALSE, ops |-> acc, p |-> p]
         ELSE OpsRun(b, o.p, Append(acc, [op |-> o.op, args |-> o.args]), k - 1)
Ops(b, p0, acc) ==
    LET r == OpsRun(b, p0, <<>>, 64) IN
    IF ~r.ok \/ r.p > Len(b) THEN [r EXCEPT !.ops = acc \o @] ELSE Ops(b, r.p, acc \o r.ops)
=============================================================================
