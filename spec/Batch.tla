------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Batched multivectors as recorded from the implementation, and array     *)
(* broadcasting.  A batched multivector is a record                        *)
(*   s : the blades of its declared subspace, in component order           *)
(*   h : the batch shape          d : one coefficient function per element *)
(***************************************************************************)
EXTENDS Operators

RECURSIVE NRows(_)
NRows(h) == IF h = <<>> THEN 1 ELSE h[1] * NRows(Tail(h))

MaxI(a, b) == IF a > b THEN a ELSE b
\* i-th axis length counted from the right
AtR(h, i) == IF i > Len(h) THEN 1 ELSE h[Len(h) - i + 1]
Compatible(h, k) == \A i \in 1 .. MaxI(Len(h), Len(k)) : AtR(h, i) = AtR(k, i) \/ AtR(h, i) = 1 \/ AtR(k, i) = 1
BShape2(h, k) == LET n == MaxI(Len(h), Len(k))
                 IN [i \in 1 .. n |-> LET a == AtR(h, n - i + 1) IN IF a = 1 THEN AtR(k, n - i + 1) ELSE a]
RECURSIVE BShape(_)
BShape(hs) == IF Len(hs) = 0 THEN <<>> ELSE IF Len(hs) = 1 THEN hs[1] ELSE BShape2(hs[1], BShape(Tail(hs)))
\* 0-based flat index into an array of shape h, for flat index k of shape out
RECURSIVE SrcIdx(_, _, _, _)
SrcIdx(out, h, k, i) ==
    IF i > Len(h) THEN 0
    ELSE LET n == AtR(out, i)
             r == IF AtR(h, i) = 1 THEN 0 ELSE k % n
         IN r + AtR(h, i) * SrcIdx(out, h, k \div n, i + 1)
RowAt(v, out, k) == IF v.h = out THEN v.d[k + 1] ELSE v.d[SrcIdx(out, v.h, k, 1) + 1]

\* elementwise application of an operator to batched arguments
MapOp(sig, op, args, q) ==
    LET out == BShape([i \in DOMAIN args |-> args[i].h])
    IN [h |-> out,
        d |-> TLCEval([k \in 1 .. NRows(out) |-> Apply(sig, op, TLCEval([i \in DOMAIN args |-> RowAt(args[i], out, k - 1)]), q)])]

\* recorded rows <<blades, coefficients>> as functions
RowFn(r) == LET bl == r[1] IN TLCEval([b \in RangeOf(bl) |-> r[2][CHOOSE i \in DOMAIN bl : bl[i] = b]])
Decode(v) == [s |-> v.s, h |-> v.h, d |-> TLCEval([k \in DOMAIN v.d |-> RowFn(v.d[k])])]

RowsEq(d, e) == Len(d) = Len(e) /\ \A k \in DOMAIN d : Eq(d[k], e[k])
Covers(s, d) == LET S == RangeOf(s) IN \A k \in DOMAIN d : Support(d[k]) \subseteq S
=============================================================================
