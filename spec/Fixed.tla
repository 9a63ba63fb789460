------------------------------- MODULE Fixed --------------------------------
(***************************************************************************)
(* Real multivectors in fixed point.  A number is a tuple of four balanced *)
(* digits in base 4096, <<d1, d2, d3, d4>>, with value                     *)
(*     d4 + d3 / 4096 + d2 / 4096^2 + d1 / 4096^3,                         *)
(* that is, multiples of 2^-36 (1.5e-11).  Sums of products are formed     *)
(* exactly and rounded once, inside the 32 bit integers of TLC.            *)
(***************************************************************************)
EXTENDS Batch

Carry(x) == (x + 2048) \div 4096
Norm4(a, b, c, d) ==
    LET k1 == Carry(a)
        b1 == b + k1  k2 == Carry(b1)
        c1 == c + k2  k3 == Carry(c1)
    IN <<a - 4096 * k1, b1 - 4096 * k2, c1 - 4096 * k3, d + k3>>
FZ == <<0, 0, 0, 0>>
FOne == <<0, 0, 0, 1>>
FInt(n) == <<0, 0, 0, n>>
FAdd(x, y) == Norm4(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4])
FSub(x, y) == Norm4(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4])
FNeg(x) == Norm4(-x[1], -x[2], -x[3], -x[4])
\* 0 < n <= 2^12
FDivInt(x, n) ==
    LET q4 == x[4] \div n  r4 == x[4] - (n * q4)
        t3 == (r4 * 4096) + x[3]  q3 == t3 \div n  r3 == t3 - (n * q3)
        t2 == (r3 * 4096) + x[2]  q2 == t2 \div n  r2 == t2 - (n * q2)
        t1 == (r2 * 4096) + x[1]  q1 == t1 \div n
    IN Norm4(q1, q2, q3, q4)
FScaleInt(n, x) == Norm4(n * x[1], n * x[2], n * x[3], n * x[4])

\* the exact product as seven digits, times the sign s, added to acc
Acc(acc, s, x, y) ==
    <<acc[1] + (s * (x[1] * y[1])),
      acc[2] + (s * ((x[1] * y[2]) + (x[2] * y[1]))),
      acc[3] + (s * ((x[1] * y[3]) + (x[2] * y[2]) + (x[3] * y[1]))),
      acc[4] + (s * ((x[1] * y[4]) + (x[2] * y[3]) + (x[3] * y[2]) + (x[4] * y[1]))),
      acc[5] + (s * ((x[2] * y[4]) + (x[3] * y[3]) + (x[4] * y[2]))),
      acc[6] + (s * ((x[3] * y[4]) + (x[4] * y[3]))),
      acc[7] + (s * (x[4] * y[4]))>>
Acc0 == <<0, 0, 0, 0, 0, 0, 0>>
Round(c) ==
    LET k1 == Carry(c[1])
        k2 == Carry(c[2] + k1)
        k3 == Carry(c[3] + k2)
    IN Norm4(c[4] + k3, c[5], c[6], c[7])
FMul(x, y) == Round(Acc(Acc0, 1, x, y))

\* |x| in units of 2^-36, saturating
Huge == 2000000000
Mag(x) == IF x[4] # 0 \/ x[3] > 100 \/ x[3] < -100 THEN Huge
          ELSE LET v == x[1] + (4096 * x[2]) + (16777216 * x[3]) IN IF v < 0 THEN -v ELSE v
Sign(x) == IF x[4] # 0 THEN (IF x[4] > 0 THEN 1 ELSE -1)
           ELSE IF x[3] # 0 THEN (IF x[3] > 0 THEN 1 ELSE -1)
           ELSE IF x[2] # 0 THEN (IF x[2] > 0 THEN 1 ELSE -1)
           ELSE IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0

------------------------------------------------------------------------------
(* Multivectors: functions from blades to numbers *)
FAt(f, b) == IF b \in DOMAIN f THEN f[b] ELSE FZ
FScalar(x) == [b \in {0} |-> x]
FUnit == FScalar(FOne)
FZero == [b \in {} |-> FZ]
MTooBig == [b \in {0} |-> <<0, 0, 0, 9999>>]
InRange(f) == \A b \in DOMAIN f : f[b][4] < 4000 /\ f[b][4] > -4000

MAdd(f, g) == TLCEval([b \in DOMAIN f \cup DOMAIN g |-> FAdd(FAt(f, b), FAt(g, b))])
MSub(f, g) == TLCEval([b \in DOMAIN f \cup DOMAIN g |-> FSub(FAt(f, b), FAt(g, b))])
MSigned(f, S(_)) == TLCEval([b \in DOMAIN f |-> IF S(b) = 1 THEN f[b] ELSE IF S(b) = -1 THEN FNeg(f[b]) ELSE FZ])
MNeg(f) == MSigned(f, LAMBDA b : -1)
MDivInt(f, n) == TLCEval([b \in DOMAIN f |-> FDivInt(f[b], n)])
MScaleInt(n, f) == TLCEval([b \in DOMAIN f |-> FScaleInt(n, f[b])])
MKeep(f, S(_)) == TLCEval([b \in {c \in DOMAIN f : S(c)} |-> f[b]])
MReverse(f) == MSigned(f, RevSign)
MBilinear(sig, A, B, Cond(_, _, _)) ==
    IF ~InRange(A) \/ ~InRange(B) THEN MTooBig
    ELSE LET out == {a ^^ b : a \in DOMAIN A, b \in DOMAIN B}
         IN TLCEval([c \in out |->
              Round(FoldSet(LAMBDA a, acc :
                        LET b == a ^^ c
                        IN IF b \in DOMAIN B /\ Cond(a, b, c)
                           THEN LET s == BladeSign(sig, a, b) IN IF s = 0 THEN acc ELSE Acc(acc, s, A[a], B[b])
                           ELSE acc,
                      Acc0, DOMAIN A))])
MProduct(sig, A, B) == MBilinear(sig, A, B, LAMBDA a, b, c : TRUE)
MInner(sig, A, B) == MBilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = AbsInt(Grade(a) - Grade(b)))

Near(f, g, tol) == \A b \in DOMAIN f \cup DOMAIN g : Mag(FSub(FAt(f, b), FAt(g, b))) <= tol
Small(f, tol) == \A b \in DOMAIN f : Mag(f[b]) <= tol
\* largest deviation, for reporting margins
Dev(f, g) == FoldSet(LAMBDA b, acc : LET m == Mag(FSub(FAt(f, b), FAt(g, b))) IN IF m > acc THEN m ELSE acc, 0, DOMAIN f \cup DOMAIN g)

\* digits as recorded
MRow(r) == LET bl == r[1] IN TLCEval([b \in RangeOf(bl) |-> r[2][CHOOSE i \in DOMAIN bl : bl[i] = b]])
MDecode(v) == [s |-> v.s, h |-> v.h, d |-> TLCEval([k \in DOMAIN v.d |-> MRow(v.d[k])])]

\* two recorded multivectors: same subspace, same shape, nearly the same numbers
CloseMV(v, w, tol) == /\ v.s = w.s /\ v.h = w.h /\ Len(v.d) = Len(w.d)
                      /\ \A k \in DOMAIN v.d : Near(MRow(v.d[k]), MRow(w.d[k]), tol)

------------------------------------------------------------------------------
(* The exponential power series, after division by 2^k *)
RECURSIVE Series(_, _, _, _, _)
Series(sig, x, term, i, acc) ==
    IF i > 10 THEN acc
    ELSE LET t == MDivInt(MProduct(sig, term, x), i) IN Series(sig, x, t, i + 1, MAdd(acc, t))
RECURSIVE SquareTimes(_, _, _)
SquareTimes(sig, x, k) == IF k = 0 THEN x ELSE SquareTimes(sig, MProduct(sig, x, x), k - 1)
\* (exp(t x) - 1) / t for a number t below 1/4
RECURSIVE QuotientSeries(_, _, _, _, _, _)
QuotientSeries(sig, x, t, term, i, acc) ==
    IF i > 11 THEN acc
    ELSE LET u == MDivInt(MProduct(sig, t, MProduct(sig, term, x)), i) IN QuotientSeries(sig, x, t, u, i + 1, MAdd(acc, u))
ExpQuotient(sig, x, t) == QuotientSeries(sig, x, t, x, 2, x)
MExp(sig, x) == SquareTimes(sig, Series(sig, MDivInt(x, 8), FUnit, 1, FUnit), 3)
=============================================================================
