------------------------------ MODULE Matrices ------------------------------
(***************************************************************************)
(* Sparse matrices of multivectors: a shape h and a multivector for some   *)
(* of the (zero based) positions; the others are zero.                     *)
(***************************************************************************)
EXTENDS Batch

Entry(M, i, j) == IF <<i, j>> \in DOMAIN M.f THEN M.f[<<i, j>>] ELSE Zero
\* entries given as a sequence of <<row, column, multivector>>; duplicates add up
Assemble(h, es) ==
    LET at == {<<es[k][1], es[k][2]>> : k \in DOMAIN es}
    IN [h |-> h, f |-> TLCEval([p \in at |-> FoldSet(LAMBDA k, acc : IF <<es[k][1], es[k][2]>> = p THEN Plus(acc, es[k][3]) ELSE acc, Zero, DOMAIN es)])]
DecodeMat(v) == Assemble(v.h, [k \in DOMAIN v.r |-> <<v.r[k], v.c[k], RowFn(v.d[k])>>])
MatEq(A, B) == A.h = B.h /\ \A p \in DOMAIN A.f \cup DOMAIN B.f : Eq(Entry(A, p[1], p[2]), Entry(B, p[1], p[2]))
Entrywise(A, F(_)) == [h |-> A.h, f |-> TLCEval([p \in DOMAIN A.f |-> F(A.f[p])])]
Sum2(A, B) == [h |-> A.h, f |-> TLCEval([p \in DOMAIN A.f \cup DOMAIN B.f |-> Plus(Entry(A, p[1], p[2]), Entry(B, p[1], p[2]))])]
\* the transpose with every entry reversed
Adjoint(A) == [h |-> <<A.h[2], A.h[1]>>, f |-> TLCEval([p \in {<<q[2], q[1]>> : q \in DOMAIN A.f} |-> Reverse(A.f[<<p[2], p[1]>>])])]
SumTerms(S, F(_)) == FoldSet(LAMBDA k, acc : Plus(acc, F(k)), Zero, S)
MatMul(sig, op, A, B, q) ==
    LET at == {<<p[1], r[2]>> : p \in DOMAIN A.f, r \in DOMAIN B.f}
        inner(p) == {k \in 0 .. A.h[2] - 1 : <<p[1], k>> \in DOMAIN A.f /\ <<k, p[2]>> \in DOMAIN B.f}
    IN [h |-> <<A.h[1], B.h[2]>>,
        f |-> TLCEval([p \in at |-> SumTerms(inner(p), LAMBDA k : Apply(sig, op, <<A.f[<<p[1], k>>], B.f[<<k, p[2]>>]>>, q))])]
\* x: a batch of one multivector per column
MatVec(sig, op, A, x, q) ==
    [h |-> <<A.h[1]>>,
     d |-> TLCEval([i \in 1 .. A.h[1] |-> SumTerms({k \in 0 .. A.h[2] - 1 : <<i - 1, k>> \in DOMAIN A.f},
                                                  LAMBDA k : Apply(sig, op, <<A.f[<<i - 1, k>>], x.d[k + 1]>>, q))])]

MatDenotes(sig, op, A, p, q) ==
  CASE op = "build" -> Assemble(p.h, [k \in DOMAIN p.r |-> <<p.r[k], p.c[k], A[k].d[1]>>])
    [] op = "diag" -> [h |-> <<A[1].h[1], A[1].h[1]>>, f |-> TLCEval([t \in {<<i, i>> : i \in 0 .. A[1].h[1] - 1} |-> A[1].d[t[1] + 1]])]
    [] op = "add" -> Sum2(A[1], A[2])
    [] op = "sub" -> Sum2(A[1], Entrywise(A[2], LAMBDA x : Scale(-1, x)))
    [] op = "neg" -> Entrywise(A[1], LAMBDA x : Scale(-1, x))
    [] op = "pos" -> A[1]
    [] op = "scale" -> Entrywise(A[1], LAMBDA x : Scale(p.n, x))
    [] op = "adjoint" -> Adjoint(A[1])
    [] op = "dual" -> Entrywise(A[1], LAMBDA x : RightHodge(sig, x))
    [] op = "matmat" -> MatMul(sig, p.op, A[1], A[2], q)
    [] op = "matscalar" -> Entrywise(A[1], LAMBDA x : Apply(sig, p.op, <<x, A[2].d[1]>>, q))
\* row (i, a), column (j, b): the coefficient of blade a of entry (i, j) applied to blade b
DenseAt(sig, A, p, v, q, T) ==      \* T: every block transposed
    LET R == Len(v.rs) C == Len(v.cs) IN
    /\ Len(v.m) = A.h[1] * R
    /\ T => R = C
    /\ \A i \in 0 .. A.h[1] - 1 : \A j \in 0 .. A.h[2] - 1 : \A b \in 1 .. C :
          LET y == Apply(sig, p.op, <<Entry(A, i, j), Unit(v.cs[b])>>, q)
          IN /\ Support(y) \subseteq RangeOf(v.rs)
             /\ \A a \in 1 .. R : v.m[(i * R) + (IF T THEN b ELSE a)][(j * C) + (IF T THEN a ELSE b)] = At(y, v.rs[a])
DenseClauses(sig, A, p, v, q) ==
    IF DenseAt(sig, A, p, v, q, FALSE) THEN {} ELSE IF DenseAt(sig, A, p, v, q, TRUE) THEN {"blocks transposed"} ELSE {"dense"}
=============================================================================
