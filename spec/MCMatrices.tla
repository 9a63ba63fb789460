----------------------------- MODULE MCMatrices -----------------------------
(***************************************************************************)
(* Laws of sparse matrices of multivectors: for the geometric product the  *)
(* adjoint reverses products, products of matrices compose as maps of      *)
(* vectors, and assembling, adding and scaling are linear.                 *)
(***************************************************************************)
EXTENDS Matrices
CONSTANT MaxEntries
Sigs == {<<1, -1>>, <<1, 0>>, <<0, 1, 1>>}
Elems(sig) == {Unit(0), Scale(2, Unit(1)), Plus(Unit(0), Unit(2)), Plus(Unit(3), Unit(1))}
Shapes == {<<2, 2>>, <<1, 2>>}
Positions(h) == (0 .. h[1] - 1) \X (0 .. h[2] - 1)
MatsOf(sig, h) == UNION {{[h |-> h, f |-> g] : g \in [P -> Elems(sig)]} : P \in {P \in SUBSET Positions(h) : P # {} /\ Cardinality(P) <= MaxEntries}}
VARIABLES g, A, B
Init == \E sig \in Sigs : \E h \in Shapes :
          /\ g = sig
          /\ A \in MatsOf(sig, h)
          /\ B \in MatsOf(sig, <<2, 2>>)
Next == UNCHANGED <<g, A, B>>
Prod(X, Y) == MatMul(g, "product", X, Y, {})
x == [h |-> <<2>>, d |-> <<Plus(Unit(1), Unit(3)), Plus(Unit(0), Scale(-2, Unit(2)))>>]
SameVec(u, v) == u.h = v.h /\ \A i \in DOMAIN u.d : Eq(u.d[i], v.d[i])
Involution == MatEq(Adjoint(Adjoint(A)), A)
AdjointReverses == MatEq(Adjoint(Prod(A, B)), Prod(Adjoint(B), Adjoint(A)))
Composes == SameVec(MatVec(g, "product", Prod(A, B), x, {}), MatVec(g, "product", A, MatVec(g, "product", B, x, {}), {}))
SelfAdjoint == LET S == Prod(Adjoint(A), A) IN MatEq(Adjoint(S), S)
Distributes == A.h = B.h => MatEq(Prod(Sum2(A, B), B), Sum2(Prod(A, B), Prod(B, B)))
Cancels == MatEq(Sum2(A, Entrywise(A, LAMBDA y : Scale(-1, y))), [h |-> A.h, f |-> <<>>])
\* entries may be assembled in any order and in several parts
Assembled == LET P == DOMAIN A.f
                 q == CHOOSE s \in [1 .. Cardinality(P) -> P] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
                 es == [i \in DOMAIN q |-> <<q[i][1], q[i][2], A.f[q[i]]>>]
             IN MatEq(Assemble(A.h, es \o es), Entrywise(A, LAMBDA y : Scale(2, y)))
=============================================================================
