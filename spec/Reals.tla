------------------------------- MODULE Reals --------------------------------
(***************************************************************************)
(* The defining relations of the inverses, roots, norms, exponentials,     *)
(* logarithms, decompositions and normalisations: which results R are      *)
(* correct for inputs X.  None of them refers to an algorithm.             *)
(***************************************************************************)
EXTENDS Mechanics

One == FUnit
OnlyGrade2(f, tol) == \A b \in DOMAIN f : Grade(b) = 2 \/ Mag(f[b]) <= tol
OnlyScalar(f, tol) == \A b \in DOMAIN f : b = 0 \/ Mag(f[b]) <= tol
SelfReverse(f, tol) == \A b \in DOMAIN f : RevSign(b) = 1 \/ Mag(f[b]) <= tol
\* f = c g for some positive number c, where g is not zero
Largest(g) == CHOOSE b \in DOMAIN g : \A c \in DOMAIN g : Sign(FSub(IF Sign(g[b]) < 0 THEN FNeg(g[b]) ELSE g[b],
                                                             IF Sign(g[c]) < 0 THEN FNeg(g[c]) ELSE g[c])) >= 0
PositiveMultiple(f, g, tol) ==
    LET p == Largest(g)
    IN /\ Sign(FMul(FAt(f, p), g[p])) > 0
       /\ \A b \in DOMAIN f \cup DOMAIN g : Mag(FSub(FMul(FAt(f, b), g[p]), FMul(FAt(f, p), FAt(g, b)))) <= tol

\* the clauses of relation `name` that X, R do not satisfy
RelRow(sig, name, X, R, tol) ==
  LET P(a, b) == MProduct(sig, a, b)
      r == R[1]
      x == X[1]
      Cl(ok, s) == IF ok THEN {} ELSE {s}
      Versor(m) == Cl(Near(P(m, MReverse(m)), One, tol), "m*~m=1")
  IN CASE name = "close" -> Cl(Near(x, r, tol), "differs")
       [] name = "inverse" -> Cl(Near(P(x, r), One, tol), "x*inv(x)=1") \cup Cl(Near(P(r, x), One, tol), "inv(x)*x=1")
       [] name = "divide" -> Cl(Near(P(r, X[2]), x, tol), "(a/b)*b=a")
       [] name = "norm_squared" -> Cl(Near(r, P(x, MReverse(x)), tol), "x*~x")
       [] name = "norm" -> Cl(Near(P(r, r), P(x, MReverse(x)), tol), "norm^2=x*~x") \cup Cl(Sign(FAt(r, 0)) >= 0 \/ Mag(FAt(r, 0)) <= tol, "norm>=0")
       [] name = "scalar_norm" -> Cl(Near(P(r, r), P(x, x), tol), "|x|^2=x^2") \cup Cl(Sign(FAt(r, 0)) >= 0, "|x|>=0")
       [] name = "normalized" -> Versor(r) \cup Cl(PositiveMultiple(r, x, tol), "proportional")
       [] name = "study_normalized" -> Versor(r) \cup Cl(SelfReverse(P(r, MReverse(x)), tol), "n=s*x")
       [] name = "square_root" -> Cl(Near(P(r, r), x, tol), "r*r=x")
       [] name = "inverse_square_root" -> Cl(Near(P(P(r, x), r), One, tol), "r*x*r=1") \cup Cl(Near(P(r, P(r, x)), One, tol), "r*r*x=1")
       [] name = "motor_square_root" -> Versor(r) \cup Cl(Near(P(r, r), x, tol), "r*r=m")
       [] name = "motor_geometric_mean" -> Versor(r) \cup Cl(Near(P(P(r, MReverse(x)), r), X[2], tol), "g*~a*g=b")
       [] name = "study_norm_squared" -> Cl(Near(r, FScalar(FAt(P(x, MSigned(x, LAMBDA b : IF b = 0 THEN 1 ELSE -1)), 0)), tol), "x*conj(x)")
       [] name = "study_norm" -> Cl(Near(P(r, r), FScalar(FAt(P(x, MSigned(x, LAMBDA b : IF b = 0 THEN 1 ELSE -1)), 0)), tol), "|x|^2=x*conj(x)") \cup Cl(Sign(FAt(r, 0)) >= 0, "|x|>=0")
       [] name = "exp" -> Cl(Near(r, MExp(sig, x), tol), "power series")
       [] name = "scalar_log" -> Cl(Near(MExp(sig, r), x, tol), "exp(log(s))=s")
       [] name = "motor_exp" -> Cl(Near(r, MExp(sig, x), tol), "power series") \cup Versor(r)
       \* near the identity, for t = X[2]: r = (exp(t x) - 1) / t, but for the scalar, which is 1 to the precision of 1
       [] name = "exp_tiny" -> Cl(Near(MKeep(r, LAMBDA b : b # 0), MKeep(ExpQuotient(sig, x, X[2]), LAMBDA b : b # 0), tol), "power series")
       [] name = "exp_large" -> Cl(Near(r, SquareTimes(sig, MExp(sig, MDivInt(x, 8)), 3), tol), "power series")
       [] name = "motor_log" -> Cl(OnlyGrade2(r, 0), "bivector") \cup Cl(Near(MExp(sig, r), x, tol), "exp(log(m))=m")
       [] name = "exp_linear" -> Cl(Near(r, MAdd(One, x), tol), "1+b")
       [] name = "motor_log_linear" -> Cl(Near(r, MKeep(x, LAMBDA b : Grade(b) = 2), tol), "bivector part")
       [] name = "exp_linear_normalized" -> Versor(r) \cup Cl(SelfReverse(P(r, MReverse(MAdd(One, x))), tol), "s*(1+b)")
       [] name = "exp_quadratic" -> LET h == MDivInt(x, 2) IN Cl(Near(P(r, MSub(One, h)), MAdd(One, h), tol), "cayley")
       [] name = "decompose_invariant" ->
            LET q == R[2] IN Cl(Near(MAdd(r, q), x, tol), "l+r=b")
              \cup Cl(OnlyGrade2(r, 0) /\ OnlyGrade2(q, 0), "bivectors")
              \cup Cl(Small(MInner(sig, r, q), tol), "l|r=0")
              \cup Cl(Near(P(r, q), P(q, r), tol), "commute")
              \cup Cl(OnlyScalar(P(r, r), tol) /\ OnlyScalar(P(q, q), tol), "simple")
       [] name = "decompose_polar" ->
            LET s == R[2] IN Cl(Near(P(r, s), x, tol), "l*s=b")
              \cup Cl(OnlyGrade2(r, 0), "bivector")
              \cup Cl(SelfReverse(s, 0) /\ \A b \in DOMAIN s : Grade(b) \in {0, 4}, "study")
       [] name = "euclidean_factors" ->
            LET q == R[2] IN Cl(Near(P(r, q), x, tol), "t*r=m")
              \cup Cl(Near(MKeep(r, LAMBDA b : b = 0), One, tol) /\ \A b \in DOMAIN r : b = 0 \/ (Grade(b) = 2 /\ IsNull(sig, b)) \/ Mag(r[b]) <= tol, "translator")
              \cup Cl(\A b \in DOMAIN q : ~IsNull(sig, b) \/ Mag(q[b]) <= tol, "rotor")
       [] name = "motor_split" ->
            LET q == R[2] o == X[2] IN Cl(Near(P(r, q), x, tol), "t*r=m")
              \cup Cl(Near(P(P(q, o), MReverse(q)), o, tol), "r>>o=o")
       [] name = "normalize_motor" -> Versor(r) \cup Cl(SelfReverse(P(r, MReverse(x)), tol), "n=s*m")
       [] name = "inverse_sandwich" -> Cl(Near(P(P(r, x), MReverse(r)), One, tol), "x*s*~x=1")
       [] OTHER -> MechRow(sig, name, X, R, tol)

\* shapes of the results follow broadcasting of the inputs; every element satisfies the relation
RelClauses(sig, ev) ==
    IF "err" \in DOMAIN ev THEN {ev.err}
    ELSE LET X == [i \in DOMAIN ev.x |-> MDecode(ev.x[i])]
             R == [i \in DOMAIN ev.r |-> MDecode(ev.r[i])]
             hx == BShape([i \in DOMAIN X |-> X[i].h])
             h  == IF \A i \in DOMAIN R : Compatible(hx, R[i].h) THEN BShape(<<hx>> \o [i \in DOMAIN R |-> R[i].h]) ELSE hx
         IN IF \E i \in DOMAIN R : ~Compatible(hx, R[i].h) THEN {"shape"}
            ELSE (IF h = hx /\ (("shape" \in DOMAIN ev) => \A i \in DOMAIN R : R[i].h = hx) THEN {} ELSE {"shape"})
                 \cup UNION {RelRow(sig, ev.rel, [i \in DOMAIN X |-> RowAt(X[i], h, k)], [i \in DOMAIN R |-> RowAt(R[i], h, k)], ev.tol)
                             : k \in 0 .. NRows(h) - 1}
=============================================================================
