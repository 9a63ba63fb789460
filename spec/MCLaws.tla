------------------------------- MODULE MCLaws -------------------------------
(***************************************************************************)
(* Design level: the algebra laws, checked exhaustively on the             *)
(* specification for every signature up to MaxN generators and every       *)
(* triple of blades.  By (multi)linearity a law between multilinear        *)
(* expressions that holds on all blades holds for all multivectors.        *)
(***************************************************************************)
EXTENDS Operators
CONSTANTS MinN, MaxN
VARIABLES vsig, va, vb, vc
vars == <<vsig, va, vb, vc>>

Sigs == UNION {[1 .. n -> {1, -1, 0}] : n \in MinN .. MaxN}
Init == /\ vsig \in Sigs
        /\ va \in Blades(vsig) /\ vb = 0 /\ vc = 0
\* a grows the second, then the third blade: three factors of a product
Next == /\ vb = 0 /\ vc = 0
        /\ vb' \in Blades(vsig) /\ vc' \in Blades(vsig)
        /\ UNCHANGED <<vsig, va>>
Spec == Init /\ [][Next]_vars

A == Unit(va)  B == Unit(vb)  C == Unit(vc)
P(x, y) == Product(vsig, x, y)
W(x, y) == Wedge(vsig, x, y)
I == Unit(Pss(vsig))
ScalarOf(x) == At(x, 0)

(* ---- the product (C01) ---- *)
WordsAgree == WordProduct(vsig, Gens(va) \o Gens(vb)) =
                 LET s == BladeSign(vsig, va, vb) IN IF s = 0 THEN <<0, 0>> ELSE <<s, va ^^ vb>>
Associative == Eq(P(P(A, B), C), P(A, P(B, C)))
UnitElement == Eq(P(A, Scalar(1)), A) /\ Eq(P(Scalar(1), A), A)
Generators == (Grade(va) = 1 /\ Grade(vb) = 1) =>
                IF va = vb THEN Eq(P(A, B), Scalar(vsig[Gens(va)[1]]))
                ELSE Eq(P(A, B), Scale(-1, P(B, A))) /\ Support(P(A, B)) = {va ^^ vb}

(* ---- grade parts (C02) ---- *)
GradeParts ==
    /\ Eq(W(A, B), GradePart(P(A, B), Grade(va) + Grade(vb)))
    /\ Eq(Inner(vsig, A, B), GradePart(P(A, B), AbsInt(Grade(va) - Grade(vb))))
    /\ Eq(LeftContr(vsig, A, B), GradePart(P(A, B), Grade(vb) - Grade(va)))
    /\ Eq(RightContr(vsig, A, B), GradePart(P(A, B), Grade(va) - Grade(vb)))
    /\ Eq(ScalarProd(vsig, A, B), GradePart(P(A, B), 0))
WedgeAssociative == Eq(W(W(A, B), C), W(A, W(B, C)))
WedgeNilpotent == (va & vb) # 0 => Support(W(A, B)) = {}
Commutators ==
    /\ Eq(Plus(Comm(vsig, Product, A, B), AntiComm(vsig, Product, A, B)), P(A, B))
    /\ Eq(Comm(vsig, Product, A, B), Scale(-1, Comm(vsig, Product, B, A)))
Jacobi == LET K(x, y) == Comm(vsig, Product, x, y)
          IN Eq(Plus(Plus(K(A, K(B, C)), K(B, K(C, A))), K(C, K(A, B))), Zero)
\* (va ^ vb) . vc = va . (vb . vc) for the left contraction
ContractionLaw == Eq(LeftContr(vsig, W(A, B), C), LeftContr(vsig, A, LeftContr(vsig, B, C)))

(* ---- involutions (C03) ---- *)
Involutive == \A f \in {"reverse", "involute", "conjugate", "scalar_negation", "pseudoscalar_negation"} :
                 Eq(Unary(vsig, f, Unary(vsig, f, A, {}), {}), A) /\ DOMAIN Unary(vsig, f, A, {}) = {va}
ReverseIsReversal == LET w == Gens(va) r == [i \in DOMAIN w |-> w[Len(w) - i + 1]]
                     IN WordProduct(vsig, r) = <<RevSign(va), va>>
AntiAutomorphism == Eq(Reverse(P(A, B)), P(Reverse(B), Reverse(A)))
Automorphism == Eq(Involute(P(A, B)), P(Involute(A), Involute(B)))
ConjugateAnti == Eq(Conjugate(P(A, B)), P(Conjugate(B), Conjugate(A)))

(* ---- duality (C04) ---- *)
DualRelations ==
    /\ Eq(W(A, RightComplDual(vsig, A)), I)
    /\ Eq(W(LeftComplDual(vsig, A), A), I)
    /\ Eq(W(A, RightHodge(vsig, A)), Scale(NegSign(vsig, va), I))
    /\ Eq(W(LeftHodge(vsig, A), A), Scale(NegSign(vsig, va), I))
HodgeInverses ==
    /\ Eq(RightHodgeInv(vsig, RightHodge(vsig, A)), A) /\ Eq(RightHodge(vsig, RightHodgeInv(vsig, A)), A)
    /\ Eq(LeftHodgeInv(vsig, LeftHodge(vsig, A)), A) /\ Eq(LeftHodge(vsig, LeftHodgeInv(vsig, A)), A)
Complements ==
    /\ Eq(LeftCompl(vsig, A), Product(Regular(vsig), I, A))
    /\ Eq(RightCompl(vsig, A), Product(Regular(vsig), A, I))
RegressiveLaws ==
    LET V(x, y) == Regressive(vsig, x, y)
    IN /\ Eq(V(V(A, B), C), V(A, V(B, C)))
       /\ Eq(RightHodge(vsig, V(A, B)), W(RightHodge(vsig, A), RightHodge(vsig, B)))

(* ---- repeated arguments (C10) and versors (C11) ---- *)
\* the polarised square of va + vb
Polarised == LET X == Plus(A, B) IN
             Eq(P(X, X), Plus(Plus(P(A, A), P(B, B)), Plus(P(A, B), P(B, A)))) \/ va = vb
Sand(R, x) == P(P(R, x), Reverse(R))
VersorBlades ==   \* basis blades are versors: the sandwich preserves blades, and composes
    /\ Support(Sand(A, B)) \subseteq {vb}
    /\ Eq(Sand(P(A, B), C), Sand(A, Sand(B, C)))
VersorInverse == LET n == ScalarOf(P(A, Reverse(A))) IN Eq(Sand(Reverse(A), Sand(A, B)), Scale(n * n, B))
Outermorphism == LET n == ScalarOf(P(A, Reverse(A)))
                     T(x) == IF Grade(va) % 2 = 1 THEN Sand(A, Involute(x)) ELSE Sand(A, x)
                 IN Eq(W(T(B), T(C)), Scale(n, T(W(B, C))))
=============================================================================
