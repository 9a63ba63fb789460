----------------------------- MODULE Operators ------------------------------
(***************************************************************************)
(* Meaning of every multilinear operator numga constructs, as functions of *)
(* multivectors: written from the definitions (grade parts, reversal of    *)
(* words, duality relations), not from the kernels in the code.            *)
(*                                                                         *)
(* Apply(sig, op, x, q): operator named op applied to the tuple x of       *)
(* multivectors; q is an optional parameter (a set of blades for select,   *)
(* restrict, n_product; the grades of the target for sandwiches).          *)
(* Operators numga simplifies under the assumption of repeated arguments   *)
(* are given in unsimplified multilinear form; Ties(op) lists the argument *)
(* positions that are meant to hold the same value.                        *)
(***************************************************************************)
EXTENDS Multivector

(* ---- unary, blade by blade ---- *)
RevSign(b)  == LET k == Grade(b) IN EvenSign((k * (k - 1)) \div 2)
InvSign(b)  == EvenSign(Grade(b))
Reverse(A)  == Signed(A, RevSign)
Involute(A) == Signed(A, InvSign)
Conjugate(A) == Involute(Reverse(A))
ScalarNeg(A) == Signed(A, LAMBDA b : IF b = 0 THEN 1 ELSE -1)
PssNeg(sig, A) == Signed(A, LAMBDA b : IF b = 0 \/ b = Pss(sig) THEN 1 ELSE -1)

\* maps a blade b to sign(b) times its complement
ToComplement(sig, A, S(_)) ==
    LET I == Pss(sig) IN TLCEval([c \in {I ^^ b : b \in DOMAIN A} |-> S(I ^^ c) * A[I ^^ c]])
\* I * v and v * I, null generators squaring to one
LeftCompl(sig, A)  == LET s == Regular(sig) IN ToComplement(sig, A, LAMBDA b : BladeSign(s, Pss(sig), b))
RightCompl(sig, A) == LET s == Regular(sig) IN ToComplement(sig, A, LAMBDA b : BladeSign(s, b, Pss(sig)))
\* v ^ d(v) = I, respectively d(v) ^ v = I
RightComplDual(sig, A) == ToComplement(sig, A, LAMBDA b : BladeSign(sig, b, Pss(sig) ^^ b))
LeftComplDual(sig, A)  == ToComplement(sig, A, LAMBDA b : BladeSign(sig, Pss(sig) ^^ b, b))
NegSign(sig, b) == EvenSign(NegCount(sig, b))
RightHodge(sig, A) == RightComplDual(sig, Signed(A, LAMBDA b : NegSign(sig, b)))
LeftHodge(sig, A)  == LeftComplDual(sig, Signed(A, LAMBDA b : NegSign(sig, b)))
\* the dual of blade c is NegSign(c) * s * (I ^^ c): undo it
RightHodgeInv(sig, A) == ToComplement(sig, A, LAMBDA d : LET c == Pss(sig) ^^ d IN NegSign(sig, c) * BladeSign(sig, c, d))
LeftHodgeInv(sig, A)  == ToComplement(sig, A, LAMBDA d : LET c == Pss(sig) ^^ d IN NegSign(sig, c) * BladeSign(sig, d, c))

(* ---- grade parts of the product ---- *)
Wedge(sig, A, B) == Bilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = Grade(a) + Grade(b))
Inner(sig, A, B) == Bilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = AbsInt(Grade(a) - Grade(b)))
ScalarProd(sig, A, B) == Bilinear(sig, A, B, LAMBDA a, b, c : c = 0)
LeftContr(sig, A, B)  == Bilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = Grade(b) - Grade(a))
RightContr(sig, A, B) == Bilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = Grade(a) - Grade(b))
GradePart(A, k) == Keep(A, {x \in DOMAIN A : Grade(x) = k})
GradesPart(A, K) == Keep(A, {x \in DOMAIN A : Grade(x) \in K})

(* ---- duality based products ---- *)
Regressive(sig, A, B) == RightHodgeInv(sig, Wedge(sig, RightHodge(sig, A), RightHodge(sig, B)))
Anti(sig, Op(_, _, _), A, B) == LeftCompl(sig, Op(sig, RightCompl(sig, A), RightCompl(sig, B)))
AntiWedge(sig, A, B) == Anti(sig, Wedge, A, B)
AntiProduct(sig, A, B) == Anti(sig, Product, A, B)
LeftInterior(sig, A, B)  == AntiWedge(sig, LeftCompl(sig, A), B)
RightInterior(sig, A, B) == AntiWedge(sig, A, RightCompl(sig, B))
ReverseProduct(sig, A, B) == Product(sig, A, Reverse(B))

(* ---- (anti) commutators ---- *)
Half(A) == TLCEval([b \in DOMAIN A |-> A[b] \div 2])
Comm(sig, Op(_, _, _), A, B)     == Half(Minus(Op(sig, A, B), Op(sig, B, A)))
AntiComm(sig, Op(_, _, _), A, B) == Half(Plus(Op(sig, A, B), Op(sig, B, A)))

Unary(sig, op, x, q) ==
  CASE op = "identity" -> x
    [] op = "neg" -> Scale(-1, x)
    [] op = "reverse" -> Reverse(x)
    [] op = "involute" -> Involute(x)
    [] op = "conjugate" -> Conjugate(x)
    [] op \in {"scalar_negation", "study_conjugate"} -> ScalarNeg(x)
    [] op = "pseudoscalar_negation" -> PssNeg(sig, x)
    [] op = "left_complement" -> LeftCompl(sig, x)
    [] op = "right_complement" -> RightCompl(sig, x)
    [] op = "left_complement_dual" -> LeftComplDual(sig, x)
    [] op = "right_complement_dual" -> RightComplDual(sig, x)
    [] op = "left_hodge" -> LeftHodge(sig, x)
    [] op \in {"right_hodge", "dual"} -> RightHodge(sig, x)
    [] op = "left_hodge_inverse" -> LeftHodgeInv(sig, x)
    [] op \in {"right_hodge_inverse", "dual_inverse"} -> RightHodgeInv(sig, x)
    [] op \in {"select", "restrict"} -> Keep(x, q)
    [] op = "degenerate" -> Keep(x, {c \in DOMAIN x : IsNull(sig, c)})
    [] op = "nondegenerate" -> Keep(x, {c \in DOMAIN x : ~IsNull(sig, c)})

Binary(sig, op, x, y, q) ==
  CASE op \in {"product", "gp", "geometric_product", "squared"} -> Product(sig, x, y)
    [] op \in {"wedge", "op", "outer", "outer_product", "wedge_product"} -> Wedge(sig, x, y)
    [] op \in {"inner", "ip", "inner_product"} -> Inner(sig, x, y)
    [] op \in {"scalar_product", "sp", "dp", "dot", "scalar", "dot_product"} -> ScalarProd(sig, x, y)
    [] op \in {"left_contract", "lc", "left_contraction_product"} -> LeftContr(sig, x, y)
    [] op \in {"right_contract", "rc", "right_contraction_product"} -> RightContr(sig, x, y)
    [] op = "bivector_product" -> GradePart(Product(sig, x, y), 2)
    [] op = "trivector_product" -> GradePart(Product(sig, x, y), 3)
    [] op = "n_product" -> Keep(Product(sig, x, y), q)
    [] op \in {"commutator", "commutator_product"} -> Comm(sig, Product, x, y)
    [] op \in {"anti_commutator", "anti_commutator_product"} -> AntiComm(sig, Product, x, y)
    [] op \in {"commutator_anti", "commutator_anti_product"} -> Comm(sig, AntiProduct, x, y)
    [] op \in {"anti_commutator_anti", "anti_commutator_anti_product"} -> AntiComm(sig, AntiProduct, x, y)
    [] op \in {"cross", "cross_product"} -> RightHodge(sig, Wedge(sig, x, y))
    [] op \in {"reverse_product", "symmetric_reverse_product"} -> Product(sig, x, Reverse(y))
    [] op \in {"involute_product", "symmetric_involute_product"} -> Product(sig, x, Involute(y))
    [] op \in {"conjugate_product", "symmetric_conjugate_product"} -> Product(sig, x, Conjugate(y))
    [] op \in {"scalar_negation_product", "study_conjugate_product",
               "symmetric_scalar_negation_product", "symmetric_study_conjugate_product"} -> Product(sig, x, ScalarNeg(y))
    [] op \in {"pseudoscalar_negation_product", "symmetric_pseudoscalar_negation_product"} -> Product(sig, x, PssNeg(sig, y))
    [] op = "study_norm_squared" -> ScalarProd(sig, x, ScalarNeg(y))
    [] op \in {"regressive", "rp", "regressive_product"} -> Regressive(sig, x, y)
    [] op \in {"anti_product", "agp", "anti_geometric_product"} -> AntiProduct(sig, x, y)
    [] op \in {"anti_wedge", "aop", "anti_outer", "anti_outer_product", "anti_wedge_product"} -> AntiWedge(sig, x, y)
    [] op \in {"anti_inner", "aip", "anti_inner_product"} -> Anti(sig, Inner, x, y)
    [] op \in {"anti_scalar", "asp", "adp", "anti_dot", "anti_dot_product", "anti_scalar_product"} -> Anti(sig, ScalarProd, x, y)
    [] op \in {"left_interior", "lip", "left_interior_product"} -> LeftInterior(sig, x, y)
    [] op \in {"right_interior", "rip", "right_interior_product"} -> RightInterior(sig, x, y)
    [] op \in {"anti_left_interior", "alip", "anti_left_interior_product"} -> Anti(sig, LeftInterior, x, y)
    [] op \in {"anti_right_interior", "arip", "anti_right_interior_product"} -> Anti(sig, RightInterior, x, y)
    [] op = "anti_reverse_product" -> Anti(sig, ReverseProduct, x, y)
    [] op = "euclidian_factorization" -> GradePart(RightHodge(sig, Product(sig, x, RightHodge(sig, y))), 2)
    [] op = "add" -> Plus(x, y)
    [] op = "sub" -> Minus(x, y)
    \* division by a scalar that divides every coefficient
    [] op = "scalar_div" -> TLCEval([b \in DOMAIN x |-> IF x[b] = 0 THEN 0 ELSE x[b] \div At(y, 0)])

\* q: the grades of the declared target subspace (sandwich), the parity of R (transform)
Ternary(sig, op, x, y, z, q) ==
  CASE op = "cubed" -> Product(sig, Product(sig, x, y), z)
    [] op = "full_sandwich" -> Product(sig, Product(sig, x, y), Reverse(z))
    [] op = "sandwich" -> GradesPart(Product(sig, Product(sig, x, y), Reverse(z)), q)
    [] op = "reverse_sandwich" -> GradesPart(Product(sig, Product(sig, Reverse(x), y), z), q)
    [] op = "transform_even" -> GradesPart(Product(sig, Product(sig, x, y), Reverse(z)), q)
    [] op = "transform_odd" -> GradesPart(Product(sig, Product(sig, x, Involute(y)), Reverse(z)), q)
    [] op = "inverse_transform_even" -> GradesPart(Product(sig, Product(sig, Reverse(x), y), z), q)
    [] op = "inverse_transform_odd" -> GradesPart(Product(sig, Product(sig, Reverse(x), Involute(y)), z), q)
    [] op = "inverse_factor" -> Product(sig, Reverse(x), Conjugate(Product(sig, y, Reverse(z))))
    [] op = "inverse_factor_alt" -> Product(sig, Reverse(x), ScalarNeg(Product(sig, y, Reverse(z))))
    [] op = "inertia" -> Regressive(sig, x, Comm(sig, Product, y, z))

Quaternary(sig, op, x, y, z, w, q) ==
  CASE op = "inverse_factor_completed" -> Product(sig, Product(sig, x, Reverse(y)), Conjugate(Product(sig, z, Reverse(w))))
    [] op = "inverse_factor_completed_alt" -> Product(sig, Product(sig, x, Reverse(y)), ScalarNeg(Product(sig, z, Reverse(w))))

Apply(sig, op, x, q) ==
  CASE Len(x) = 1 -> Unary(sig, op, x[1], q)
    [] Len(x) = 2 -> Binary(sig, op, x[1], x[2], q)
    [] Len(x) = 3 -> Ternary(sig, op, x[1], x[2], x[3], q)
    [] Len(x) = 4 -> Quaternary(sig, op, x[1], x[2], x[3], x[4], q)

\* argument positions meant to carry the same value
Ties(op) ==
  CASE op \in {"squared", "symmetric_reverse_product", "symmetric_involute_product", "symmetric_conjugate_product",
               "symmetric_scalar_negation_product", "symmetric_study_conjugate_product",
               "symmetric_pseudoscalar_negation_product", "euclidian_factorization", "inertia"} -> {1, 2}
    [] op \in {"cubed", "inverse_factor", "inverse_factor_alt"} -> {1, 2, 3}
    [] op \in {"full_sandwich", "sandwich", "reverse_sandwich", "transform_even", "transform_odd",
               "inverse_transform_even", "inverse_transform_odd"} -> {1, 3}
    [] op \in {"inverse_factor_completed", "inverse_factor_completed_alt"} -> {1, 2, 3, 4}
    [] OTHER -> {}
=============================================================================
