----------------------------- MODULE Subspaces ------------------------------
(***************************************************************************)
(* Subspaces are sets of blades.  This module says what every named        *)
(* constructor, derived subspace and predicate denotes, and in which order *)
(* the blades of a subspace are listed.                                    *)
(***************************************************************************)
EXTENDS Operators
LOCAL SubSX == INSTANCE SequencesExt

Before(a, b) == Grade(a) < Grade(b) \/ (Grade(a) = Grade(b) /\ a < b)
\* strictly increasing: ordered and free of duplicates
Canonical1(q) == \A i \in 1 .. Len(q) - 1 : Before(q[i], q[i + 1])
Listed(S) == SubSX!SetToSortSeq(S, Before)

\* grades counted from either end
GradeIdx(n, k) == IF k < 0 THEN n + 1 + k ELSE k
OfGrades(sig, K) == {b \in Blades(sig) : Grade(b) \in K}

(* ---- supports of operators on subspaces ---- *)
MulSub(sig, S, T) == {p[1] ^^ p[2] : p \in {r \in S \X T : BladeSign(sig, r[1], r[2]) # 0}}
BinSub(sig, op, S, T) == IF op = "product" THEN MulSub(sig, S, T)
    ELSE UNION {Support(Binary(sig, op, Unit(p[1]), Unit(p[2]), {})) : p \in S \X T}
\* x -> op(x, x): symmetrised over the two positions
Sym2(sig, op, S) ==
    UNION {Support(Plus(Binary(sig, op, Unit(p[1]), Unit(p[2]), {}), Binary(sig, op, Unit(p[2]), Unit(p[1]), {}))) :
              p \in {r \in S \X S : r[1] <= r[2]}}
RECURSIVE Multisets(_, _)
Multisets(S, k) == IF k = 0 THEN {<<>>}
    ELSE {Append(t, b) : t \in Multisets(S, k - 1), b \in S}
PermSeqs(k) == {f \in [1 .. k -> 1 .. k] : \A i, j \in 1 .. k : i # j => f[i] # f[j]}
SymK(sig, op, S, k) ==
    LET perms == PermSeqs(k)
        tuples == {t \in Multisets(S, k) : \A i \in 1 .. k - 1 : t[i] <= t[i + 1]}
    IN UNION {Support(FoldSet(LAMBDA p, acc : Plus(acc, Apply(sig, op, [i \in 1 .. k |-> Unit(t[p[i]])], {})), Zero, perms)) : t \in tuples}

(* ---- named constructors ---- *)
RECURSIVE KReflection(_, _)
KReflection(sig, k) == IF k = 0 THEN {0} ELSE MulSub(sig, KReflection(sig, k - 1), GradeBlades(sig, 1))
Degenerate(sig, S) == {b \in S : IsNull(sig, b)}
Nondegenerate(sig, S) == {b \in S : ~IsNull(sig, b)}

KName == [scalar |-> 0, vector |-> 1, bivector |-> 2, trivector |-> 3, quadvector |-> 4,
          pseudoscalar |-> -1, antiscalar |-> -1, antivector |-> -2, antibivector |-> -3, antitrivector |-> -4, antiquadvector |-> -5]
RName == [reflection |-> 1, bireflection |-> 2, trireflection |-> 3, quadreflection |-> 4]
Named(sig, name) ==
    LET n == Dim(sig)
        G(P(_)) == {b \in Blades(sig) : P(Grade(b))}
    IN CASE name \in DOMAIN KName -> GradeBlades(sig, GradeIdx(n, KName[name]))
         [] name \in DOMAIN RName -> KReflection(sig, RName[name])
         [] name = "empty" -> {}
         [] name \in {"multivector", "full"} -> Blades(sig)
         [] name = "scalar_pseudoscalar" -> {0, Pss(sig)}
         [] name = "nonscalar" -> Blades(sig) \ {0}
         [] name \in {"even_grade", "motor", "self_involute"} -> G(LAMBDA k : k % 2 = 0)
         [] name = "odd_grade" -> G(LAMBDA k : k % 2 = 1)
         [] name = "rotor" -> Nondegenerate(sig, G(LAMBDA k : k % 2 = 0))
         [] name = "translator" -> KReflection(sig, 2) \ Nondegenerate(sig, GradeBlades(sig, 2))
         [] name = "self_reverse" -> {b \in Blades(sig) : RevSign(b) = 1}
         [] name = "mod4" -> {b \in Blades(sig) : Grade(b) % 4 = 0}
         [] name = "degenerate" -> Degenerate(sig, Blades(sig))
         [] name = "nondegenerate" -> Nondegenerate(sig, Blades(sig))
         [] name = "scalar_degenerate" -> Degenerate(sig, Blades(sig)) \cup {0}

(* ---- derived subspaces ---- *)
IsSubalgebra(sig, S) == MulSub(sig, S, S) \subseteq S
RECURSIVE Closure(_, _)
Closure(sig, S) == LET T == TLCEval(S \cup MulSub(sig, S, S)) IN IF T = S THEN S ELSE Closure(sig, T)
RECURSIVE SqClosure(_, _)
SqClosure(sig, S) == LET T == TLCEval(S \cup Sym2(sig, "squared", S)) IN IF T = S THEN S ELSE SqClosure(sig, T)
\* the symmetric product a predicate or method is named after
SymOp == [squared |-> "squared", symmetric_reverse |-> "symmetric_reverse_product", symmetric_involute |-> "symmetric_involute_product",
          symmetric_conjugate |-> "symmetric_conjugate_product", symmetric_scalar_negation |-> "symmetric_scalar_negation_product",
          symmetric_pseudoscalar_negation |-> "symmetric_pseudoscalar_negation_product"]
SimpleOps == [is_squared_n_simple |-> "squared", is_reverse_n_simple |-> "symmetric_reverse", is_involute_n_simple |-> "symmetric_involute",
          is_conjugate_n_simple |-> "symmetric_conjugate", is_scalar_negation_n_simple |-> "symmetric_scalar_negation",
          is_pseudoscalar_negation_n_simple |-> "symmetric_pseudoscalar_negation"]

UnSub(sig, op, S) ==
    CASE op \in {"complement", "dual"} -> {b ^^ Pss(sig) : b \in S}
      [] op = "degenerate" -> Degenerate(sig, S)
      [] op = "nondegenerate" -> Nondegenerate(sig, S)
      [] op = "scalar_degenerate" -> {0} \cup Degenerate(sig, S)
      [] op \in DOMAIN SymOp -> Sym2(sig, SymOp[op], S)
      [] op = "cubed" -> SymK(sig, "cubed", S, 3)
      [] op = "symmetric_alt_product" -> SymK(sig, "inverse_factor_completed_alt", S, 4)
      [] op = "minimal_subalgebra" -> Closure(sig, S)
      [] op = "minimal_exponential" -> SqClosure(sig, S \cup {0})
      [] op = "same" -> S

\* reducible to a scalar by n symmetric products
RECURSIVE NSimple(_, _, _)
NSimple(sig, S, n) == IF n = 0 THEN S \subseteq {0}
    ELSE \E op \in DOMAIN SymOp : NSimple(sig, UnSub(sig, op, S), n - 1)
Simplicity(sig, S) == LET N == {n \in 0 .. (Dim(sig) \div 2) + 1 : NSimple(sig, S, n)}
                      IN IF N = {} THEN -1 ELSE Min(N)

------------------------------------------------------------------------------
(* A recorded construction: the set it denotes.  A: argument sets, p: parameters *)
SubDenotes(sig, op, A, p) ==
    CASE op = "named" -> Named(sig, p.name)
      [] op = "k_vector" -> GradeBlades(sig, GradeIdx(Dim(sig), p.k))
      [] op = "k_reflection" -> KReflection(sig, p.k)
      [] op = "from_grades" -> OfGrades(sig, {GradeIdx(Dim(sig), k) : k \in RangeOf(p.ks)})
      [] op = "from_blades" -> RangeOf(p.bits)
      \* words of generators, e.g. zx_y
      [] op = "words" -> {FoldSet(LAMBDA g, acc : acc + 2 ^ (g - 1), 0, RangeOf(p.words[i])) : i \in DOMAIN p.words}
      [] op \in {"intersection", "restrict_subspace"} -> A[1] \cap A[2]
      [] op = "union" -> A[1] \cup A[2]
      [] op = "difference" -> A[1] \ A[2]
      [] op = "select_subspace" -> A[2]
      [] op = "select_named" -> Named(sig, p.name)
      [] op = "restrict_named" -> A[1] \cap Named(sig, p.name)
      [] op = "select_grades" -> OfGrades(sig, {GradeIdx(Dim(sig), k) : k \in RangeOf(p.ks)})
      [] op = "restrict_grades" -> A[1] \cap OfGrades(sig, {GradeIdx(Dim(sig), k) : k \in RangeOf(p.ks)})
      [] op = "slice" -> LET q == Listed(A[1]) IN {q[i + 1] : i \in RangeOf(p.idx)}
      [] Len(A) = 1 -> UnSub(sig, op, A[1])
      [] Len(A) = 2 -> BinSub(sig, op, A[1], A[2])

B01(c) == IF c THEN 1 ELSE 0
\* a recorded predicate: its value
PredDenotes(sig, op, A, p) ==
    LET S == A[1] IN
    CASE op \in {"contains", "is_subspace"} -> B01(A[1] \subseteq A[2])
      [] op = "equals" -> B01(A[1] = A[2])
      [] op = "inside_named" -> B01(S \subseteq Named(sig, p.name))
      [] op = "equals_named" -> B01(S = Named(sig, p.name))
      [] op = "inside_k_vector" -> B01(S \subseteq GradeBlades(sig, GradeIdx(Dim(sig), p.k)))
      [] op = "equals_k_vector" -> B01(S = GradeBlades(sig, GradeIdx(Dim(sig), p.k)))
      [] op = "is_blade" -> B01(Cardinality(S) = 1)
      [] op = "len" -> Cardinality(S)
      [] op = "is_subalgebra" -> B01(IsSubalgebra(sig, S))
      [] op = "simplicity" -> Simplicity(sig, S)
      [] op = "is_n_simple" -> B01(NSimple(sig, S, p.k))
      [] op \in DOMAIN SimpleOps -> B01(NSimple(sig, UnSub(sig, SimpleOps[op], S), p.k - 1))
      [] op = "is_study" -> B01(UnSub(sig, "symmetric_scalar_negation", S) \subseteq {0})
      [] op = "is_alt_n_simple" -> B01(NSimple(sig, UnSub(sig, "symmetric_alt_product", S), p.k - 2))
      [] op = "is_degenerate_scalar" -> B01(S = {0} \cup Degenerate(sig, S))
      [] op = "is_degenerate" -> B01(S = Degenerate(sig, S))
      [] op = "in_even" -> B01(\A b \in S : Grade(b) % 2 = 0)
      [] op = "in_odd" -> B01(\A b \in S : Grade(b) % 2 = 1)
      [] op = "is_even" -> B01(S = Named(sig, "even_grade"))
      [] op = "is_odd" -> B01(S = Named(sig, "odd_grade"))
      [] op = "is_empty" -> B01(S = {})
      [] op = "in_self_reverse" -> B01(S \subseteq Named(sig, "self_reverse"))
      \* the grade, where there is one; -1 where asking for it must raise
      [] op = "grade" -> LET K == {Grade(b) : b \in S} IN IF Cardinality(K) = 1 THEN CHOOSE k \in K : TRUE ELSE -1
      \* attempts to write to the blades: -1, must raise
      [] op = "mutate" -> -1
      [] op = "label_is" -> B01(S = Named(sig, p.name))
      [] op = "label_in" -> B01(S \subseteq Named(sig, p.name))
      [] op = "pseudo_scalar_squared" -> BladeSign(sig, Pss(sig), Pss(sig))
\* a recorded sequence
Position(S, b) == Cardinality({c \in S : Before(c, b)})
SeqOK(sig, op, S, p, q) ==
    CASE op = "blades" -> Canonical1(q) /\ RangeOf(q) = S
      \* grades in the order of the blades: ascending, with the right multiplicities
      [] op = "grades" -> /\ \A i \in 1 .. Len(q) - 1 : q[i] <= q[i + 1]
                          /\ Len(q) = Cardinality(S)
                          /\ \A k \in 0 .. Dim(sig) : Cardinality({i \in DOMAIN q : q[i] = k}) = Cardinality({b \in S : Grade(b) = k})
      \* where the given blades stand in the listing
      [] op = "relative" -> q = [i \in DOMAIN p.bits |-> Position(S, p.bits[i])]
=============================================================================
