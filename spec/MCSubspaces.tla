---------------------------- MODULE MCSubspaces ----------------------------
(***************************************************************************)
(* The definitions of Subspaces.tla, checked on every subset of every      *)
(* algebra of up to two generators and of selected algebras of three:      *)
(* closures are least closed supersets, products are monotone, named       *)
(* subspaces have their characteristic properties, the listing is          *)
(* canonical.                                                              *)
(***************************************************************************)
EXTENDS Subspaces

Sigs == UNION {[1 .. n -> {1, -1, 0}] : n \in 1 .. 2} \cup {<<1, 1, 0>>, <<0, 1, -1>>, <<-1, -1, -1>>}
VARIABLES sg, S, T
vars == <<sg, S, T>>
Init == /\ sg \in Sigs
        /\ S \in SUBSET Blades(sg)
        /\ T \in (IF Dim(sg) < 3 THEN SUBSET Blades(sg) ELSE {Blades(sg) \ S, S, {0}, GradeBlades(sg, 1), Named(sg, "even_grade")})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Compl(X) == UnSub(sg, "complement", X)
Listing == Canonical1(Listed(S)) /\ RangeOf(Listed(S)) = S /\ Len(Listed(S)) = Cardinality(S)
SetLaws == /\ Compl(Compl(S)) = S /\ Compl(S \cup T) = Compl(S) \cup Compl(T)
           /\ Degenerate(sg, S) \cup Nondegenerate(sg, S) = S
           /\ Degenerate(sg, S) \cap Nondegenerate(sg, S) = {}
Distributive == /\ MulSub(sg, S, T) = UNION {MulSub(sg, {a}, T) : a \in S}
                /\ BinSub(sg, "wedge", S, T) \subseteq MulSub(sg, S, T)
                /\ BinSub(sg, "inner", S, T) \subseteq MulSub(sg, S, T)
                /\ MulSub(sg, S, {0}) = S
Closed == LET C == Closure(sg, S) IN
            /\ S \subseteq C /\ IsSubalgebra(sg, C)
            /\ IsSubalgebra(sg, S) <=> C = S
            \* least: contained in every closed superset
            /\ (Dim(sg) < 3 => \A X \in SUBSET Blades(sg) : (S \subseteq X /\ IsSubalgebra(sg, X)) => C \subseteq X)
ExpClosed == LET C == SqClosure(sg, S \cup {0}) IN
            /\ S \subseteq C /\ 0 \in C /\ Sym2(sg, "squared", C) \subseteq C
            /\ C \subseteq Closure(sg, S \cup {0})
Squares == /\ Sym2(sg, "squared", S) \subseteq MulSub(sg, S, S)
           \* x * reverse(x) is self reverse
           /\ Sym2(sg, "symmetric_reverse_product", S) \subseteq Named(sg, "self_reverse")
           \* x * conjugate(x) lies in grades 0 and 3 mod 4
           /\ \A b \in Sym2(sg, "symmetric_conjugate_product", S) : Grade(b) % 4 \in {0, 3}
           /\ \A b \in Sym2(sg, "symmetric_involute_product", S \cap Named(sg, "even_grade")) : Grade(b) % 2 = 0
Names == /\ IsSubalgebra(sg, Named(sg, "even_grade")) /\ IsSubalgebra(sg, Named(sg, "rotor"))
         /\ Named(sg, "pseudoscalar") = {Pss(sg)} /\ Named(sg, "empty") = {}
         /\ Named(sg, "even_grade") \cup Named(sg, "odd_grade") = Blades(sg)
         /\ Named(sg, "mod4") = Named(sg, "even_grade") \cap Named(sg, "self_reverse")
         /\ KReflection(sg, 1) = GradeBlades(sg, 1)
         /\ (Dim(sg) >= 2 => \A b \in KReflection(sg, 2) : Grade(b) \in {0, 2})
         \* degenerate blades form an ideal
         /\ MulSub(sg, Named(sg, "degenerate"), S) \subseteq Named(sg, "degenerate")
Simple == \A n \in 0 .. 1 : NSimple(sg, S, n) => NSimple(sg, S, n + 1)
=============================================================================
