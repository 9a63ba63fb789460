------------------------------- MODULE MCPool -------------------------------
(***************************************************************************)
(* Histories of subspace constructions.  The state holds the subspaces     *)
(* constructed so far in three algebras and the pool of objects; every     *)
(* step names or derives one more.  Run in simulation: choices are drawn   *)
(* at random, and each finished history is printed for replay against the  *)
(* real factories.                                                         *)
(***************************************************************************)
EXTENDS Subspaces, Json, Randomization
LOCAL PX == INSTANCE SequencesExt

VARIABLES sgs,   \* signatures of the algebras
          made,  \* sequence of [g, b]: what was constructed
          acts,  \* the history
          objs   \* the pool: <<algebra, set>> -> object number
vars == <<sgs, made, acts, objs>>
Steps == 28
Algs == {<<<<1, 1, 0>>, <<1, 1, 0>>, <<1, -1>>>>, <<<<0, 1, 1, 1>>, <<1, 1, 1, 0>>, <<1, 1, 1>>>>, <<<<1>>, <<0>>, <<-1, 0, 1, 1>>>>,
         <<<<0, 0, 1>>, <<1, 1>>, <<1, 1, -1>>>>, <<<<1, 1, 1, 1, -1>>, <<1, 1, 1, 1>>, <<0, 0>>>>}
Pick(X) == RandomElement(X)
NamesOf(sig) == (IF Dim(sig) > 1 THEN {"translator"} ELSE {}) \cup {nm \in DOMAIN KName : GradeIdx(Dim(sig), KName[nm]) \in 0 .. Dim(sig)} \cup DOMAIN RName
      \cup {"empty", "multivector", "full", "scalar_pseudoscalar", "nonscalar", "even_grade", "motor", "self_involute", "odd_grade",
            "rotor", "self_reverse", "mod4", "degenerate", "nondegenerate", "scalar_degenerate"}
SomeSeq(X) == Pick({PX!SetToSeq(X), PX!SetToSortSeq(X, >), PX!SetToSortSeq(X, <)})
SomeBlades(sig) == Pick(RandomSetOfSubsets(3, 1 + (2 ^ Dim(sig)) \div 2, Blades(sig)))
SomeGrades(sig) == Pick((SUBSET (0 .. Dim(sig))) \ {{}})
SomeNeg(sig, K) == Pick({K, {k - Dim(sig) - 1 : k \in K}})

UnOps == {"complement", "dual", "degenerate", "nondegenerate", "scalar_degenerate", "squared", "symmetric_reverse", "symmetric_involute",
          "symmetric_conjugate", "symmetric_scalar_negation", "symmetric_pseudoscalar_negation", "minimal_subalgebra", "minimal_exponential"}
BinOps == {"intersection", "union", "difference", "select_subspace", "restrict_subspace", "product", "wedge", "inner", "reverse_product"}
Cost(op) == op \in {"product", "wedge", "inner", "reverse_product"} \cup DOMAIN SymOp \cup {"minimal_subalgebra", "minimal_exponential"}

Act(op, g, a, p) == [op |-> op, g |-> g, a |-> a, p |-> p]
NewAct(g, k) ==
    LET sig == sgs[g]
    IN CASE k \in {"named", "named2"} -> Act("named", g, <<>>, [name |-> Pick(NamesOf(sig))])
         [] k = "from_blades" -> Act("from_blades", g, <<>>, [bits |-> SomeSeq(SomeBlades(sig))])
         [] k = "from_grades" -> Act("from_grades", g, <<>>, [ks |-> SomeSeq(SomeNeg(sig, SomeGrades(sig)))])
         [] k = "k_vector" -> Act("k_vector", g, <<>>, [k |-> Pick(-Dim(sig) - 1 .. Dim(sig))])
DeriveAct(i, j, k) ==
    LET g == made[i].g  sig == sgs[g]
        small == Cardinality(made[i].b) <= 8 /\ Cardinality(made[j].b) <= 8
        nop == [_ |-> 0]
    IN CASE k = "un" -> Act(Pick({op \in UnOps : small \/ ~Cost(op)}), g, <<i>>, nop)
         [] k \in {"bin", "bin2"} -> Act(Pick({op \in BinOps : small \/ ~Cost(op)}), g, <<i, j>>, nop)
         [] k = "slice" -> Act("slice", g, <<i>>, [idx |-> SomeSeq(Pick(SUBSET (0 .. Min({Cardinality(made[i].b), 8}) - 1)))])
         [] k \in {"select_named", "restrict_named"} -> Act(k, g, <<i>>, [name |-> Pick(NamesOf(sig))])
         [] k \in {"select_grades", "restrict_grades"} -> Act(k, g, <<i>>, [ks |-> SomeSeq(SomeNeg(sig, SomeGrades(sig)))])
Denotes(a) == SubDenotes(sgs[a.g], a.op, [i \in DOMAIN a.a |-> made[a.a[i]].b], a.p)

Init == sgs \in Algs /\ made = <<>> /\ acts = <<>> /\ objs = <<>>
Do(a) == LET S == TLCEval(Denotes(a))  key == <<a.g, S>> IN
         /\ made' = Append(made, [g |-> a.g, b |-> S])
         /\ acts' = Append(acts, a)
         /\ objs' = IF key \in DOMAIN objs THEN objs ELSE (key :> Cardinality(DOMAIN objs) + 1) @@ objs
         /\ UNCHANGED sgs
Construct == /\ Len(acts) < Steps
             /\ \E g \in {Pick(DOMAIN sgs)}, k \in {Pick({"named", "named2", "from_blades", "from_grades", "k_vector"})} : \E a \in {NewAct(g, k)} : Do(a)
Derive == /\ Len(acts) < Steps /\ Len(acts) > 0
          /\ \E i \in {Pick(DOMAIN made)},
                k \in {Pick({"un", "bin", "bin2", "slice", "select_named", "restrict_named", "select_grades", "restrict_grades"})} :
               \E j \in {Pick({x \in DOMAIN made : made[x].g = made[i].g})} : \E a \in {DeriveAct(i, j, k)} : Do(a)
Finish == /\ Len(acts) = Steps
          /\ PrintT("BEHAVIOUR " \o ToJson([sigs |-> sgs, acts |-> acts]))
          /\ UNCHANGED <<sgs, made, objs>>
          /\ acts' = Append(acts, Act("end", 1, <<>>, [_ |-> 0]))
Next == Construct \/ Derive \/ Finish
Spec == Init /\ [][Next]_vars
\* one object per algebra and set of blades
OneObject == \A x, y \in DOMAIN objs : objs[x] = objs[y] => x = y
Known == \A i \in DOMAIN made : <<made[i].g, made[i].b>> \in DOMAIN objs
Inside == \A i \in DOMAIN made : made[i].b \subseteq Blades(sgs[made[i].g])
=============================================================================
