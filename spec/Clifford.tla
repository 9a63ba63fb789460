------------------------------ MODULE Clifford ------------------------------
(***************************************************************************)
(* The Clifford algebra of a diagonal signature, from first principles.    *)
(*                                                                         *)
(* A signature is a sequence over {1, -1, 0}: the square of each generator *)
(* in declaration order.  A blade is a set of generators, encoded as the   *)
(* natural number whose bit i-1 says whether generator i occurs (this is   *)
(* also the observable encoding of numga: subspace.blades).  The oriented  *)
(* blade is the product of its generators in ascending order.              *)
(*                                                                         *)
(* The product is defined by rewriting words of generators: two adjacent   *)
(* different generators out of order are exchanged at the cost of a sign,  *)
(* two adjacent equal generators are contracted to their square.           *)
(* BladeSign is the same function organised for evaluation; MCClifford     *)
(* checks that both agree and that the algebra laws hold.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, FiniteSetsExt, TLC

RangeOf(s) == {s[i] : i \in DOMAIN s}

RECURSIVE GensRec(_, _)
GensRec(b, i) == IF b = 0 THEN <<>>
                 ELSE IF b % 2 = 1 THEN <<i>> \o GensRec(b \div 2, i + 1)
                 ELSE GensRec(b \div 2, i + 1)
\* generators of the blades of algebras up to 10 generators, tabulated once
GensTab  == TLCEval([b \in 0 .. 1023 |-> GensRec(b, 1)])
Gens(b)  == IF b < 1024 THEN GensTab[b] ELSE GensRec(b, 1)
GradeTab == TLCEval([b \in 0 .. 1023 |-> Len(GensTab[b])])
Grade(b) == IF b < 1024 THEN GradeTab[b] ELSE GradeTab[b % 1024] + Len(GensRec(b \div 1024, 1))

Dim(sig)    == Len(sig)
Blades(sig) == 0 .. (2 ^ Len(sig)) - 1
Pss(sig)    == (2 ^ Len(sig)) - 1
GradeBlades(sig, k) == {b \in Blades(sig) : Grade(b) = k}

------------------------------------------------------------------------------
(* Definition by word rewriting *)
FirstOut(w) == CHOOSE i \in 1 .. Len(w) - 1 :
                  /\ w[i] >= w[i + 1]
                  /\ \A j \in 1 .. i - 1 : w[j] < w[j + 1]
InOrder(w)  == \A i \in 1 .. Len(w) - 1 : w[i] < w[i + 1]
Drop2(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 2, Len(w))
Swap(w, i)  == [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]]
RECURSIVE Rewrite(_, _, _)
Rewrite(sig, s, w) ==
    IF s = 0 THEN <<0, <<>>>>
    ELSE IF InOrder(w) THEN <<s, w>>
    ELSE LET i == FirstOut(w)
         IN IF w[i] = w[i + 1] THEN Rewrite(sig, s * sig[w[i]], Drop2(w, i))
            ELSE Rewrite(sig, -s, Swap(w, i))
RECURSIVE BladeOfWord(_)
BladeOfWord(w) == IF w = <<>> THEN 0 ELSE 2 ^ (w[1] - 1) + BladeOfWord(Tail(w))
\* <<coefficient, blade>> of the product of a sequence of generators
WordProduct(sig, w) == LET r == Rewrite(sig, 1, w) IN <<r[1], BladeOfWord(r[2])>>

------------------------------------------------------------------------------
(* The same, for evaluation: multiply blade a by the generators of b, in    *)
(* ascending order; generator g passes the generators of a greater than g.  *)
RECURSIVE SignRec(_, _, _, _, _)
SignRec(sig, a, g, k, s) ==
    IF k > Len(g) THEN s
    ELSE LET p  == 2 ^ (g[k] - 1)
             s1 == IF Grade(a \div (2 * p)) % 2 = 1 THEN -s ELSE s
         IN IF (a \div p) % 2 = 1
            THEN IF sig[g[k]] = 0 THEN 0 ELSE SignRec(sig, a, g, k + 1, s1 * sig[g[k]])
            ELSE SignRec(sig, a, g, k + 1, s1)
\* the product of blades a, b is BladeSign(sig, a, b) times the blade a ^^ b
BladeSign(sig, a, b) == SignRec(sig, a, Gens(b), 1, 1)

\* the signature with null generators made to square to one, used by the
\* (metric free in the null directions) left and right complements
Regular(sig) == [i \in DOMAIN sig |-> IF sig[i] = 0 THEN 1 ELSE sig[i]]
ZeroBits(sig) == FoldSet(LAMBDA i, acc : acc + 2 ^ (i - 1), 0, {i \in DOMAIN sig : sig[i] = 0})
IsNull(sig, b) == (b & ZeroBits(sig)) # 0
NegCount(sig, b) == Cardinality({i \in RangeOf(Gens(b)) : sig[i] = -1})
EvenSign(n) == IF n % 2 = 0 THEN 1 ELSE -1
=============================================================================
