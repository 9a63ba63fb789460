---------------------------- MODULE Multivector -----------------------------
(***************************************************************************)
(* Multivectors as finite functions from blades to numbers; blades outside *)
(* the domain have coefficient zero.  Integer and fixed point arithmetic   *)
(* share the definitions through the Mul/Add parameters.                   *)
(***************************************************************************)
EXTENDS Clifford
\* (TLCEval only forces TLC to tabulate a function once; it is the identity)

Zero == [b \in {} |-> 0]
At(f, b)  == IF b \in DOMAIN f THEN f[b] ELSE 0
Support(f) == {b \in DOMAIN f : f[b] # 0}
Prune(f)  == TLCEval([b \in Support(f) |-> f[b]])
Eq(f, g)  == \A b \in DOMAIN f \cup DOMAIN g : At(f, b) = At(g, b)
Unit(b)   == TLCEval([x \in {b} |-> 1])
Scalar(n) == [x \in {0} |-> n]

Signed(f, S(_)) == TLCEval([b \in DOMAIN f |-> S(b) * f[b]])
Scale(n, f) == TLCEval([b \in DOMAIN f |-> n * f[b]])
Plus(f, g)  == TLCEval([b \in DOMAIN f \cup DOMAIN g |-> At(f, b) + At(g, b)])
Minus(f, g) == TLCEval([b \in DOMAIN f \cup DOMAIN g |-> At(f, b) - At(g, b)])
Keep(f, S)  == TLCEval([b \in DOMAIN f \cap S |-> f[b]])

\* sum over pairs (a, b) of blades with a ^^ b = c and Cond(a, b, c)
Bilinear(sig, A, B, Cond(_, _, _)) ==
    LET out == {a ^^ b : a \in DOMAIN A, b \in DOMAIN B}
    IN TLCEval([c \in out |->
          FoldSet(LAMBDA a, acc :
                    LET b == a ^^ c
                    IN IF b \in DOMAIN B /\ Cond(a, b, c)
                       THEN acc + BladeSign(sig, a, b) * A[a] * B[b]
                       ELSE acc,
                  0, DOMAIN A)])

Product(sig, A, B) ==
    LET out == {a ^^ b : a \in DOMAIN A, b \in DOMAIN B}
    IN TLCEval([c \in out |->
          FoldSet(LAMBDA a, acc :
                    LET b == a ^^ c
                    IN IF b \in DOMAIN B THEN acc + BladeSign(sig, a, b) * A[a] * B[b] ELSE acc,
                  0, DOMAIN A)])
AbsInt(n) == IF n < 0 THEN -n ELSE n
=============================================================================
