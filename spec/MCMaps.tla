------------------------------- MODULE MCMaps -------------------------------
(***************************************************************************)
(* Laws of operators as maps, checked on all small instances: composing    *)
(* several maps at once agrees with composing them one after the other in  *)
(* any order (positions shifting as arities grow), partial application in  *)
(* any order and in stages agrees with full application, restriction       *)
(* undoes extension, swapping is an involution, symmetrising keeps the     *)
(* polarisation.                                                           *)
(***************************************************************************)
EXTENDS Maps
VARIABLES sig, names, subs
vars == <<sig, names, subs>>
Sigs == {<<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>}
Binaries == {"product", "wedge", "inner", "commutator"}
Unaries == {"reverse", "dual", "involute"}
Subs2 == {<<1, 2>>, <<0, 3>>, <<0, 1, 2>>, <<2, 3>>, <<1>>}
Full == <<0, 1, 2, 3>>
Factory(op, ss) == LET c == Composite([i \in DOMAIN ss |-> [s |-> ss[i]]], LAMBDA y : Apply(sig, op, y, {}))
                   IN TLCEval(SymbolicMap(c.ins, Full, c.row))
Init == sig \in Sigs /\ names \in Binaries \X Binaries \X Unaries /\ subs \in Subs2 \X Subs2
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

P == Factory(names[1], <<Full, Full>>)
Q == Factory(names[2], <<subs[1], subs[2]>>)
U == Factory(names[3], <<subs[1]>>)
SameMap(m, w) == m.ins = w.ins /\ m.out = w.out /\ Len(m.d) = Len(w.d) /\ \A k \in DOMAIN m.d : SameRow(m.d[k], w.d[k])
\* both at once = second axis first = first axis first with the second position shifted
BindOrder == LET m == TLCEval(P) q == TLCEval(Q) u == TLCEval(U)
             IN /\ SameMap(Bound(m, <<0, 1>>, <<q, u>>), Bound(Bound(m, <<1>>, <<u>>), <<0>>, <<q>>))
                /\ SameMap(Bound(m, <<0, 1>>, <<q, u>>), Bound(Bound(m, <<0>>, <<q>>), <<2>>, <<u>>))
                /\ SameMap(Bound(m, <<1, 0>>, <<u, q>>), Bound(m, <<0, 1>>, <<q, u>>))
Batch2(s) == [h |-> <<2>>, d |-> <<[b \in RangeOf(s) |-> b + 1], [b \in RangeOf(s) |-> 2 - b]>>]
Batch1(s) == [h |-> <<>>, d |-> <<[b \in RangeOf(s) |-> b - 1]>>]
Staged == LET q == TLCEval(Q)  x == Batch2(subs[1])  y == Batch1(subs[2])
              whole == CallMap(q, <<x, y>>)
          IN /\ whole = CallMap(PartialMap(q, <<0>>, <<x>>), <<y>>)
             /\ whole = CallMap(PartialMap(q, <<1>>, <<y>>), <<x>>)
             /\ LET z == PartialMap(PartialMap(q, <<1>>, <<y>>), <<0>>, <<x>>) IN \A k \in DOMAIN z.d : Eq(z.d[k][1], whole.d[k])
             /\ LET z == PartialMap(q, <<1, 0>>, <<y, x>>) IN z.h = whole.h /\ \A k \in DOMAIN z.d : Eq(z.d[k][1], whole.d[k])
Restriction == LET q == TLCEval(Q) IN SameMap(Sliced(Sliced(q, <<Full, Full>>), <<subs[1], subs[2]>>), q)
SwapTwice == LET q == TLCEval(Q) IN SameMap(Swapped(Swapped(q, 0, 1), 0, 1), q)
\* the transpose pairs as it should, and twice is the identity
TransposeTwice == LET u == TLCEval(U) IN SameMap(Transposed(Transposed(u)), u)
Symmetrised == LET q == TLCEval(Factory(names[2], <<subs[1], subs[1]>>))
                   s == [q EXCEPT !.d = <<SymSum(q.ins, q.d[1], {1, 2})>>]
               IN /\ SameMap(Swapped(s, 0, 1), s)
                  /\ SymmetryOK(PointRow(q, LAMBDA f : Scale(2, f)), {1, 2}, Squeezed(s))
\* the composite of named operators is the named composite
Derived == LET m == TLCEval(P)
           IN SameRow(Composite(<<[s |-> subs[1]], U>>, LAMBDA y : Apply(sig, names[1], y, {})).row,
                      Bound(m, <<0, 1>>, <<Factory("identity", <<subs[1]>>), U>>).d[1])
=============================================================================
