---------------------------- MODULE MCRungeKutta ----------------------------
(* Design level: the tree enumeration, and the order of textbook methods.   *)
EXTENDS RungeKutta
VARIABLE vn
Q(n, d) == FDivInt(FInt(n), d)
Euler == [A |-> <<<<FZ>>>>, b |-> <<FOne>>, p |-> 1]
Midpoint == [A |-> <<<<FZ, FZ>>, <<Q(1, 2), FZ>>>>, b |-> <<FZ, FOne>>, p |-> 2]
Heun2 == [A |-> <<<<FZ, FZ>>, <<FOne, FZ>>>>, b |-> <<Q(1, 2), Q(1, 2)>>, p |-> 2]
Kutta3 == [A |-> <<<<FZ, FZ, FZ>>, <<Q(1, 2), FZ, FZ>>, <<FNeg(FOne), FInt(2), FZ>>>>, b |-> <<Q(1, 6), Q(2, 3), Q(1, 6)>>, p |-> 3]
Kutta4 == [A |-> <<<<FZ, FZ, FZ, FZ>>, <<Q(1, 2), FZ, FZ, FZ>>, <<FZ, Q(1, 2), FZ, FZ>>, <<FZ, FZ, FOne, FZ>>>>,
           b |-> <<Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)>>, p |-> 4]
ThreeEighths == [A |-> <<<<FZ, FZ, FZ, FZ>>, <<Q(1, 3), FZ, FZ, FZ>>, <<FNeg(Q(1, 3)), FOne, FZ, FZ>>, <<FOne, FNeg(FOne), FOne, FZ>>>>,
           b |-> <<Q(1, 8), Q(3, 8), Q(3, 8), Q(1, 8)>>, p |-> 4]
Methods == <<Euler, Midpoint, Heun2, Kutta3, Kutta4, ThreeEighths>>
Catalan == <<1, 1, 2, 5, 14, 42, 132, 429>>
Init == vn \in 1 .. 8
Next == FALSE /\ UNCHANGED vn
Spec == Init /\ [][Next]_vn
TreeCount == Cardinality(TreesOfOrder(vn)) = Catalan[vn] /\ \A t \in TreesOfOrder(vn) : NodesOf(t) = vn
ExactOrder == vn \in DOMAIN Methods =>
    LET m == Methods[vn] IN (\A p \in 1 .. m.p : HasOrder(m.A, m.b, p, 40)) /\ ~HasOrder(m.A, m.b, m.p + 1, 10000)
=============================================================================
