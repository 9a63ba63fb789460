----------------------------- MODULE RungeKutta -----------------------------
(***************************************************************************)
(* One step of an explicit Runge-Kutta method as observed from outside: it *)
(* evaluates the vector field at stages                                    *)
(*     Y_i = y + h (a_i1 k_1 + ... + a_ij k_j),  j < i,   k_i = f(Y_i)     *)
(* and returns y + h (b_1 k_1 + ... + b_s k_s).  By Butcher's theorem the  *)
(* method has order p for every smooth vector field exactly if for every   *)
(* rooted tree t of at most p nodes  sum_i b_i Phi_i(t) = 1 / gamma(t).    *)
(* A tree is the sequence of the subtrees of its root (equal trees drawn   *)
(* differently give the same condition), so a tree of n nodes is a forest  *)
(* of n - 1 nodes.  Coefficients are fixed point numbers.                  *)
(***************************************************************************)
EXTENDS Fixed

RECURSIVE ForestsRec(_)
ForestsRec(n) == IF n = 0 THEN {<<>>}
                 ELSE UNION {{<<t>> \o f : t \in ForestsRec(k - 1), f \in ForestsRec(n - k)} : k \in 1 .. n}
MaxOrder == 8
ForestTab == TLCEval([n \in 0 .. MaxOrder - 1 |-> ForestsRec(n)])
TreesOfOrder(p) == ForestTab[p - 1]

RECURSIVE NodesOf(_), NodesIn(_), Density(_), Densities(_)
NodesOf(t) == 1 + NodesIn(t)
NodesIn(f) == IF f = <<>> THEN 0 ELSE NodesOf(f[1]) + NodesIn(Tail(f))
Density(t) == NodesOf(t) * Densities(t)
Densities(f) == IF f = <<>> THEN 1 ELSE Density(f[1]) * Densities(Tail(f))

\* sum_j a_j w_j
Dot(a, w) == Round(FoldSet(LAMBDA j, acc : IF a[j] = FZ THEN acc ELSE Acc(acc, 1, a[j], w[j]), Acc0, DOMAIN a))
Through(A, w) == TLCEval([i \in DOMAIN A |-> Dot(A[i], w)])
\* the elementary weights of a tree at every stage
RECURSIVE Stages(_, _)
Stages(A, f) ==
    IF f = <<>> THEN [i \in DOMAIN A |-> FOne]
    ELSE LET x == TLCEval(Through(A, Stages(A, f[1])))
             r == TLCEval(Stages(A, Tail(f)))
         IN IF Tail(f) = <<>> THEN x ELSE TLCEval([i \in DOMAIN A |-> FMul(x[i], r[i])])
Defect(A, b, t) == Mag(FSub(Dot(b, Stages(A, t)), FDivInt(FOne, Density(t))))
HasOrder(A, b, p, tol) == \A t \in TreesOfOrder(p) : Defect(A, b, t) <= tol

Explicit(A) == \A i \in DOMAIN A : \A j \in DOMAIN A : j >= i => A[i][j] = FZ
\* ev: A, b; y: the weights of y in every stage and in the result; order, tol;
\* soft: how closely the conditions of one order higher hold
RKClausesOf(ev) ==
    (IF \A i \in DOMAIN ev.y : ev.y[i] = FOne THEN {} ELSE {"weight of the state"})
    \cup (IF Explicit(ev.A) THEN {} ELSE {"not explicit"})
    \cup {"order " \o ToString(p) : p \in {p \in 1 .. ev.order : ~HasOrder(ev.A, ev.b, p, ev.tol)}}
    \cup (IF "soft" \notin DOMAIN ev \/ HasOrder(ev.A, ev.b, ev.order + 1, ev.soft) THEN {} ELSE {"error of the next order"})
\* a method known to differ from what it is meant to be in one coefficient, ev.slip = <<stage, column, what it is, what it should be>>:
\* that difference, and what is wrong with the method otherwise
RKClauses(ev) ==
    IF "slip" \notin DOMAIN ev \/ ev.slip[1] \notin DOMAIN ev.A \/ Mag(FSub(ev.A[ev.slip[1]][ev.slip[2]], ev.slip[3])) > ev.tol THEN RKClausesOf(ev)
    ELSE {"one coefficient of " \o ev.name} \cup RKClausesOf([ev EXCEPT !.A = [ev.A EXCEPT ![ev.slip[1]] = [@ EXCEPT ![ev.slip[2]] = ev.slip[4]]]])
=============================================================================
