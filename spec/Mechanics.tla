----------------------------- MODULE Mechanics ------------------------------
(***************************************************************************)
(* Rigid bodies in geometric algebra, in fixed point.  A body is a cloud   *)
(* of points; a rate is a bivector, a momentum its dual.  The inertia map  *)
(* sends a rate to the sum over the points of  p & (p x rate).             *)
(* A motor m takes body to world coordinates as m . ~m, and its motion     *)
(* over a step s (a bivector) is m times the normalised 1 - s / 2.         *)
(***************************************************************************)
EXTENDS Fixed

MToCompl(sig, f, S(_)) ==
    LET I == Pss(sig) IN TLCEval([c \in {I ^^ b : b \in DOMAIN f} |->
        LET b == I ^^ c IN IF S(b) = 1 THEN f[b] ELSE IF S(b) = -1 THEN FNeg(f[b]) ELSE FZ])
MHodge(sig, f) == MToCompl(sig, f, LAMBDA b : NegSign(sig, b) * BladeSign(sig, b, Pss(sig) ^^ b))
MHodgeInv(sig, f) == MToCompl(sig, f, LAMBDA d : LET c == Pss(sig) ^^ d IN NegSign(sig, c) * BladeSign(sig, c, d))
MWedge(sig, A, B) == MBilinear(sig, A, B, LAMBDA a, b, c : Grade(c) = Grade(a) + Grade(b))
MRegr(sig, A, B) == MHodgeInv(sig, MWedge(sig, MHodge(sig, A), MHodge(sig, B)))
MComm(sig, A, B) == MDivInt(MSub(MProduct(sig, A, B), MProduct(sig, B, A)), 2)
MSum(q) == FoldSet(LAMBDA i, acc : MAdd(acc, q[i]), FZero, DOMAIN q)
MAbs(x) == IF Sign(x) < 0 THEN FNeg(x) ELSE x

Inertia(sig, pts, rate) == MSum(TLCEval([i \in DOMAIN pts |-> MRegr(sig, pts[i], MComm(sig, pts[i], rate))]))
Forques(sig, m, rate, damping, gravity, pts) ==
    MAdd(MNeg(MHodge(sig, MProduct(sig, rate, damping))),
         MRegr(sig, MSum(pts), MProduct(sig, MProduct(sig, MReverse(m), gravity), m)))
Gyroscopic(sig, pts, rate) == MComm(sig, Inertia(sig, pts, rate), rate)
\* 1 - s / 2
Step(s) == MSub(FUnit, MDivInt(s, 2))
From(X, i) == SubSeq(X, i, Len(X))
RECURSIVE Powers(_, _, _, _, _)
\* y + y z + y z^2 / 2 + ... + y z^p / p!
Powers(sig, term, z, i, p) == IF i > p THEN term
    ELSE MAdd(term, Powers(sig, MDivInt(MProduct(sig, term, z), i), z, i + 1, p))

\* Two bodies in poses X[1] and X[2] exchange an impulse along the world line F, half the multiplier times F / |F|, where the multiplier
\* times the total compliance is the violation |F|
Impulse(sig, X, R, F, compliance, pts, tol) ==
  LET P(a, b) == MProduct(sig, a, b)
      D(i) == P(P(MReverse(X[i]), F), X[i])
      t == R[3]
      f2 == MKeep(P(F, MReverse(F)), LAMBDA b : b = 0)
      half == Len(pts) \div 2        \* the points of the first body, then those of the second
      I1(q) == Inertia(sig, SubSeq(pts, 1, half), q)
      I2(q) == Inertia(sig, SubSeq(pts, half + 1, Len(pts)), q)
      work == MSub(MRegr(sig, D(1), R[1]), MRegr(sig, D(2), R[2]))
  IN (IF Near(I1(R[1]), P(t, D(1)), tol) /\ Near(I2(R[2]), MNeg(P(t, D(2))), tol) THEN {} ELSE {"opposite impulses along the line"})
     \cup (IF Near(MScaleInt(2, MAdd(work, P(t, P(compliance, f2)))), f2, tol) THEN {} ELSE {"compliance times multiplier = violation"})

MechRow(sig, name, X, R, tol) ==
  LET P(a, b) == MProduct(sig, a, b)
      r == R[1]
      x == X[1]
      Cl(ok, s) == IF ok THEN {} ELSE {s}
      Unitary(m) == Cl(Near(P(m, MReverse(m)), FUnit, tol), "m*~m=1")
      Grade2(f) == Cl(\A b \in DOMAIN f : Grade(b) = 2 \/ Mag(f[b]) <= tol, "bivector")
      SelfRev(f) == \A b \in DOMAIN f : RevSign(b) = 1 \/ Mag(f[b]) <= tol
  IN CASE name = "first_moment" -> Cl(Near(r, MSum(X), tol), "sum of points")
       [] name = "momentum" -> Cl(Near(r, Inertia(sig, From(X, 2), x), tol), "sum of p & (p x rate)")
       [] name = "rate_of" -> Cl(Near(Inertia(sig, From(X, 2), r), x, tol), "inertia of the rate") \cup Grade2(r)
       [] name = "kinetic" -> Cl(Near(r, MRegr(sig, Inertia(sig, From(X, 2), x), x), tol), "momentum & rate")
       [] name = "forques" -> Cl(Near(r, Forques(sig, x, X[2], X[3], X[4], From(X, 5)), tol), "damping and gravity")
       [] name = "euler" -> LET pts == From(X, 5) IN
            Cl(Near(Inertia(sig, pts, r), MSub(Forques(sig, x, X[2], X[3], X[4], pts), Gyroscopic(sig, pts, X[2])), tol), "I(rate') = forque - I(rate) x rate")
            \cup Grade2(r)
       [] name = "add_step" -> Unitary(r) \cup Cl(SelfRev(P(P(MReverse(x), r), MReverse(Step(X[2])))), "~m*r = s*(1-step/2)")
       [] name = "relative_step" -> Grade2(r) \cup Cl(SelfRev(P(P(X[2], MReverse(x)), MReverse(Step(r)))), "new*~old = s*(1-step/2)")
       [] name = "moved" -> \* X: motor before, time step; R: motor after, rate after
            Unitary(r) \cup Cl(SelfRev(P(P(MReverse(x), r), MReverse(Step(P(R[2], X[2]))))), "rate = motion / dt")
       [] name = "conserve" -> \* X: motors; R: changes of momentum in the body frames
            Cl(Small(MSum(TLCEval([i \in DOMAIN R |-> P(P(X[i], R[i]), MReverse(X[i]))])), tol), "total momentum")
       [] name = "impulse_gap" -> \* X: motors, anchors, compliance / dt^2, points; R: steps, impulse per violation
            LET V(i) == P(P(X[i], X[i + 2]), MReverse(X[i])) IN Impulse(sig, X, R, MRegr(sig, V(1), V(2)), X[5], From(X, 6), tol)
       [] name = "impulse_rate" -> \* X: motors, anchors, rates, points; R: steps, impulse per violation
            LET V(i) == P(P(X[i], MRegr(sig, X[i + 2], MComm(sig, X[i + 2], X[i + 4]))), MReverse(X[i]))
            IN Impulse(sig, X, R, MDivInt(MSub(V(2), V(1)), 2), FZero, From(X, 7), tol)
       [] name = "not_more" -> Cl(Sign(FSub(FAdd(MAbs(FAt(x, 0)), <<tol, 0, 0, 0>>), MAbs(FAt(r, 0)))) >= 0, "increased")
       [] name = "rk1_linear" -> Cl(Near(r, Powers(sig, x, P(X[2], X[3]), 1, 1), tol), "y*(1+z)")
       [] name = "rk4_linear" -> Cl(Near(r, Powers(sig, x, P(X[2], X[3]), 1, 4), tol), "y*(1+z+z^2/2+z^3/6+z^4/24)")
       [] name = "rk8_linear" -> Cl(Near(r, Powers(sig, x, P(X[2], X[3]), 1, 7), tol), "power series to order 7")
       [] name = "half_cayley_squared" -> LET q == MDivInt(x, 4) IN
            Cl(Near(P(r, P(MSub(FUnit, q), MSub(FUnit, q))), P(MAdd(FUnit, q), MAdd(FUnit, q)), tol), "((1+b/4)/(1-b/4))^2")
       [] name = "cayley_log" -> LET h == MDivInt(r, 2) IN Grade2(r) \cup Cl(Near(P(x, MSub(FUnit, h)), MAdd(FUnit, h), tol), "m*(1-b/2)=1+b/2")
       [] name = "half_cayley_log" -> LET q == MDivInt(r, 4) IN
            Grade2(r) \cup Cl(Near(P(x, P(MSub(FUnit, q), MSub(FUnit, q))), P(MAdd(FUnit, q), MAdd(FUnit, q)), tol), "m*(1-b/4)^2=(1+b/4)^2")
       [] name = "lie_newmark" -> \* X: motor, rate, rate at mid step, forque, dt / 2, points; R: motor, rate
            LET m == x  r0 == X[2]  rh == X[3]  F == X[4]  h == X[5]  pts == From(X, 6)
                D(q) == P(h, MSub(F, Gyroscopic(sig, pts, q)))
                b == MDivInt(P(h, rh), 2)
            IN Cl(Near(Inertia(sig, pts, rh), MAdd(Inertia(sig, pts, r0), D(r0)), tol), "half step")
               \cup Cl(Near(Inertia(sig, pts, R[2]), MAdd(Inertia(sig, pts, rh), D(R[2])), tol), "implicit half step")
               \cup Cl(Near(P(MSub(FUnit, b), r), P(MAdd(FUnit, b), m), tol), "m' = cayley(rate dt/2) m")
       [] name = "body_rk4" -> \* X: rate, motor, damping, gravity, dt, points; R: the four slopes and the rate after
            LET h == X[5]  pts == From(X, 6)
                last == R[5]
                Slope(k, q) == Near(Inertia(sig, pts, k), MSub(Forques(sig, X[2], q, X[3], X[4], pts), Gyroscopic(sig, pts, q)), tol)
                Halfway(k) == MDivInt(P(h, k), 2)
            IN Cl(Slope(r, x) /\ Slope(R[2], MAdd(x, Halfway(r))) /\ Slope(R[3], MAdd(x, Halfway(R[2]))) /\ Slope(R[4], MAdd(x, P(h, R[3]))), "slopes")
               \cup Cl(Near(MSub(last, x), MDivInt(P(h, MAdd(MAdd(r, R[4]), MScaleInt(2, MAdd(R[2], R[3])))), 6), tol), "rate + dt (k1 + 2 k2 + 2 k3 + k4) / 6")
       [] name = "cayley_step" -> \* X: motor, rate, dt / 2; R: m' = cayley(rate dt / 2) m
            LET b == MDivInt(P(X[3], X[2]), 2) IN Cl(Near(P(MSub(FUnit, b), r), P(MAdd(FUnit, b), x), tol), "m' = cayley(rate dt/2) m")
       [] name = "euler_rk" -> \* X: rate, forque, dt, points; R: the slopes of Euler's or of the classical method, and the rate after
            LET h == X[3]  pts == From(X, 4)
                last == R[Len(R)]
                Slope(k, q) == Near(Inertia(sig, pts, k), MSub(X[2], Gyroscopic(sig, pts, q)), tol)
                Halfway(k) == MDivInt(P(h, k), 2)
            IN IF Len(R) = 2
               THEN Cl(Slope(r, x), "slope") \cup Cl(Near(last, MAdd(x, P(h, r)), tol), "y + h k")
               ELSE Cl(Slope(r, x) /\ Slope(R[2], MAdd(x, Halfway(r))) /\ Slope(R[3], MAdd(x, Halfway(R[2]))) /\ Slope(R[4], MAdd(x, P(h, R[3]))), "slopes")
                    \cup Cl(Near(MSub(last, x), MDivInt(P(h, MAdd(MAdd(r, R[4]), MScaleInt(2, MAdd(R[2], R[3])))), 6), tol), "y + h (k1 + 2 k2 + 2 k3 + k4) / 6")
       [] name = "cga_split" -> \* a point pair and its two points
            LET q == R[2] IN Cl(Small(P(r, r), tol) /\ Small(P(q, q), tol), "null")
              \cup Cl(Small(MWedge(sig, r, x), tol) /\ Small(MWedge(sig, q, x), tol), "inside")
              \cup Cl(~Small(MKeep(P(r, q), LAMBDA b : b = 0), 100 * tol), "distinct")
       [] name = "planar_points" -> \* X: motor, point as a vector (x, y); R: the moved point, likewise
            LET O(v) == LET t == MSub(FUnit, MDivInt(MProduct(sig, [b \in {1} |-> FOne], v), 2))
                        IN P(P(t, [b \in {6} |-> FNeg(FOne)]), MReverse(t))
            IN Cl(Near(P(P(x, O(X[2])), MReverse(x)), O(r), tol), "m >> point")
=============================================================================
