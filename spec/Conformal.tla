----------------------------- MODULE Conformal ------------------------------
(***************************************************************************)
(* The conformal model of a space of signature Front(Front(sig)): two more *)
(* generators p (square 1) and n (square -1) come last.  ni = p + n is the *)
(* point at infinity and no = (n - p) / 2 the origin.  To stay within the  *)
(* integers embeddings are doubled.                                        *)
(*                                                                         *)
(* Also the plane of two dimensional projective algebra, sig = <<0, 1, 1>> *)
(* with generators w, x, y.                                                *)
(***************************************************************************)
EXTENDS Fixed

BladeP(sig) == 2 ^ (Len(sig) - 2)
BladeN(sig) == 2 ^ (Len(sig) - 1)
Euclid(sig) == {2 ^ (i - 1) : i \in 1 .. Len(sig) - 2}
Ni(sig)  == (BladeP(sig) :> 1) @@ (BladeN(sig) :> 1)
No2(sig) == (BladeP(sig) :> -1) @@ (BladeN(sig) :> 1)
\* ni ^ no
NPlane(sig) == (BladeP(sig) + BladeN(sig)) :> 1
Square(sig, x) == At(Product(sig, x, x), 0)
Dot0(sig, x, y) == At(ScalarProd(sig, x, y), 0)
\* twice the sphere of centre x (a vector over Euclid) and radius r
Sphere2(sig, x, r) == Plus(Plus(Scale(Square(sig, x) - (r * r), Ni(sig)), No2(sig)), Scale(2, x))
PositionOf(sig, X) == Keep(X, Euclid(sig))
\* o scaled to X.ni = -1, where that divides; doubled
Normalize2(sig, X) == LET w == -Dot0(sig, X, Ni(sig)) IN TLCEval([b \in DOMAIN X |-> (2 * X[b]) \div w])

CgaDenotes(sig, op, X, p) ==
  CASE op = "ni" -> Ni(sig)
    [] op = "no2" -> No2(sig)
    [] op = "N" -> NPlane(sig)
    [] op = "embed2" -> Sphere2(sig, X, p)
    [] op = "position" -> PositionOf(sig, X)
    [] op = "normalize2" -> Normalize2(sig, X)
    [] op = "plane" -> X
    \* w, x, y are blades 1, 2, 4: twice the translator by a vector
    [] op = "translator2" -> Plus(Scalar(2), Scale(-1, Product(sig, Unit(1), X)))
    \* points are drawn by translating the origin yx; four times that
    [] op = "point" -> LET t == Plus(Scalar(2), Scale(-1, Product(sig, Unit(1), X)))
                       IN Product(sig, Product(sig, t, Scale(-1, Unit(6))), Reverse(t))
=============================================================================
