----------------------------- MODULE MCConformal ----------------------------
(* Design level: the laws of the conformal model, for all small points.     *)
EXTENDS Conformal
CONSTANTS MaxN, R
VARIABLES vsig, vx, vy, vr
vars == <<vsig, vx, vy, vr>>
Base == UNION {[1 .. n -> {1, -1, 0}] : n \in 1 .. MaxN}
Vec(sig, c) == [b \in Euclid(sig) |-> c[Gens(b)[1]]]
Coords(sig) == [1 .. Len(sig) - 2 -> (-R) .. R]
Init == /\ vsig \in {b \o <<1, -1>> : b \in Base}
        /\ vx \in {Vec(vsig, c) : c \in Coords(vsig)}
        /\ vy = <<>> /\ vr = 0
Next == /\ vy = <<>>
        /\ vy' \in {Vec(vsig, c) : c \in Coords(vsig)} /\ vr' \in 0 .. 1
        /\ UNCHANGED <<vsig, vx>>
Spec == Init /\ [][Next]_vars
P(a, b) == Product(vsig, a, b)
X == Sphere2(vsig, vx, 0)
Y == Sphere2(vsig, vy, vr)
Seen == vy # <<>>
Null == Square(vsig, X) = 0 /\ Square(vsig, Ni(vsig)) = 0 /\ Square(vsig, No2(vsig)) = 0
Infinity == Dot0(vsig, X, Ni(vsig)) = -2 /\ Dot0(vsig, No2(vsig), Ni(vsig)) = -2 /\ Square(vsig, NPlane(vsig)) = 1
             /\ Eq(Scale(2, NPlane(vsig)), Wedge(vsig, Ni(vsig), No2(vsig)))
Radius == Seen => Square(vsig, Y) = 4 * vr * vr
Distance == Seen => Dot0(vsig, X, Y) = -2 * (Square(vsig, Minus(vx, vy)) - (vr * vr))
Project == Eq(PositionOf(vsig, X), Scale(2, vx)) /\ Eq(P(Wedge(vsig, X, NPlane(vsig)), NPlane(vsig)), PositionOf(vsig, X))
Normal == Eq(Normalize2(vsig, Scale(-3, X)), X)
\* translations 1 - a ni / 2
Translation == Seen => LET T == Minus(Scalar(2), P(vy, Ni(vsig)))
                       IN Eq(P(P(T, X), Reverse(T)), Scale(4, Sphere2(vsig, Plus(vx, vy), 0)))
\* reflection in the sphere of radius vr about vy: S X S = -4 |x-y|^2 times the inverse point, in coordinates
Inversion == Seen =>
    LET d == Minus(vx, vy)  D == Square(vsig, d)
        Z == P(P(Y, X), Y)
    IN /\ Square(vsig, Z) = 0
       /\ Dot0(vsig, Z, Ni(vsig)) = 8 * D
       /\ Eq(PositionOf(vsig, Z), Scale(-8, Plus(Scale(D, vy), Scale(vr * vr, d))))
\* a point pair determines its points: they are the null vectors it contains
Pair == Seen /\ vr = 0 => Eq(Wedge(vsig, X, Wedge(vsig, X, Y)), Zero) /\ Square(vsig, Wedge(vsig, X, Y)) = Dot0(vsig, X, Y) * Dot0(vsig, X, Y)
=============================================================================
