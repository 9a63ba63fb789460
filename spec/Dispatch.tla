------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Dispatch on the subspaces of the arguments.  A dispatcher is an ordered *)
(* list of options; calling it runs the first option whose condition       *)
(* accepts the argument subspaces.  Conditions are described by records    *)
(* and evaluated here on the sets of blades of the arguments.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Bit(x) == {i \in 0 .. 15 : (x \div (2 ^ i)) % 2 = 1}
LOCAL GradeOf(b) == Cardinality(Bit(b))
Rng(s) == {s[i] : i \in DOMAIN s}

\* does condition c accept the tuple t of sets of blades?
Accepts(c, t) ==
    CASE c.k = "any" -> TRUE
      [] c.k = "never" -> FALSE
      [] c.k = "arity" -> Len(t) = c.n
      [] c.k = "grades" -> \A i \in DOMAIN t : \A b \in t[i] : GradeOf(b) \in Rng(c.q)
      [] c.k = "inside" -> Len(t) >= c.n /\ t[c.n] \subseteq Rng(c.q)
      [] c.k = "equals" -> Len(t) >= c.n /\ t[c.n] = Rng(c.q)
      [] c.k = "size" -> Len(t) >= c.n /\ Cardinality(t[c.n]) <= c.m
      [] c.k = "same" -> \A i, j \in DOMAIN t : t[i] = t[j]
      [] c.k = "not" -> Len(t) < c.n \/ ~(t[c.n] \subseteq Rng(c.q))

\* where an option goes: appended, or at a position counted from the front or the back, clamped
Place(len, ev) == LET p == IF "pos" \in DOMAIN ev THEN (IF ev.pos < 0 THEN len + ev.pos ELSE ev.pos) ELSE len
                  IN IF p < 0 THEN 0 ELSE IF p > len THEN len ELSE p
Inserted(opts, ev, o) == LET p == Place(Len(opts), ev) IN SubSeq(opts, 1, p) \o <<o>> \o SubSeq(opts, p + 1, Len(opts))

\* index of the first accepting option, 0 when there is none
First(opts, t) == LET hit == {i \in DOMAIN opts : Accepts(opts[i].c, t)}
                  IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
\* the implementation that runs, 0 when none matches
Chosen(opts, t) == IF First(opts, t) = 0 THEN 0 ELSE opts[First(opts, t)].f
=============================================================================
