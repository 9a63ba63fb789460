------------------------------ MODULE BatchOps ------------------------------
(***************************************************************************)
(* Operations on the batch axes of a multivector: indexing, reshaping,     *)
(* concatenation, reductions, axis rearrangement, gathering and functional *)
(* update.  A batch is a row-major list d of coefficient functions with    *)
(* shape h; every operation is defined by where each result row comes      *)
(* from, so the coefficient functions themselves (the component axis) are  *)
(* only ever moved as a whole or summed.                                   *)
(***************************************************************************)
EXTENDS Batch

Front1(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Unflat(_, _)
Unflat(h, k) == IF h = <<>> THEN <<>>
                ELSE LET n == h[Len(h)] IN Append(Unflat(Front1(h), k \div n), k % n)
RECURSIVE Flat(_, _)
Flat(h, m) == IF h = <<>> THEN 0 ELSE Flat(Front1(h), Front1(m)) * h[Len(h)] + m[Len(m)]

\* value with shape h whose row at multi-index m is F(m)
Tabulate(h, F(_)) == [h |-> h, d |-> TLCEval([k \in 1 .. NRows(h) |-> F(Unflat(h, k - 1))])]
At0(v, m) == v.d[Flat(v.h, m) + 1]

------------------------------------------------------------------------------
(* Indexing.  Items: [t |-> "i", n], [t |-> "s", a, b, c] (a, b optional),  *)
(* [t |-> "n"] new axis, [t |-> "a", v] index array, [t |-> "m", v] mask    *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Wrap(x, n) == IF x < 0 THEN x + n ELSE x
RECURSIVE Steps(_, _, _)
Steps(a, b, c) == IF (c > 0 /\ a >= b) \/ (c < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o Steps(a + c, b, c)
SliceOf(it, n) ==
    LET c == it.c
        lo == IF c > 0 THEN 0 ELSE -1
        hi == IF c > 0 THEN n ELSE n - 1
        a == IF "a" \in DOMAIN it THEN Clamp(Wrap(it.a, n), lo, hi) ELSE IF c > 0 THEN 0 ELSE n - 1
        b == IF "b" \in DOMAIN it THEN Clamp(Wrap(it.b, n), lo, hi) ELSE IF c > 0 THEN n ELSE -1
    IN Steps(a, b, c)
Positions(it, n) ==
    CASE it.t = "i" -> <<Wrap(it.n, n)>>
      [] it.t = "s" -> SliceOf(it, n)
      [] it.t = "a" -> [k \in DOMAIN it.v |-> Wrap(it.v[k], n)]
      [] it.t = "m" -> SelectSeq([k \in 1 .. n |-> k - 1], LAMBDA k : it.v[k + 1] = 1)
\* number of source axes an index consumes before item k
RECURSIVE Consumed0(_, _)
Consumed0(idx, k) == IF k = 0 THEN 0 ELSE Consumed0(idx, k - 1) + (IF idx[k].t = "n" THEN 0 ELSE 1)
IndexPlan(idx, h) ==   \* items paired with source axes, missing axes taken whole
    LET used == Consumed0(idx, Len(idx))
        items == [k \in 1 .. Len(idx) |-> [it |-> idx[k], ax |-> Consumed0(idx, k)]]
        rest == [k \in 1 .. Len(h) - used |-> [it |-> [t |-> "s", c |-> 1], ax |-> used + k]]
    IN items \o rest
Index(v, idx) ==
    LET plan == IndexPlan(idx, v.h)
        kept == SelectSeq(plan, LAMBDA p : p.it.t # "i")
        pos  == TLCEval([k \in DOMAIN plan |-> IF plan[k].it.t = "n" THEN <<0>> ELSE Positions(plan[k].it, v.h[plan[k].ax])])
        \* output axis of each plan item
        OutAx(k) == Cardinality({j \in 1 .. k : plan[j].it.t # "i"})
        \* lengths in order of the kept items
        Order == SelectSeq([k \in DOMAIN plan |-> k], LAMBDA k : plan[k].it.t # "i")
        h == [j \in DOMAIN Order |-> Len(pos[Order[j]])]
        PlanOf(ax) == CHOOSE k \in DOMAIN plan : plan[k].it.t # "n" /\ plan[k].ax = ax
        Src(m) == [ax \in DOMAIN v.h |-> LET k == PlanOf(ax)
                     IN IF plan[k].it.t = "i" THEN pos[k][1] ELSE pos[k][m[OutAx(k)] + 1]]
    IN Tabulate(h, LAMBDA m : At0(v, Src(m)))

\* functional update: rows addressed by idx take the (broadcast) rows of w
SetAt(v, idx, w) ==
    LET addr == [h |-> v.h, d |-> [k \in DOMAIN v.d |-> k]]
        sel  == Index(addr, idx)
        new  == [k \in DOMAIN sel.d |-> RowAt(w, sel.h, k - 1)]
        hit  == RangeOf(sel.d)
    IN [h |-> v.h, d |-> TLCEval([k \in DOMAIN v.d |->
            IF k \in hit THEN new[CHOOSE j \in DOMAIN sel.d : sel.d[j] = k /\ \A i \in DOMAIN sel.d : sel.d[i] = k => i <= j]
            ELSE v.d[k]])]

------------------------------------------------------------------------------
\* one length may be -1
ReshapeTo(v, sh) ==
    LET known == NRows(SelectSeq(sh, LAMBDA n : n # -1))
        h == [k \in DOMAIN sh |-> IF sh[k] = -1 THEN NRows(v.h) \div known ELSE sh[k]]
    IN [h |-> h, d |-> v.d]
Concat(v, w, ax) ==   \* ax counted from 0
    LET n == v.h[ax + 1]
        h == [v.h EXCEPT ![ax + 1] = n + w.h[ax + 1]]
    IN Tabulate(h, LAMBDA m : IF m[ax + 1] < n THEN At0(v, m) ELSE At0(w, [m EXCEPT ![ax + 1] = @ - n]))
DropAxes(s, A) == LET keep == SelectSeq([k \in DOMAIN s |-> k], LAMBDA k : (k - 1) \notin A)
                  IN [j \in DOMAIN keep |-> s[keep[j]]]
SumRows(S) == FoldSet(LAMBDA k, acc : Plus(acc, S[k]), Zero, DOMAIN S)
SumOver(v, A) ==
    LET h == DropAxes(v.h, A)
        ms == TLCEval([k \in DOMAIN v.d |-> DropAxes(Unflat(v.h, k - 1), A)])
    IN Tabulate(h, LAMBDA m : LET hit == {k \in DOMAIN v.d : ms[k] = m} IN FoldSet(LAMBDA k, acc : Plus(acc, v.d[k]), Zero, hit))
Divide(v, n) == [h |-> v.h, d |-> [k \in DOMAIN v.d |-> TLCEval([b \in DOMAIN v.d[k] |-> v.d[k][b] \div n])]]
MeanOver(v, A) == Divide(SumOver(v, A), FoldSet(LAMBDA ax, acc : acc * v.h[ax + 1], 1, A))

(* Axis patterns: both sides are sequences of groups of axis names; sizes    *)
(* gives the length of every name.                                           *)
GroupLen(g, sizes) == NRows([k \in DOMAIN g |-> sizes[g[k]]])
Rearrange(v, from, to, sizes) ==
    LET h == [k \in DOMAIN to |-> GroupLen(to[k], sizes)]
        \* name -> value, from a multi-index over the groups `to`
        NameIn(side, m, nm) ==
            LET g == CHOOSE g \in DOMAIN side : \E j \in DOMAIN side[g] : side[g][j] = nm
                j == CHOOSE j \in DOMAIN side[g] : side[g][j] = nm
            IN Unflat([i \in DOMAIN side[g] |-> sizes[side[g][i]]], m[g])[j]
        Src(m) == [g \in DOMAIN from |-> Flat([i \in DOMAIN from[g] |-> sizes[from[g][i]]],
                                              [i \in DOMAIN from[g] |-> NameIn(to, m, from[g][i])])]
    IN Tabulate(h, LAMBDA m : At0(v, Src(m)))

\* idx: an integer array of shape ih, along axis ax
TakeAlong(v, ih, idx, ax) ==
    LET h == [k \in DOMAIN v.h |-> IF k = ax + 1 THEN ih[k] ELSE MaxI(v.h[k], ih[k])]
        Src(m) == [k \in DOMAIN v.h |-> IF k = ax + 1
                     THEN Wrap(idx[Flat(ih, [j \in DOMAIN ih |-> IF ih[j] = 1 THEN 0 ELSE m[j]]) + 1], v.h[k])
                     ELSE IF v.h[k] = 1 THEN 0 ELSE m[k]]
    IN Tabulate(h, LAMBDA m : At0(v, Src(m)))

\* op on registers x with parameters p
BatchApply(op, x, p) ==
    CASE op = "index" -> Index(x[1], p.idx)
      [] op = "set" -> SetAt(x[1], p.idx, x[2])
      [] op = "reshape" -> ReshapeTo(x[1], p.shape)
      [] op = "flatten" -> ReshapeTo(x[1], <<-1>>)
      [] op = "concatenate" -> Concat(x[1], x[2], p.axis)
      [] op = "sum" -> SumOver(x[1], RangeOf(p.axes))
      [] op = "mean" -> MeanOver(x[1], RangeOf(p.axes))
      [] op \in {"rearrange", "repeat"} -> Rearrange(x[1], p.from, p.to, p.sizes)
      [] op = "take_along_axis" -> TakeAlong(x[1], p.shape, p.idx, p.axis)
      [] op = "copy" -> [h |-> x[1].h, d |-> x[1].d]
      [] op = "stack" -> [h |-> <<Len(x)>> \o x[1].h, d |-> TLCEval([k \in 1 .. Len(x) * Len(x[1].d) |->
                             x[((k - 1) \div Len(x[1].d)) + 1].d[((k - 1) % Len(x[1].d)) + 1]])]
=============================================================================
