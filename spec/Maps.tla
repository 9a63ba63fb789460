-------------------------------- MODULE Maps --------------------------------
(***************************************************************************)
(* Operators as values: (batches of) multilinear maps.  A map is a record  *)
(*   ins : one sequence of blades per argument                             *)
(*   out : the blades of its declared output                               *)
(*   h   : batch shape (<<>> for symbolic operators)                       *)
(*   d   : per batch element the images of all tuples of argument blades,  *)
(*         in row-major order of the tuple, each a multivector             *)
(* Everything an operator can be built by -- composition, restriction,     *)
(* sums, axis swaps, selections, symmetrisation, partial application and   *)
(* the batch utilities of bound operators -- is defined by evaluating the  *)
(* constituents as functions of multivectors; no kernels are contracted.   *)
(***************************************************************************)
EXTENDS BatchOps
LOCAL MX == INSTANCE SequencesExt

RECURSIVE TupleIdx(_, _, _)
TupleIdx(subs, t, i) == IF i = 0 THEN 0 ELSE TupleIdx(subs, t, i - 1) * Len(subs[i]) + (t[i] - 1)
RECURSIVE TupleAt(_, _, _)
TupleAt(subs, k, i) == IF i = 0 THEN <<>> ELSE Append(TupleAt(subs, k \div Len(subs[i]), i - 1), (k % Len(subs[i])) + 1)
UnitArgs(subs, t) == [i \in DOMAIN subs |-> Unit(subs[i][t[i]])]
Lens(ins) == [i \in DOMAIN ins |-> Len(ins[i])]

\* the value of a map (one batch element: ins, row) on multivectors
RECURSIVE Ev(_, _, _, _, _)
Ev(ins, row, x, i, idx) ==
    IF i > Len(ins) THEN row[idx + 1]
    ELSE FoldSet(LAMBDA j, acc : Plus(acc, Scale(At(x[i], ins[i][j]), Ev(ins, row, x, i + 1, idx * Len(ins[i]) + j - 1))),
                 Zero, {j \in DOMAIN ins[i] : At(x[i], ins[i][j]) # 0})
EvalMap(ins, row, x) == Ev(ins, row, x, 1, 0)

\* the row of a multilinear function F of multivectors with these inputs
RowOf(ins, F(_)) == TLCEval([k \in 1 .. NRows(Lens(ins)) |-> F(UnitArgs(ins, TupleAt(ins, k - 1, Len(ins))))])
SymbolicMap(ins, out, row) == [ins |-> ins, out |-> out, h |-> <<>>, d |-> <<row>>]

------------------------------------------------------------------------------
(* Composition.  Arguments are cut out of the combined argument list.       *)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o ConcatAll(Tail(ss))
\* an argument is a map or a plain input, described by its own inputs
ArgIns(a) == IF "s" \in DOMAIN a THEN <<a.s>> ELSE a.ins
RECURSIVE Offset(_, _)
Offset(as, i) == IF i = 1 THEN 0 ELSE Offset(as, i - 1) + Len(ArgIns(as[i - 1]))
ArgVal(as, i, x) ==
    LET o == Offset(as, i)  a == as[i]
    IN IF "s" \in DOMAIN a THEN x[o + 1] ELSE EvalMap(a.ins, a.d[1], SubSeq(x, o + 1, o + Len(a.ins)))
ArgOut(a) == IF "s" \in DOMAIN a THEN a.s ELSE a.out
\* F of the arguments as (maps or inputs)
Composite(as, F(_)) ==
    LET ins == ConcatAll([i \in DOMAIN as |-> ArgIns(as[i])])
    IN [ins |-> ins, row |-> RowOf(ins, LAMBDA x : F(TLCEval([i \in DOMAIN as |-> ArgVal(as, i, x)])))]
\* bind maps into some axes of map m; axes: sequence of 0-based positions, gs: the maps
Bound(m, axes, gs) ==
    LET as == [i \in DOMAIN m.ins |-> IF \E j \in DOMAIN axes : axes[j] = i - 1
                                      THEN gs[CHOOSE j \in DOMAIN axes : axes[j] = i - 1]
                                      ELSE [s |-> m.ins[i]]]
        c == Composite(as, LAMBDA y : EvalMap(m.ins, m.d[1], y))
    IN SymbolicMap(c.ins, m.out, c.row)

------------------------------------------------------------------------------
(* Restriction, extension, axis permutation, pointwise arithmetic           *)
RestrictTo(f, S) == Keep(f, S)
Sliced(m, subs) ==
    LET n == Len(m.ins)
        ins == [i \in 1 .. n |-> IF i <= Len(subs) THEN subs[i] ELSE m.ins[i]]
        out == IF Len(subs) > n THEN subs[n + 1] ELSE m.out
        inside == [i \in 1 .. n |-> RangeOf(m.ins[i])]
    IN SymbolicMap(ins, out, RowOf(ins, LAMBDA x : RestrictTo(EvalMap(m.ins, m.d[1], x), RangeOf(out))))
SwapSeq(s, a, b) == [s EXCEPT ![a + 1] = s[b + 1], ![b + 1] = s[a + 1]]
Swapped(m, a, b) == LET ins == SwapSeq(m.ins, a, b)
                    IN SymbolicMap(ins, m.out, RowOf(ins, LAMBDA x : EvalMap(m.ins, m.d[1], SwapSeq(x, a, b))))
PointRow(m, F(_)) == [m EXCEPT !.d = [k \in DOMAIN m.d |-> TLCEval([t \in DOMAIN m.d[k] |-> F(m.d[k][t])])]]
AddRows(r, s) == TLCEval([t \in DOMAIN r |-> Plus(r[t], s[t])])
DivFn(f, n) == TLCEval([b \in DOMAIN f |-> f[b] \div n])
Added(m, w, c) == [m EXCEPT !.d = <<AddRows(m.d[1], [t \in DOMAIN w.d[1] |-> Scale(c, w.d[1][t])])>>]
RowSupport(row) == UNION {Support(row[t]) : t \in DOMAIN row}
Squeezed(m) == [m EXCEPT !.out = SelectSeq(m.out, LAMBDA b : b \in UNION {RowSupport(m.d[k]) : k \in DOMAIN m.d})]

(* grade selection: formulas over the grades of the inputs and of the output *)
Formula(f, gs, o) ==
    CASE f.k = "out" -> o \in RangeOf(f.q)
      [] f.k = "sum" -> o = FoldSet(LAMBDA i, acc : acc + gs[i], 0, DOMAIN gs)
      [] f.k = "arg" -> gs[f.n] \in RangeOf(f.q)
      [] f.k = "below" -> \A i \in DOMAIN gs : gs[i] <= o
      [] f.k = "last" -> o = gs[Len(gs)]
      [] f.k = "parity" -> (o + gs[1]) % 2 = 0
GradeSelected(m, f) ==
    LET sel == SymbolicMap(m.ins, m.out, [k \in DOMAIN m.d[1] |->
            LET t == TupleAt(m.ins, k - 1, Len(m.ins))
                gs == [i \in DOMAIN m.ins |-> Grade(m.ins[i][t[i]])]
            IN Keep(m.d[1][k], {b \in DOMAIN m.d[1][k] : Formula(f, gs, Grade(b))})])
    IN Squeezed([sel EXCEPT !.d = TLCEval(sel.d)])

\* the argument at `axis` becomes the sum of all blades of its input
SumOfBlades(s) == TLCEval([b \in RangeOf(s) |-> 1])
SummedArg(m, axis) ==
    LET ins == SubSeq(m.ins, 1, axis) \o SubSeq(m.ins, axis + 2, Len(m.ins))
    IN Squeezed(SymbolicMap(ins, m.out, RowOf(ins, LAMBDA x :
          EvalMap(m.ins, m.d[1], SubSeq(x, 1, axis) \o <<SumOfBlades(m.ins[axis + 1])>> \o SubSeq(x, axis + 1, Len(x))))))

PermsOn(T, n) == IF T = {} THEN {[i \in 1 .. n |-> i]}
                 ELSE {[i \in 1 .. n |-> IF i \in T THEN f[i] ELSE i] : f \in {g \in [T -> T] : \A x, y \in T : x # y => g[x] # g[y]}}
\* sum over the permutations of the arguments in T (1-based)
SymSum(ins, row, T) ==
    RowOf(ins, LAMBDA x : FoldSet(LAMBDA p, acc : Plus(acc, EvalMap(ins, row, [i \in DOMAIN x |-> x[p[i]]])), Zero, PermsOn(T, Len(ins))))
SameRow(r, s) == Len(r) = Len(s) /\ \A t \in DOMAIN r : Eq(r[t], s[t])
\* what symmetry(T) may return for the map m: its polarisation is kept, the output is trimmed, and when the
\* symmetrised map has integer coefficients it is the symmetrised map itself
SymmetryOK(m, T, rec) ==
    LET want == SymSum(m.ins, m.d[1], T)
        nP == Cardinality(PermsOn(T, Len(m.ins)))
        whole == \A t \in DOMAIN want : \A b \in DOMAIN want[t] : want[t][b] % nP = 0
    IN /\ rec.ins = m.ins
       /\ Len(rec.d) = 1
       /\ SameRow(SymSum(rec.ins, rec.d[1], T), want)
       /\ whole => SameRow(rec.d[1], [t \in DOMAIN want |-> DivFn(want[t], nP)])
       /\ RangeOf(rec.out) = RowSupport(want)

------------------------------------------------------------------------------
(* Batches of maps: partial application and the utilities of bound operators *)
Elem(m, k) == m.d[k]
BatchedMap(hs, ins, out, F(_)) ==   \* F: flat output index (0-based) -> row
    LET h == BShape(hs) IN [ins |-> ins, out |-> out, h |-> h, d |-> TLCEval([k \in 1 .. NRows(h) |-> F([h |-> h, k |-> k - 1])])]
Drop(s, A) == LET keep == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : (i - 1) \notin A) IN [j \in DOMAIN keep |-> s[keep[j]]]
\* position of argument i among those not in A
Rank(i, A) == Cardinality({j \in 1 .. i : (j - 1) \notin A})
PartialMap(m, axes, xs) ==
    LET A == RangeOf(axes)
        ins == Drop(m.ins, A)
        Pos(i) == CHOOSE j \in DOMAIN axes : axes[j] = i - 1
    IN BatchedMap(<<m.h>> \o [j \in DOMAIN xs |-> xs[j].h], ins, m.out,
         LAMBDA o : LET row == RowAt(m, o.h, o.k)
                        vals == TLCEval([j \in DOMAIN xs |-> RowAt(xs[j], o.h, o.k)])
                    IN RowOf(ins, LAMBDA y : EvalMap(m.ins, row,
                         TLCEval([i \in DOMAIN m.ins |-> IF i - 1 \in A THEN vals[Pos(i)] ELSE y[Rank(i, A)]]))))
\* value of a batched map on batched multivectors
CallMap(m, xs) ==
    LET h == BShape(<<m.h>> \o [j \in DOMAIN xs |-> xs[j].h])
    IN [h |-> h, d |-> TLCEval([k \in 1 .. NRows(h) |->
         EvalMap(m.ins, RowAt(m, h, k - 1), TLCEval([j \in DOMAIN xs |-> RowAt(xs[j], h, k - 1)]))])]
\* the operator `op` with all but one argument fixed to batched multivectors
FixedArgs(sig, op, v, args, q) ==   \* args: sequence of registers, or <<>> at the free positions
    LET hs == SelectSeq(args, LAMBDA a : a # <<>>)
        free == {i \in DOMAIN args : args[i] = <<>>}
    IN [h |-> BShape([j \in DOMAIN hs |-> hs[j].h]),
        d |-> LET h == BShape([j \in DOMAIN hs |-> hs[j].h])
              IN TLCEval([k \in 1 .. NRows(h) |->
                   RowOf(<<v>>, LAMBDA y : Apply(sig, op, TLCEval([i \in DOMAIN args |-> IF i \in free THEN y[1] ELSE RowAt(args[i], h, k - 1)]), q))])]
\* sums over batch axes: which source elements make up each result element
SumMaps(m, A) ==
    LET src == SumOver([h |-> m.h, d |-> [k \in DOMAIN m.d |-> Unit(k)]], A)
    IN [m EXCEPT !.h = src.h,
                 !.d = TLCEval([k \in DOMAIN src.d |-> [t \in 1 .. NRows(Lens(m.ins)) |->
                          FoldSet(LAMBDA j, acc : Plus(acc, m.d[j][t]), Zero, Support(src.d[k]))]])]
\* <T(y), x> = <y, m(x)> for the component-wise pairing
Transposed(m) ==
    [ins |-> <<m.out>>, out |-> m.ins[1], h |-> m.h,
     d |-> TLCEval([k \in DOMAIN m.d |-> [j \in DOMAIN m.out |->
            [b \in RangeOf(m.ins[1]) |-> At(m.d[k][CHOOSE i \in DOMAIN m.ins[1] : m.ins[1][i] = b], m.out[j])]]])]
MapBatch(op, x, p) ==
    LET m == x[1]
        r == CASE op = "index" -> Index(m, p.idx)
               [] op = "set" -> SetAt(m, p.idx, x[2])
               [] op = "concatenate" -> Concat(m, x[2], p.axis)
    IN [m EXCEPT !.h = r.h, !.d = r.d]

------------------------------------------------------------------------------
(* The map an event denotes: ev.op on registers x with parameters p         *)
SortedSeq(S) == MX!SetToSortSeq(S, <)
MapDenotes(sig, op, x, p) ==
    CASE op = "bind" -> Bound(x[1], p.axes, Tail(x))
      [] op = "fuse" -> Bound(x[2], <<p.axis>>, <<x[1]>>)
      [] op \in {"slice", "deslice"} -> Sliced(x[1], p.subs)
      [] op = "add" -> Added(x[1], x[2], 1)
      [] op = "sub" -> Added(x[1], x[2], -1)
      [] op = "neg" -> PointRow(x[1], LAMBDA f : Scale(-1, f))
      [] op = "mul" -> PointRow(x[1], LAMBDA f : Scale(p.n, f))
      [] op = "div" -> PointRow(x[1], LAMBDA f : DivFn(f, p.n))
      [] op = "swapaxes" -> Swapped(x[1], p.i, p.j)
      [] op = "select" -> [PointRow(x[1], LAMBDA f : Keep(f, RangeOf(p.out))) EXCEPT !.out = p.out]
      [] op = "squeeze" -> Squeezed(x[1])
      [] op = "grade_selection" -> GradeSelected(x[1], p.f)
      [] op = "sum_arg" -> SummedArg(x[1], p.axis)
      [] op = "partial" -> PartialMap(x[1], p.axes, Tail(x))
      [] op \in {"index", "set", "concatenate"} -> MapBatch(op, x, p)
      [] op = "sum" -> SumMaps(x[1], RangeOf(p.axes))
      [] op = "transpose" -> Transposed(x[1])
      [] op = "same" -> x[1]
=============================================================================
