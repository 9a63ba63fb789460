----------------------------- MODULE NumgaTrace -----------------------------
(***************************************************************************)
(* Trace validation: every recorded session of the real library must be a  *)
(* behaviour of the specification.  A session fixes an algebra and runs    *)
(* events against registers; the specification computes each result from   *)
(* its own registers (never from what the library returned earlier), so a  *)
(* hidden dependence on history or a mutated operand shows as a mismatch.  *)
(* The verdict is total: every event is consumed, mismatching clauses are  *)
(* printed, and the specification continues from its own value.            *)
(***************************************************************************)
EXTENDS BatchOps, Maps, Reals, Subspaces, Dispatch, Names, Conformal, Matrices, RungeKutta, Json, IOUtils
LOCAL SX == INSTANCE SequencesExt

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid,   \* session
          l,     \* next event
          regs,  \* register -> batched multivector, or subspace
          pool,  \* the subspace objects seen: <<algebra, set of blades, object>>
          memo   \* what was computed before: key -> [t |-> type, x |-> value]
vars == <<sid, l, regs, pool, memo>>

Sig == Sessions[sid].sig
Evs == Sessions[sid].ev
Has(r, f) == f \in DOMAIN r
\* sessions may run over several algebras
SigOf(ev) == IF Has(ev, "g") THEN Sessions[sid].sigs[ev.g] ELSE Sig

Args(ev) == [i \in DOMAIN ev.a |-> regs[ev.a[i]]]
\* optional parameter: a set of blades or grades
Par(ev) == IF Has(ev, "q") THEN RangeOf(ev.q) ELSE {}

------------------------------------------------------------------------------
(* An operation on registers: shape, coefficients and coverage *)
OpExpected(ev) == MapOp(SigOf(ev), ev.op, Args(ev), Par(ev))
\* the declared subspace of the result, where the operation fixes it
SubClause(ev) ==
    IF ~Has(ev, "sub") \/ Has(ev.v, "err") THEN {}
    ELSE LET S == RangeOf(ev.v.s)
             A(i) == RangeOf(regs[ev.a[i]].s)
             want == CASE ev.sub = "union" -> A(1) \cup A(2)
                       [] ev.sub = "same" -> A(1)
                       [] ev.sub = "select" -> Par(ev)
                       [] ev.sub = "restrict" -> Par(ev) \cap A(1)
         IN IF S = want THEN {} ELSE {"subspace"}
ValueClauses(exp, v) ==
    IF Has(v, "err") THEN {"raised"}
    ELSE LET rec == Decode(v)
         IN (IF rec.h # exp.h THEN {"shape"} ELSE {})
            \cup (IF Len(rec.d) # Len(exp.d) THEN {"rows"}
                  ELSE IF RowsEq(rec.d, exp.d) THEN {} ELSE {"value"})

\* what the register holds afterwards: the specification's coefficients on the
\* recorded subspace
Stored(exp, v) == [s |-> IF Has(v, "s") THEN v.s ELSE SX!SetToSortSeq(UNION {DOMAIN exp.d[k] : k \in DOMAIN exp.d}, <),
                   h |-> exp.h, d |-> exp.d]

------------------------------------------------------------------------------
(* Kernel of an operator on all tuples of basis blades of its input         *)
(* subspaces; tied arguments are compared after symmetrisation.             *)
PermsTab == TLCEval([T \in {{}, {1, 2}, {1, 3}, {1, 2, 3}, {1, 2, 3, 4}}, n \in 1 .. 4 |->
                      IF \A x \in T : x <= n THEN PermsOn(T, n) ELSE {}])
\* one representative per orbit of tied positions: ascending indices
Canonical(t, T) == \A x, y \in T : x < y => t[x] <= t[y]
SumFns(S, F(_)) == FoldSet(LAMBDA p, acc : Plus(acc, F(p)), Zero, S)

KernelClauses(ev) ==
    LET subs == ev.subs
        n    == Len(subs)
        T    == Ties(ev.op)
        perms == PermsTab[T, n]
        total == NRows([i \in 1 .. n |-> Len(subs[i])])
        q    == Par(ev)
        canon == {t \in {TupleAt(subs, k, n) : k \in 0 .. total - 1} : Canonical(t, T)}
        Exp(t) == IF T = {} THEN Apply(Sig, ev.op, UnitArgs(subs, t), q)
                  ELSE SumFns(perms, LAMBDA p : Apply(Sig, ev.op, UnitArgs(subs, [i \in 1 .. n |-> t[p[i]]]), q))
        Rec(t) == IF T = {} THEN RowFn(ev.rows[TupleIdx(subs, t, n) + 1])
                  ELSE SumFns(perms, LAMBDA p : RowFn(ev.rows[TupleIdx(subs, [i \in 1 .. n |-> t[p[i]]], n) + 1]))
        exps == TLCEval([t \in canon |-> Exp(t)])
        tight == UNION {Support(exps[t]) : t \in canon}
        \* an operator with every tied argument equal is zero on a blade iff its polarisation is
    IN IF Has(ev, "err") THEN {"raised"}
       ELSE IF Len(ev.rows) # total THEN {"rows"}
       ELSE (IF \A t \in canon : Eq(exps[t], Rec(t)) THEN {} ELSE {"kernel"})
            \cup (IF tight \subseteq RangeOf(ev.s) THEN {} ELSE {"subspace-lost"})
            \cup (IF ev.tight # 1 \/ RangeOf(ev.s) \subseteq tight THEN {} ELSE {"subspace-not-tight"})
            \cup (IF ev.tight # 2 \/ RangeOf(ev.s) = q THEN {} ELSE {"subspace-selected"})
            \* every symbolic route to the result subspace gives the computed one
            \cup (IF ~Has(ev, "sym") \/ \A i \in DOMAIN ev.sym : ev.sym[i] = ev.s THEN {} ELSE {"symbolic-subspace"})

------------------------------------------------------------------------------
Report(cl) == IF cl = {} THEN TRUE
              ELSE PrintT("BAD " \o ToString(sid) \o " " \o ToString(l) \o " " \o ToString(cl))

Init == /\ sid \in 1 .. Len(Sessions)
        /\ l = 1
        /\ regs = <<>>
        /\ pool = {}
        /\ memo = <<>>

Put(r, v) == regs' = (r :> v) @@ regs

New == LET ev == Evs[l] IN
       /\ ev.e = "new"
       /\ Put(ev.r, Decode(ev.v))
Op ==  LET ev == Evs[l] IN
       /\ ev.e = "op"
       /\ LET exp == OpExpected(ev) IN
          /\ Report(ValueClauses(exp, ev.v) \cup SubClause(ev))
          /\ IF Has(ev, "r") THEN Put(ev.r, Stored(exp, ev.v)) ELSE UNCHANGED regs
Bat == LET ev == Evs[l] IN
       /\ ev.e = "bat"
       /\ LET exp == BatchApply(ev.op, Args(ev), ev.p) IN
          /\ Report(ValueClauses(exp, ev.v) \cup SubClause(ev))
          /\ IF Has(ev, "r") THEN Put(ev.r, Stored(exp, ev.v)) ELSE UNCHANGED regs
Kernel == LET ev == Evs[l] IN
       /\ ev.e = "kern"
       /\ Report(KernelClauses(ev))
       /\ UNCHANGED regs
\* a subspace reached by a symbolic and a concrete route: same blades, same object
EqSub == LET ev == Evs[l] IN
       /\ ev.e = "eqsub"
       /\ Report((IF ev.s = ev.t THEN {} ELSE {"symbolic-subspace"}) \cup (IF ev.same = 1 THEN {} ELSE {"identity"}))
       /\ UNCHANGED regs
\* a real-valued function against its defining relation
Rel == LET ev == Evs[l] IN
       /\ ev.e = "rel"
       /\ Report(RelClauses(SigOf(ev), ev))
       /\ UNCHANGED regs
\* a subspace object: right blades in canonical order, one object per set of blades
AlgOf(ev) == IF Has(ev, "g") THEN ev.g ELSE 1
Sub == LET ev == Evs[l] IN
       /\ ev.e = "sub"
       /\ LET want == TLCEval(SubDenotes(SigOf(ev), ev.op, Args(ev), ev.p))
              S == TLCEval(IF Has(ev.v, "b") THEN RangeOf(ev.v.b) ELSE {})
          IN /\ Report(IF Has(ev.v, "err") THEN {"raised"}
                       ELSE (IF S = want THEN {} ELSE {"blades"})
                            \cup (IF Canonical1(ev.v.b) THEN {} ELSE {"order"})
                            \cup (IF \A o \in pool : (o[3] = ev.v.t) = (o[1] = AlgOf(ev) /\ o[2] = S) THEN {} ELSE {"identity"}))
             /\ IF Has(ev, "r") THEN Put(ev.r, want) ELSE UNCHANGED regs
             /\ pool' = IF Has(ev.v, "err") THEN pool ELSE pool \cup {<<AlgOf(ev), S, ev.v.t>>}
Pred == LET ev == Evs[l] IN
       /\ ev.e = "pred"
       /\ Report(IF Has(ev.v, "n")
                 THEN LET want == PredDenotes(SigOf(ev), ev.op, Args(ev), ev.p)
                      IN IF ev.v.n = want THEN {} ELSE {IF want = -1 THEN "not-refused" ELSE "predicate"}
                 ELSE IF Has(ev.v, "q") THEN IF SeqOK(SigOf(ev), ev.op, regs[ev.a[1]], ev.p, ev.v.q) THEN {} ELSE {"sequence"}
                 ELSE {"raised"})
       /\ UNCHANGED regs
\* operators as values
DecodeMap(v) == [ins |-> v.ins, out |-> v.out, h |-> v.h, d |-> TLCEval([k \in DOMAIN v.d |-> [t \in DOMAIN v.d[k] |-> RowFn(v.d[k][t])]])]
MapClauses(exp, rec) ==
    (IF rec.ins = exp.ins THEN {} ELSE {"inputs"})
    \cup (IF exp.out = <<>> \/ rec.out = exp.out THEN {} ELSE {"output"})
    \cup (IF rec.h = exp.h THEN {} ELSE {"shape"})
    \cup (IF rec.ins = exp.ins /\ Len(rec.d) = Len(exp.d)
          THEN IF \A k \in DOMAIN exp.d : SameRow(rec.d[k], exp.d[k]) THEN {} ELSE {"map"}
          ELSE {"rows"})
MapArgs(ev) == [i \in DOMAIN ev.p.args |-> IF Has(ev.p.args[i], "s") THEN ev.p.args[i] ELSE regs[ev.p.args[i].r]]
\* an operator of the library built from subspaces and operators
FactoryClauses(ev, rec) ==
    LET as == TLCEval(MapArgs(ev))
        c == Composite(as, LAMBDA y : Apply(Sig, ev.p.name, y, Par(ev)))
        T == Ties(ev.p.name)
        row == IF T = {} THEN c.row ELSE SymSum(c.ins, c.row, T)
    IN (IF rec.ins = c.ins THEN {} ELSE {"inputs"})
       \cup (IF rec.ins # c.ins THEN {} ELSE IF SameRow(IF T = {} THEN rec.d[1] ELSE SymSum(rec.ins, rec.d[1], T), row) THEN {} ELSE {"map"})
       \cup (IF RowSupport(row) \subseteq RangeOf(rec.out) THEN {} ELSE {"output"})
Oper == LET ev == Evs[l] IN
       /\ ev.e = "map"
       /\ IF Has(ev.v, "err") THEN Report({"raised"}) /\ UNCHANGED regs
          ELSE LET rec == TLCEval(DecodeMap(ev.v)) IN
               CASE ev.op = "factory" -> /\ Report(FactoryClauses(ev, rec))
                                         /\ Put(ev.r, rec)
                 [] ev.op = "symmetry" -> /\ Report(IF SymmetryOK(regs[ev.a[1]], RangeOf(ev.p.axes), rec) THEN {} ELSE {"symmetry"})
                                          /\ Put(ev.r, rec)
                 [] ev.op = "fixed" -> LET f == FixedArgs(Sig, ev.p.name, ev.v.ins[1], [i \in DOMAIN ev.p.args |-> IF ev.p.args[i] = 0 THEN <<>> ELSE regs[ev.p.args[i]]], Par(ev))
                                           exp == [ins |-> <<ev.p.v>>, out |-> <<>>, h |-> f.h, d |-> f.d]
                                       IN Report(MapClauses(exp, rec)) /\ Put(ev.r, [exp EXCEPT !.out = rec.out])
                 [] OTHER -> LET exp == TLCEval(MapDenotes(Sig, ev.op, Args(ev), ev.p)) IN
                             /\ Report(MapClauses(exp, rec))
                             /\ Put(ev.r, exp)
\* a map applied to multivectors; "inverse": an inverse applied to the image of its argument, or the converse
MapCall == LET ev == Evs[l] IN
       /\ ev.e = "mapcall"
       /\ LET exp == IF ev.op = "call" THEN CallMap(regs[ev.a[1]], Tail(Args(ev)))
                     ELSE LET h == BShape2(regs[ev.a[1]].h, regs[ev.a[2]].h) x == regs[ev.a[2]]
                          IN [h |-> h, d |-> [k \in 1 .. NRows(h) |-> RowAt(x, h, k - 1)]]
          IN Report(ValueClauses(exp, ev.v))
       /\ UNCHANGED regs
\* strings: parsed, printed, naming blades, tabulating operators
Text == LET ev == Evs[l] IN
       /\ ev.e = "text"
       /\ Report(IF TextOK(TLCEval(TextDenotes(ev.op, ev.p)), ev.v) THEN {} ELSE {"text"})
       /\ UNCHANGED regs
\* the same operation on the same values in the same configuration (or the same
\* register looked at again): the same type and value as ever before
MemoClauses(ev) ==
    IF ev.k \notin DOMAIN memo THEN {}
    ELSE LET m == memo[ev.k]
         IN (IF m.t = ev.t THEN {} ELSE {"history-type"})
            \cup (IF m.t # ev.t \/ m.x = ev.x THEN {} ELSE IF ev.tol > 0 /\ CloseMV(m.x, ev.x, ev.tol) THEN {} ELSE {"history-value"})
Memo == LET ev == Evs[l] IN
       /\ ev.e = "memo"
       /\ Report(MemoClauses(ev))
       /\ memo' = IF ev.k \in DOMAIN memo THEN memo ELSE (ev.k :> [t |-> ev.t, x |-> ev.x]) @@ memo
       /\ UNCHANGED <<regs, pool>>
\* constants, points and motions of the conformal and the planar model (over a batch)
Cga == LET ev == Evs[l] IN
       /\ ev.e = "cga"
       /\ LET h == IF ev.a = <<>> THEN <<>> ELSE regs[ev.a[1]].h
              exp == TLCEval([h |-> h, d |-> [k \in 1 .. NRows(h) |-> CgaDenotes(Sig, ev.op, IF ev.a = <<>> THEN Zero ELSE regs[ev.a[1]].d[k], ev.p)]])
          IN /\ Report(ValueClauses(exp, ev.v))
             /\ IF Has(ev, "r") THEN Put(ev.r, Stored(exp, ev.v)) ELSE UNCHANGED regs
\* sparse matrices of multivectors
Mat == LET ev == Evs[l] IN
       /\ ev.e = "mat"
       /\ IF Has(ev.v, "err") THEN Report({"raised"}) /\ UNCHANGED regs
          ELSE CASE ev.op = "matvec" -> /\ Report(ValueClauses(MatVec(Sig, ev.p.op, regs[ev.a[1]], regs[ev.a[2]], Par(ev)), ev.v))
                                        /\ UNCHANGED regs
                 [] ev.op = "dense" -> /\ Report(DenseClauses(Sig, regs[ev.a[1]], ev.p, ev.v, Par(ev)))
                                       /\ UNCHANGED regs
                 [] OTHER -> LET exp == TLCEval(MatDenotes(Sig, ev.op, Args(ev), ev.p, Par(ev)))
                                 rec == TLCEval(DecodeMat(ev.v))
                             IN /\ Report((IF rec.h = exp.h THEN {} ELSE {"shape"}) \cup (IF rec.h # exp.h \/ MatEq(rec, exp) THEN {} ELSE {"entries"}))
                                /\ IF Has(ev, "r") THEN Put(ev.r, exp) ELSE UNCHANGED regs
\* the tableau of an integrator
RK == LET ev == Evs[l] IN
       /\ ev.e = "rk"
       /\ Report(IF Has(ev, "err") THEN {ev.err} ELSE RKClauses(ev))
       /\ UNCHANGED regs
DispTuple(ev) == [i \in DOMAIN ev.t |-> RangeOf(ev.t[i])]
FirstTrue(q) == LET hit == {i \in DOMAIN q : q[i] = 1} IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j
\* a dispatcher is a register holding its ordered options
Disp == LET ev == Evs[l] IN
       /\ ev.e = "disp"
       /\ CASE ev.op = "new" -> Put(ev.r, <<>>)
            [] ev.op = "reg" -> /\ Report(IF ev.v.ret = 1 THEN {} ELSE {"decorator"})
                                /\ Put(ev.r, Inserted(regs[ev.r], ev, [c |-> ev.c, f |-> ev.f]))
            [] ev.op = "call" -> /\ Report((IF ev.v.ran = IF Chosen(regs[ev.r], DispTuple(ev)) = 0 THEN <<>> ELSE <<Chosen(regs[ev.r], DispTuple(ev))>>
                                             THEN {} ELSE {"implementation"})
                                           \cup (IF ev.v.args = 1 THEN {} ELSE {"arguments"})
                                           \cup (IF ev.v.res = 1 THEN {} ELSE {"result"}))
                                 /\ UNCHANGED regs
            \* one of the library's own dispatchers: outcome of each condition, and which implementations give the result returned
            [] ev.op = "library" -> /\ LET want == FirstTrue(ev.v.truth)
                                       IN Report(IF want = 0 THEN (IF ev.v.raised = 1 THEN {} ELSE {"not-refused"})
                                                 ELSE IF ev.v.raised = 1 THEN {"raised"}
                                                 ELSE IF want \in RangeOf(ev.v.eq) THEN {} ELSE {"implementation"})
                                    /\ UNCHANGED regs
Next == /\ l <= Len(Evs)
        /\ l' = l + 1
        /\ UNCHANGED sid
        /\ \/ Memo
           \/ UNCHANGED memo /\ Sub
           \/ UNCHANGED <<pool, memo>> /\ (New \/ Op \/ Bat \/ Kernel \/ EqSub \/ Rel \/ Pred \/ Disp \/ Oper \/ MapCall \/ Text \/ Cga \/ Mat \/ RK)

Spec == Init /\ [][Next]_vars
Expected == FoldSet(LAMBDA s, acc : acc + Len(Sessions[s].ev) + 1, 0, 1 .. Len(Sessions))
\* every recorded event was consumed
Consumed == TLCGet("stats").distinct = Expected
=============================================================================
