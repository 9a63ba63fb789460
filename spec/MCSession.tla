----------------------------- MODULE MCSession ------------------------------
(***************************************************************************)
(* Sessions over several contexts: registers refer to storage cells, an    *)
(* operation reads the cells of its operands and either allocates a cell   *)
(* for its result or lets the result be a view of an operand, concrete     *)
(* operators are looked up in a cache per context and execution strategy,  *)
(* and constants are created once per context.  None of this may be        *)
(* observable: a register keeps the value it was born with, and repeating  *)
(* an operation gives the same value, whatever happened in between.        *)
(* Values are terms.  Finished sessions are printed and replayed against   *)
(* the library under several histories (see drivers/c15.py).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps, Contexts, Emit, Small
VARIABLES heap,   \* cell -> term
          regs,   \* sequence of [c |-> context, cell |-> cell, born |-> term]
          consts, \* <<context, constant>> -> cell
          cache,  \* <<context, strategy, operator, operand types>> -> what the cached operator denotes
          strat,  \* context -> execution strategy
          hist
vars == <<heap, regs, consts, cache, strat, hist>>

Unary == IF Small THEN {"reverse"} ELSE {"reverse", "involute", "conjugate", "scalar_negation", "pseudoscalar_negation", "left_complement", "right_complement",
          "dual", "dual_inverse", "left_complement_dual", "right_complement_dual", "left_hodge", "right_hodge", "degenerate", "nondegenerate", "neg"}
Square == IF Small THEN {} ELSE {"squared", "symmetric_reverse_product", "symmetric_involute_product", "symmetric_conjugate_product", "cubed", "inverse_factor"}
Binary == IF Small THEN {"product"} ELSE {"product", "wedge", "inner", "scalar_product", "left_contract", "right_contract", "commutator", "anti_commutator", "cross_product",
           "regressive", "anti_product", "anti_wedge", "anti_inner", "left_interior", "right_interior", "reverse_product", "involute_product",
           "conjugate_product", "add", "sub", "select", "restrict"}
Ternary == IF Small THEN {} ELSE {"sandwich", "reverse_sandwich", "full_sandwich", "transform"}
RealOps == IF Small THEN {"exp"} ELSE {"inverse", "norm", "norm_squared", "normalized", "exp", "log", "square_root", "motor_square_root", "motor_log", "inverse_shirokov",
            "inverse_la", "divide", "exp_quadratic", "exp_linear", "motor_translator", "motor_rotor", "decompose_invariant", "decompose_polar", "scalar_divide", "normalize_motor", "bound"}
Views == IF Small THEN {"pos"} ELSE {"pos", "index", "self_select", "reshape", "flatten"}
Copies == IF Small THEN {"set"} ELSE {"set", "copy", "concatenate", "sum", "mean", "rearrange", "repeat", "take_along_axis"}
Strategies == {1, 2}

Init == /\ heap = <<>> /\ regs = <<>> /\ consts = <<>> /\ cache = <<>>
        /\ strat = [c \in Contexts |-> 1]
        /\ hist = <<>>

Val(r) == heap[regs[r].cell]
Alloc(c, v) == /\ heap' = Append(heap, v)
               /\ regs' = Append(regs, [c |-> c, cell |-> Len(heap) + 1, born |-> v])
Log(e) == hist' = Append(hist, e)
New(c) == /\ Alloc(c, <<"input", Len(hist) + 1>>)
          /\ Log([a |-> "new", c |-> c])
          /\ UNCHANGED <<consts, cache, strat>>
\* a constant is made on first use, and shared afterwards
Const(c, k) ==
    LET v == <<"const", k>> IN
    /\ IF <<c, k>> \in DOMAIN consts
       THEN /\ regs' = Append(regs, [c |-> c, cell |-> consts[<<c, k>>], born |-> v])
            /\ UNCHANGED <<heap, consts>>
       ELSE /\ Alloc(c, v)
            /\ consts' = (<<c, k>> :> Len(heap) + 1) @@ consts
    /\ Log([a |-> "const", c |-> c, k |-> k])
    /\ UNCHANGED <<cache, strat>>
\* what an operation denotes, whichever operator object computes it
Denotes(op, xs) == <<op>> \o [i \in DOMAIN xs |-> regs[xs[i]].born]
\* computed from the present contents of the cells, by the cached operator
Key(op, xs) == <<regs[xs[1]].c, strat[regs[xs[1]].c], op>>
Cached(op, xs) == IF Key(op, xs) \in DOMAIN cache THEN cache[Key(op, xs)] ELSE op
Computed(op, xs) == <<Cached(op, xs)>> \o [i \in DOMAIN xs |-> Val(xs[i])]
Apply(kind, op, xs) ==
    /\ Alloc(regs[xs[1]].c, Computed(op, xs))
    /\ cache' = (Key(op, xs) :> Cached(op, xs)) @@ cache
    /\ Log([a |-> kind, op |-> op, x |-> xs])
    /\ UNCHANGED <<consts, strat>>
View(op, x) ==
    /\ regs' = Append(regs, [c |-> regs[x].c, cell |-> regs[x].cell, born |-> regs[x].born])
    /\ Log([a |-> "view", op |-> op, x |-> <<x>>])
    /\ UNCHANGED <<heap, consts, cache, strat>>
\* functional update and the like: a copy
Copy(op, x) ==
    /\ Alloc(regs[x].c, Computed(op, <<x>>))
    /\ Log([a |-> "copy", op |-> op, x |-> <<x>>])
    /\ UNCHANGED <<consts, cache, strat>>
Switch(c) == /\ strat' = [strat EXCEPT ![c] = 3 - strat[c]]
             /\ Log([a |-> "switch", c |-> c, k |-> 3 - strat[c]])
             /\ UNCHANGED <<heap, regs, consts, cache>>
\* perform an earlier operation again: the same value
Again(i) == LET e == hist[i] IN
    /\ e.a \in {"op", "real"}
    /\ Alloc(regs[e.x[1]].c, Computed(e.op, e.x))
    /\ cache' = (Key(e.op, e.x) :> Cached(e.op, e.x)) @@ cache
    /\ Log([a |-> "again", i |-> i, op |-> e.op, x |-> e.x])
    /\ UNCHANGED <<consts, strat>>
Look(x) == /\ Log([a |-> "look", x |-> <<x>>])
           /\ UNCHANGED <<heap, regs, consts, cache, strat>>

R == DOMAIN regs
SameCtx(x) == {y \in R : regs[y].c = regs[x].c}
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Step == LET kinds == IF Emit THEN {RandomElement(1 .. 20)} ELSE 1 .. 20 IN
    \E k \in kinds :
       CASE R = {} \/ k <= 3 -> \E c \in Pick(Contexts) : New(c)
         [] k = 4 -> \E c \in Pick(Contexts), w \in Pick(1 .. 2) : Const(c, w)
         [] k = 5 -> \E c \in Pick(Contexts) : Switch(c)
         [] k \in {6, 7} -> \E x \in Pick(R) : \E op \in Pick(Unary \cup Square) : Apply("op", op, <<x>>)
         [] k \in 8 .. 10 -> \E x \in Pick(R) : \E y \in Pick(SameCtx(x)) : \E op \in Pick(Binary) : Apply("op", op, <<x, y>>)
         [] k = 11 -> \E x \in Pick(R) : \E y \in Pick(SameCtx(x)) : \E op \in Pick(Ternary \cup Binary) : Apply("op", op, <<x, y>>)
         [] k \in {12, 13, 14} -> \E x \in Pick(R) : \E op \in Pick(RealOps) : Apply("real", op, <<x>>)
         [] k \in {15, 16} -> \E x \in Pick(R) : \E op \in Pick(Views) : View(op, x)
         [] k \in {17, 18} -> \E x \in Pick(R) : \E op \in Pick(Copies) : Copy(op, x)
         [] k = 19 -> IF {j \in DOMAIN hist : hist[j].a \in {"op", "real"}} = {} THEN \E x \in Pick(R) : Look(x)
                      ELSE \E i \in Pick({j \in DOMAIN hist : hist[j].a \in {"op", "real"}}) : Again(i)
         [] k = 20 -> \E x \in Pick(R) : Look(x)
Next == Len(hist) < Steps /\ Step
Spec == Init /\ [][Next]_vars

\* a register keeps the value it was born with
Stable == \A r \in R : Val(r) = regs[r].born
\* a cached operator denotes what its key says
CacheSound == \A k \in DOMAIN cache : cache[k] = k[3]
ConstSound == \A k \in DOMAIN consts : heap[consts[k]] = <<"const", k[2]>>
\* the same operation on the same operands gives the same value
OpRegs == {i \in DOMAIN hist : hist[i].a \in {"op", "real", "again"}}
RegOf(i) == Cardinality({j \in 1 .. i : hist[j].a \notin {"switch", "look"}})
Functional == \A i, j \in OpRegs : (hist[i].op = hist[j].op /\ hist[i].x = hist[j].x) => Val(RegOf(i)) = Val(RegOf(j))
Done == (Emit /\ Len(hist) = Steps) => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
