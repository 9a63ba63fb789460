----------------------------- MODULE MCDispatch -----------------------------
(***************************************************************************)
(* Registrations and calls in any order, with a cache of matches that is   *)
(* cleared when an option is added.  Caching must not be observable: every *)
(* call runs the first accepting option of the list as it is now.  In      *)
(* generation mode every finished history is printed for replay against    *)
(* the real dispatcher.                                                    *)
(***************************************************************************)
EXTENDS Dispatch, Json, IOUtils
CONSTANTS Steps, Emit
VARIABLES opts,   \* ordered options
          cache,  \* tuple -> implementation
          hist,   \* the history
          last    \* <<tuple, implementation that ran>> of the last call
vars == <<opts, cache, hist, last>>

\* two subspaces: the vectors and the even part of the plane
V == {1, 2}
E == {0, 3}
Tuples == {<<V>>, <<E>>, <<V, E>>}
Conds == {[k |-> "any"], [k |-> "arity", n |-> 1], [k |-> "inside", n |-> 1, q |-> <<1, 2>>], [k |-> "equals", n |-> 1, q |-> <<0, 3>>]}
Poss == {"end", "front", "middle", "back"}

Init == opts = <<>> /\ cache = <<>> /\ hist = <<>> /\ last = <<>>
Reg(c, w) ==
    LET ev == CASE w = "end" -> [e |-> "reg", c |-> c]
                [] w = "front" -> [e |-> "reg", c |-> c, pos |-> 0]
                [] w = "middle" -> [e |-> "reg", c |-> c, pos |-> 1]
                [] w = "back" -> [e |-> "reg", c |-> c, pos |-> -1]
    IN /\ opts' = Inserted(opts, ev, [c |-> c, f |-> Len(hist) + 1])
       /\ cache' = <<>>
       /\ hist' = Append(hist, ev)
       /\ last' = <<>>
Call(t) ==
    LET f == IF t \in DOMAIN cache THEN cache[t] ELSE Chosen(opts, t)
    IN /\ cache' = IF f = 0 THEN cache ELSE (t :> f) @@ cache
       /\ last' = <<t, f>>
       /\ hist' = Append(hist, [e |-> "call", t |-> t])
       /\ UNCHANGED opts
Next == /\ Len(hist) < Steps
        /\ \/ \E c \in Conds, w \in Poss : Reg(c, w)
           \/ \E t \in Tuples : Call(t)
Spec == Init /\ [][Next]_vars

CacheTransparent == last = <<>> \/ last[2] = Chosen(opts, last[1])
CacheSound == \A t \in DOMAIN cache : cache[t] = Chosen(opts, t)
\* positions keep the relative order of the other options
Distinct == \A i, j \in DOMAIN opts : i # j => opts[i].f # opts[j].f
\* nothing but a useful history is printed: it ends in a call
Done == (Emit /\ Len(hist) = Steps /\ hist[Steps].e = "call" /\ hist[1].e = "reg") => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
