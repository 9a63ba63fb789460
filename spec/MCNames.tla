------------------------------ MODULE MCNames -------------------------------
(***************************************************************************)
(* The string definitions of Names.tla, checked against each other: every  *)
(* description of up to three generators, every word of up to four letters *)
(* (repeats included), for single and multi character generator names.     *)
(***************************************************************************)
EXTENDS Names

NameSets == {<<"x", "y", "z", "w">>, <<"e1", "e2", "e3", "n">>, <<"z", "ab", "y1", "a2">>, <<"e11", "e1", "e2", "e1x">>, <<"ab", "a", "b", "c">>}
VARIABLES names, sig, w
vars == <<names, sig, w>>
Init == /\ names \in NameSets
        /\ sig \in UNION {[1 .. n -> {1, -1, 0}] : n \in 1 .. 3}
        /\ w \in UNION {[1 .. k -> 1 .. Len(sig)] : k \in 1 .. 4}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

n == Len(sig)
Nm == SubSeq(names, 1, n)
Word(t) == Joined([i \in DOMAIN t |-> Nm[t[i]]])
RoundTrip == LET d == ParseDesc(PrintDesc(Nm, sig)) IN d.ok /\ d.names = Nm /\ d.sig = sig
Malformed == ~ParseDesc(PrintDesc(Nm, sig) \o "q").ok /\ ~ParseDesc("").ok
\* names of which none is made of others are read in one way only
Unique == names # <<"ab", "a", "b", "c">>
Tokenised == /\ w \in Words(Nm, Word(w)) /\ IsWord(w) /\ Words(Nm, Word(w) \o "?") = {} /\ ~IsWord(Tokens(Nm, Word(w) \o "?"))
             /\ Unique => Words(Nm, Word(w)) = {w} /\ Tokens(Nm, Word(w)) = w
             /\ \A t \in Words(Nm, Word(w)) : Word(t) = Word(w)
\* a word denotes its permutation sign times the blade, or zero, in every signature
Denotes == Eq(WordMV(sig, w), WordClosed(w))
\* and the geometric product of the generators, when none repeats
Products == Repeats(w) \/ WordMV(sig, w) = (WordProduct(sig, w)[2] :> WordProduct(sig, w)[1])
Transposed == Len(w) < 2 \/ Eq(WordMV(sig, w), Scale(-1, WordMV(sig, Swap(w, 1)))) \/ w[1] = w[2]
Strings == \A b \in Blades(sig) :
              /\ Len(BitsOf(n, b)) = n
              /\ \A c \in Blades(sig) : (BitsOf(n, b) = BitsOf(n, c)) = (b = c) /\ (Unique => (NameOf(Nm, b) = NameOf(Nm, c)) = (b = c))
              /\ ~Unique \/ b = 0 \/ WordClosed(Tokens(Nm, NameOf(Nm, b))) = (b :> 1)
              /\ Split(NamedStr(Nm, <<b, Pss(sig)>>), ",") = <<NameOf(Nm, b), NameOf(Nm, Pss(sig))>>
Products2 == OfPQR(PQR(sig)[1], PQR(sig)[2], PQR(sig)[3]) \in {[i \in 1 .. n |-> sig[p[i]]] : p \in {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}}
Tables == /\ Len(UnaryTable(sig, "reverse", <<0, 1>>)[1]) = 3
          /\ LET t == BinaryTable(sig, "product", <<0, 1>>, <<1>>) IN t[2][2] = "+" \o BitsOf(n, 1)
               /\ t[3][2] = (IF sig[1] = 0 THEN Blank(n + 1) ELSE (IF sig[1] = 1 THEN "+" ELSE "-") \o BitsOf(n, 0))
=============================================================================
