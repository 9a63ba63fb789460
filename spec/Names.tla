------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* What the strings of the library denote.  TLC lets strings be read as    *)
(* sequences of characters (Len, SubSeq, \o), so descriptions, blade names *)
(* and printed tables are specified on the characters themselves.          *)
(***************************************************************************)
EXTENDS Operators, Batch
LOCAL NamesSX == INSTANCE SequencesExt

Char(s, i) == SubSeq(s, i, i)
SignOf == ("+" :> 1) @@ ("-" :> -1) @@ ("0" :> 0)
SignChar(x) == IF x = 1 THEN "+" ELSE IF x = -1 THEN "-" ELSE "0"

(* ---- descriptions: "x+y+w0" ---- *)
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(s, last, i, acc) ==
    IF i > Len(s) THEN [ok |-> last = i /\ acc.sig # <<>>, names |-> acc.names, sig |-> acc.sig]
    ELSE IF Char(s, i) \in DOMAIN SignOf
         THEN ParseFrom(s, i + 1, i + 1, [names |-> Append(acc.names, SubSeq(s, last, i - 1)), sig |-> Append(acc.sig, SignOf[Char(s, i)])])
         ELSE ParseFrom(s, last, i + 1, acc)
ParseDesc(s) == ParseFrom(s, 1, 1, [names |-> <<>>, sig |-> <<>>])
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN "" ELSE Head(q) \o Joined(Tail(q))
SigStr(sig) == Joined([i \in DOMAIN sig |-> SignChar(sig[i])])
PrintDesc(names, sig) == Joined([i \in DOMAIN sig |-> names[i] \o SignChar(sig[i])])
RECURSIVE CommaSep(_)
CommaSep(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o CommaSep(Tail(q))
Ones(sig, x) == Cardinality({i \in DOMAIN sig : sig[i] = x})
PQR(sig) == <<Ones(sig, 1), Ones(sig, -1), Ones(sig, 0)>>
OfPQR(p, q, r) == [i \in 1 .. p + q + r |-> IF i <= p THEN 1 ELSE IF i <= p + q THEN -1 ELSE 0]
Mask(sig, K) == [i \in DOMAIN sig |-> IF sig[i] \in K THEN 1 ELSE 0]

(* ---- blade names: generator names in any order ---- *)
\* the ways to read a word as generators, one after the other: one name may start with another
RECURSIVE Readings(_, _)
Readings(names, w) ==
    IF w = "" THEN {<<>>}
    ELSE UNION {{<<i>> \o t : t \in Readings(names, SubSeq(w, Len(names[i]) + 1, Len(w)))} :
                i \in {j \in DOMAIN names : Len(names[j]) <= Len(w) /\ SubSeq(w, 1, Len(names[j])) = names[j]}}
Words(names, w) == Readings(names, w) \ {<<>>}
\* the generators a word is made of (one reading, when there are several).  <<0>> marks a word that is none
Tokens(names, w) == IF w = "" THEN <<>> ELSE IF Readings(names, w) = {} THEN <<0>> ELSE CHOOSE t \in Readings(names, w) : TRUE
IsWord(t) == t # <<>> /\ \A i \in DOMAIN t : t[i] # 0
\* the wedge of the generators, one after the other
RECURSIVE WordMV(_, _)
WordMV(sig, t) == IF t = <<>> THEN Unit(0)
                  ELSE LET k == Len(t) IN Wedge(sig, WordMV(sig, SubSeq(t, 1, k - 1)), Unit(2 ^ (t[k] - 1)))
\* its closed form: the sign of the permutation, zero when a generator repeats
Inversions(t) == Cardinality({p \in (DOMAIN t) \X (DOMAIN t) : p[1] < p[2] /\ t[p[1]] > t[p[2]]})
Repeats(t) == \E i, j \in DOMAIN t : i # j /\ t[i] = t[j]
RECURSIVE SumPow(_)
SumPow(t) == IF t = <<>> THEN 0 ELSE 2 ^ (Head(t) - 1) + SumPow(Tail(t))
WordClosed(t) == IF Repeats(t) THEN Zero ELSE SumPow(t) :> (IF Inversions(t) % 2 = 0 THEN 1 ELSE -1)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, sep, last, i) == IF i > Len(s) THEN <<SubSeq(s, last, Len(s))>>
    ELSE IF Char(s, i) = sep THEN <<SubSeq(s, last, i - 1)>> \o SplitAt(s, sep, i + 1, i + 1)
    ELSE SplitAt(s, sep, last, i + 1)
Split(s, sep) == SplitAt(s, sep, 1, 1)
\* "xy_zt": the blades of the words, none for a word with a repeated generator
WordsSub(names, s) == LET ts == [i \in DOMAIN Split(s, "_") |-> Tokens(names, Split(s, "_")[i])]
                      IN {SumPow(ts[i]) : i \in {j \in DOMAIN ts : ~Repeats(ts[j])}}

(* ---- subspaces: names and bits of the blades in component order ---- *)
Has1(b, i) == (b \div (2 ^ (i - 1))) % 2 = 1
BitsOf(n, b) == Joined([i \in 1 .. n |-> IF Has1(b, i) THEN "1" ELSE "0"])
NameOf(names, b) == IF b = 0 THEN "1" ELSE Joined([i \in DOMAIN names |-> IF Has1(b, i) THEN names[i] ELSE ""])
BitStr(n, bl) == CommaSep([i \in DOMAIN bl |-> BitsOf(n, bl[i])])
NamedStr(names, bl) == CommaSep([i \in DOMAIN bl |-> NameOf(names, bl[i])])

(* ---- tables of operators of one and two arguments: the text of each cell ---- *)
RECURSIVE Blank(_)
Blank(n) == IF n = 0 THEN "" ELSE " " \o Blank(n - 1)
Cell(n, f) == IF Support(f) = {} THEN Blank(n + 1)
              ELSE LET b == CHOOSE b \in Support(f) : TRUE
                   IN (IF f[b] = 1 THEN "+" ELSE "-") \o BitsOf(n, b)
Tabular(f) == Cardinality(Support(f)) <= 1 /\ \A b \in Support(f) : f[b] \in {1, -1}
UnaryTable(sig, op, bl) ==
    LET n == Dim(sig) IN
    << <<" " \o SigStr(sig)>> \o [j \in DOMAIN bl |-> " " \o BitsOf(n, bl[j])],
       <<Blank(n + 1)>> \o [j \in DOMAIN bl |-> Cell(n, Apply(sig, op, <<Unit(bl[j])>>, {}))] >>
BinaryTable(sig, op, A, B) ==
    LET n == Dim(sig) IN
    << <<" " \o SigStr(sig)>> \o [j \in DOMAIN B |-> " " \o BitsOf(n, B[j])] >>
    \o [i \in DOMAIN A |-> <<" " \o BitsOf(n, A[i])>> \o [j \in DOMAIN B |-> Cell(n, Apply(sig, op, <<Unit(A[i]), Unit(B[j])>>, {}))]]

(* ---- recorded facts ---- *)
\* "raises" where the string denotes nothing
TextDenotes(op, p) ==
    LET d == IF "desc" \in DOMAIN p THEN ParseDesc(p.desc) ELSE [ok |-> TRUE, names |-> <<>>, sig |-> <<>>]
    IN IF ~d.ok THEN [raises |-> 1]
    ELSE CASE op = "parse" -> [names |-> d.names, sig |-> d.sig]
      \* generators are named by distinct names of the library's choice
      [] op = "pqr" -> [sig |-> OfPQR(p.p, p.q, p.r), distinct |-> 1]
      [] op = "print" -> [t |-> PrintDesc(d.names, d.sig)]
      [] op = "signature" -> [t |-> SigStr(d.sig)]
      [] op = "counts" -> [q |-> PQR(d.sig) \o <<Len(d.sig), Len(d.sig) + 1, 2 ^ Len(d.sig)>>]
      [] op = "masks" -> [q |-> Mask(d.sig, {1}) \o Mask(d.sig, {-1}) \o Mask(d.sig, {0}) \o Mask(d.sig, {1, -1, 0})]
      [] op = "mul" -> LET e == ParseDesc(p.desc2)
                       IN IF NamesSX!ToSet(d.names) \cap NamesSX!ToSet(e.names) # {} THEN [raises |-> 1]
                          ELSE [names |-> d.names \o e.names, sig |-> d.sig \o e.sig]
      [] op = "tokens" -> LET R == Words(d.names, p.word)
                          IN IF R = {} THEN [raises |-> 1] ELSE [some |-> {[q |-> [i \in DOMAIN t |-> t[i] - 1]] : t \in R}]
      [] op = "blade" -> LET R == Words(d.names, p.word)
                         IN IF R = {} THEN [raises |-> 1] ELSE [some |-> {[mv |-> WordMV(d.sig, t)] : t \in R}]
      [] op = "bits" -> [t |-> BitStr(Len(d.sig), p.bl)]
      [] op = "names" -> [t |-> NamedStr(d.names, p.bl)]
      [] op = "table1" -> [table |-> UnaryTable(d.sig, p.name, p.bl)]
      [] op = "table2" -> [table |-> BinaryTable(d.sig, p.name, p.bl, p.bl2)]
      [] op = "same" -> [n |-> 1]
      [] op = "words" -> LET ws == Split(p.words, "_")
                         IN IF \A i \in DOMAIN ws : Words(d.names, ws[i]) # {} THEN [set |-> WordsSub(d.names, p.words)] ELSE [raises |-> 1]
\* v: what was recorded
RECURSIVE TextOK(_, _)
TextOK(want, v) ==
    CASE "some" \in DOMAIN want -> \E x \in want.some : TextOK(x, v)
      [] "raises" \in DOMAIN want -> "err" \in DOMAIN v
      [] "err" \in DOMAIN v -> FALSE
      [] "mv" \in DOMAIN want -> LET f == RowFn(v.mv) IN Eq(f, want.mv) /\ NamesSX!ToSet(v.s) = Support(want.mv)
      [] "set" \in DOMAIN want -> NamesSX!ToSet(v.s) = want.set
      [] "distinct" \in DOMAIN want -> v.sig = want.sig /\ Cardinality(NamesSX!ToSet(v.names)) = Len(want.sig) /\ Len(v.names) = Len(want.sig)
      [] OTHER -> \A k \in DOMAIN want : k \in DOMAIN v /\ v[k] = want[k]
=============================================================================
