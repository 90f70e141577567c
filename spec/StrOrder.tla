------------------------------- MODULE StrOrder -------------------------------
(* Equality and order of strings.  Every call is a function of its arguments; the observation is the characters of
   both strings after the call.                                                                                   *)
EXTENDS Text

OrdInit == 0
Fold(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Folded(s) == [i \in 1..Len(s) |-> Fold(s[i])]
SignOf(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
(* lexicographic order of integer sequences *)
Lex(s, t) ==
  LET n == Min2(Len(s), Len(t))
      f[i \in 1..(n + 1)] == IF i > n THEN SignOf(Len(s) - Len(t)) ELSE IF s[i] # t[i] THEN SignOf(s[i] - t[i]) ELSE f[i + 1]
  IN f[1]
(* between strings with the same folding: the first difference decides, lower case first *)
CaseOrder(s, t) ==
  LET f[i \in 1..(Len(s) + 1)] == IF i > Len(s) THEN 0 ELSE IF s[i] # t[i] THEN (IF s[i] = Fold(s[i]) THEN -1 ELSE 1) ELSE f[i + 1]
  IN f[1]
Ordinal == 0
IgnoreCase == 1
Default == 2
Order(s, t, mode) ==
  CASE mode = Ordinal    -> Lex(s, t)
    [] mode = IgnoreCase -> Lex(Folded(s), Folded(t))
    [] mode = Default    -> LET o == Lex(Folded(s), Folded(t)) IN IF o # 0 THEN o ELSE CaseOrder(s, t)
NullOrder(s, t) == IF s = t THEN 0 ELSE IF s = Null THEN -1 ELSE 1
Compare(s, t, mode) == IF s = Null \/ t = Null THEN NullOrder(s, t) ELSE Order(s, t, mode)
Clip(s, i, n) == SubSeq(s, i + 1, IF n > Len(s) - i THEN Len(s) ELSE i + n)
CompareRange(s, i, t, j, n, mode) ==
  IF s = Null \/ t = Null
  THEN {Ok(<<<<NullOrder(s, t)>>>>)} \cup (IF i = 0 /\ j = 0 /\ n >= 0 THEN {} ELSE {Reject})
  ELSE IF i < 0 \/ j < 0 \/ n < 0 \/ i > Len(s) \/ j > Len(t) THEN {Reject}
  ELSE {Ok(<<<<Order(Clip(s, i, n), Clip(t, j, n), mode)>>>>)}
(* raw character buffers end at their first null character, at the latest after n characters *)
UpToNull(s) == LET f[i \in 1..(Len(s) + 1)] == IF i > Len(s) THEN Len(s) ELSE IF s[i] = 0 THEN i - 1 ELSE f[i + 1] IN SubSeq(s, 1, f[1])
RawCompare(s, i, t, j, n, mode) ==
  {Ok(<<<<Order(TakeN(UpToNull(Drop(s, i)), Min2(n, Len(UpToNull(Drop(s, i))))),
                TakeN(UpToNull(Drop(t, j)), Min2(n, Len(UpToNull(Drop(t, j))))), mode)>>>>)}

(* p = parameters; s, t = the strings.  The strings may be one object (when they are equal). *)
OrdResults(op, p, s, t) ==
  CASE op = "compare"      -> {Ok(<<<<Compare(s, t, p[2])>>>>)}
    [] op = "compareTo"    -> {Ok(<<<<Compare(s, t, Default)>>>>)}              \* s is the receiver, never null
    [] op = "compareToObj" -> {Ok(<<<<Compare(s, t, Default)>>>>)}
    [] op = "compareToOther" -> {Reject}                                        \* an object that is no string
    [] op = "compareRange" -> CompareRange(s, p[3], t, p[4], p[5], p[2])
    [] op = "compareRaw"   -> RawCompare(s, p[3], t, p[4], p[5], p[2])
    [] op = "equals"       -> {Ok(<<<<Bool(s = t)>>>>)}
    [] op = "unequal"      -> {Ok(<<<<Bool(s # t)>>>>)}
    [] op = "equalsOther"  -> {Ok(<<<<0>>>>)}
    [] OTHER -> {}
OrdApply(op, a) == { [r |-> r, st |-> 0, s |-> <<a[2], a[3]>>] : r \in OrdResults(op, a[1], a[2], a[3]) }
OrdExplain(st, e) == IF Len(e.a) # 3 THEN {} ELSE Explained(OrdApply(e.op, e.a), e)
=============================================================================
