----------------------------- MODULE StrSearchMC -----------------------------
EXTENDS StrSearch, MCEmit
CONSTANTS Alphabet, MaxLen, PatLen, Nums
VARIABLE st
Init == st = SearchInit /\ EmitInit(st)
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Do(op, p, s, t) == \E o \in SearchApply(op, <<p, s, t>>) : st' = o.st /\ Emit(st, op, <<p, s, t>>, o)
RangeA == \E s \in Strings(MaxLen) : \E t \in Strings(PatLen) : \E i, n \in Nums :
            \E op \in {"index", "last", "indexAny", "lastAny"} : Do(op, <<0, 3, i, n>>, s, t)
CharA == \E s \in Strings(MaxLen) : \E c \in Alphabet : \E i, n \in Nums : \E op \in {"indexChar", "lastChar"} : Do(op, <<0, 3, i, n>>, s, <<c>>)
StartA == \E s \in Strings(MaxLen) : \E t \in Strings(PatLen) : \E i \in Nums :
            \E op \in {"index", "last", "indexAny", "lastAny"} : Do(op, <<0, 2, i, 0>>, s, t)
WholeA == \E s \in Strings(MaxLen) : \E t \in Strings(MaxLen) \cup {Null} :
            \E op \in {"index", "last", "contains", "starts", "ends"} : Do(op, <<0, 1, 0, 0>>, s, t)
Next == RangeA \/ CharA \/ StartA \/ WholeA
Spec == Init /\ [][Next]_st
Val(set) == IF \E r \in set : r.k = "ok" THEN (CHOOSE r \in set : r.k = "ok").v[1][1] ELSE -2
Tests == \A s \in Strings(MaxLen) : \A t \in Strings(PatLen) :
  LET f == Val(SearchResults("index", <<0, 1>>, s, t))  l == Val(SearchResults("last", <<0, 1>>, s, t)) IN
  /\ (f >= 0) = (Val(SearchResults("contains", <<0>>, s, t)) = 1)
  /\ (f = 0) = (Val(SearchResults("starts", <<0>>, s, t)) = 1)
  /\ t # <<>> => /\ (l >= 0) = (f >= 0) /\ f <= l
                 /\ (l >= 0 /\ l + Len(t) = Len(s)) = (Val(SearchResults("ends", <<0>>, s, t)) = 1)
(* searching a range is searching the substring *)
Local == \A s \in Strings(MaxLen) : \A t \in Strings(PatLen) : \A i \in 0..Len(s) : \A n \in 0..(Len(s) - i) :
  LET f == Val(SearchResults("index", <<0, 3, i, n>>, s, t))  g == Val(SearchResults("index", <<0, 1>>, Slice(s, i, n), t)) IN
  f = IF g < 0 THEN -1 ELSE g + i
(* reversing text and pattern turns the first match into the last *)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Mirror == \A s \in Strings(MaxLen) : \A t \in Strings(PatLen) \ {<<>>} :
  LET f == Val(SearchResults("index", <<0, 1>>, s, t))  l == Val(SearchResults("last", <<0, 1>>, Reverse(s), Reverse(t))) IN
  IF f < 0 THEN l < 0 ELSE l = Len(s) - f - Len(t)
=============================================================================
