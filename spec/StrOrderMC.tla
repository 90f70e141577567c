------------------------------ MODULE StrOrderMC ------------------------------
EXTENDS StrOrder, MCEmit
CONSTANTS Alphabet, MaxLen, LawLen, Nums
VARIABLE st
Init == st = OrdInit /\ EmitInit(st)
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Do(op, p, s, t) == \E o \in OrdApply(op, <<p, s, t>>) : st' = o.st /\ Emit(st, op, <<p, s, t>>, o)
Pairs == Strings(MaxLen) \X Strings(MaxLen)
CompareA == \E s, t \in Strings(MaxLen) \cup {Null} : \E m \in 0..2 : Do("compare", <<0, m>>, s, t)
EqualA == \E s, t \in Strings(MaxLen) \cup {Null} : Do("equals", <<0, 0>>, s, t)
RangeA == \E s, t \in Strings(LawLen) \cup {Null} : \E m \in 0..2 : \E i, j, n \in Nums : Do("compareRange", <<0, m, i, j, n>>, s, t)
Next == CompareA \/ EqualA \/ RangeA
Spec == Init /\ [][Next]_st
(* every order is a total order; Ordinal and Default agree with equality, IgnoreCase with equality of the folded strings *)
Laws == \A m \in 0..2 : \A s, t \in Strings(LawLen) \cup {Null} :
  /\ Compare(s, t, m) = -Compare(t, s, m)
  /\ Compare(s, t, m) = 0 <=> IF m = IgnoreCase /\ s # Null /\ t # Null THEN Folded(s) = Folded(t) ELSE s = t
  /\ \A u \in Strings(LawLen) \cup {Null} : (Compare(s, t, m) <= 0 /\ Compare(t, u, m) <= 0) => Compare(s, u, m) <= 0
Prefixes == \A m \in 0..2 : \A s \in Strings(LawLen) : \A n \in 0..(Len(s) - 1) : Order(TakeN(s, n), s, m) = -1
NullFirst == \A m \in 0..2 : \A s \in Strings(LawLen) : Compare(Null, s, m) = -1
(* comparing whole strings is comparing ranges that cover them *)
Covers == \A m \in 0..2 : \A s, t \in Strings(LawLen) : CompareRange(s, 0, t, 0, 2147483647, m) = {Ok(<<<<Compare(s, t, m)>>>>)}
=============================================================================
