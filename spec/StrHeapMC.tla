------------------------------ MODULE StrHeapMC ------------------------------
EXTENDS StrHeap, MCEmit
CONSTANTS Group, Alphabet, MaxLen, Nums, Texts
VARIABLE st
Init == st = HeapInit /\ EmitInit(st)
Small(x) == (\A k \in 1..NS : x.s[k] # Null => Len(x.s[k]) <= MaxLen) /\ (\A k \in 1..NA : x.a[k] # Null => Len(x.a[k]) <= MaxLen)
Do(op, a) == \E o \in HeapApply(op, st, a) : Small(o.st) /\ st' = o.st /\ Emit(st, op, a, o)
L == {k \in 1..NS : st.s[k] # Null}                \* strings
LA == {k \in 1..NA : st.a[k] # Null}
K == 1..NS
Slots == 0..NS
LiteralA == \E k \in K : \E t \in Texts : Do("literal", <<<<k>>, t>>)
SubA == \E k \in K : \E x \in L : \E i, n \in Nums : Do("substring", <<<<k, x, i, n>>>>)
RemoveA == \E k \in K : \E x \in L : \E i, n \in Nums : Do("remove", <<<<k, x, i, n>>>>)
InsertA == \E k \in K : \E x \in L : \E i \in Nums : \E y \in {0} \cup L : Do("insert", <<<<k, x, i, y>>>>)
ReplaceA == \E k \in K : \E x \in L : \E y, z \in {0} \cup L : Do("replace", <<<<k, x, y, z>>>>)
ReplaceCharA == \E k \in K : \E x \in L : \E c, d \in Alphabet : Do("replaceChar", <<<<k, x, c, d>>>>)
PadA == \E k \in K : \E x \in L : \E n \in Nums : \E c \in Alphabet : \E op \in {"padLeft", "padRight"} : Do(op, <<<<k, x, n, c>>>>)
TrimA == \E k \in K : \E x \in L : \E y \in 0..NA : \E m \in 1..3 : (y = 0 \/ y \in LA) /\ Do("trimSet", <<<<k, x, y, m>>>>)
CaseA == \E k \in K : \E x \in L : \E op \in {"lower", "upper", "trim", "copy", "self"} : Do(op, <<<<k, x>>>>)
ConcatA == \E k \in K : \E x \in L : \E y \in {0} \cup L : Do("concat", <<<<k>>, <<x, y>>>>)
JoinA == \E k \in K : \E x, y \in L : \E i, n \in Nums : Do("join", <<<<k, x, i, n>>, <<x, 0, y>>>>)
ArrayA == \E k \in 1..NA : \E t \in Texts : Do("newArray", <<<<k>>, t>>)
PutA == \E k \in LA : \E i \in Nums : \E c \in Alphabet : Do("put", <<<<k, i, c>>>>)
ToArrayA == \E k \in 1..NA : \E x \in L : \E i, n \in Nums : Do("toArray", <<<<k, x, i, n>>>>)
CopyToA == \E k \in LA : \E x \in L : \E i, j, n \in Nums : Do("copyTo", <<<<k, x, i, j, n>>>>)
FromArrayA == \E k \in K : \E y \in {0} \cup LA : \E i, n \in Nums : (i = 0 \/ n # -1) /\ Do("fromArray", <<<<k, y, i, n>>>>)
BuilderA == \E k \in K : \E x \in L : \E i \in Nums : \E c \in Alphabet : Do("builder", <<<<k, x, i, c>>>>)
Next == CASE Group = "derive" -> LiteralA \/ SubA \/ RemoveA \/ InsertA \/ ReplaceCharA \/ PadA \/ CaseA \/ ConcatA
          [] Group = "combine" -> LiteralA \/ ReplaceA \/ InsertA \/ ConcatA \/ JoinA
          [] Group = "share" -> LiteralA \/ ArrayA \/ PutA \/ ToArrayA \/ CopyToA \/ FromArrayA \/ BuilderA
          [] Group = "trim" -> LiteralA \/ ArrayA \/ TrimA \/ CaseA
Spec == Init /\ [][Next]_st
OneCell == [][Cardinality({k \in 1..NS : st'.s[k] # st.s[k]}) + Cardinality({k \in 1..NA : st'.a[k] # st.a[k]}) <= 1]_st
TrimLaws == \A k \in L : \A m \in 1..3 : LET t == st.s[k]  u == Trimmed(t, Null, m) IN
   /\ Trimmed(u, Null, m) = u
   /\ u # <<>> => (m # 2 => ~White(u[1])) /\ (m # 1 => ~White(u[Len(u)]))
   /\ Trimmed(Trimmed(t, Null, 1), Null, 2) = Trimmed(t, Null, 3)
CutLaws == \A k \in L : \A i \in 0..Len(st.s[k]) : \A n \in 0..(Len(st.s[k]) - i) : LET t == st.s[k] IN
   /\ TakeN(t, i) \o Part(t, i, n) \o Part(t, i + n, -1) = t
   /\ Inserted(Removed(t, i, n), i, Part(t, i, n)) = t
CaseLaws == \A k \in L : LET t == st.s[k] IN Map(Lower, Map(Upper, t)) = Map(Lower, t) /\ Map(Upper, Map(Upper, t)) = Map(Upper, t)
=============================================================================
