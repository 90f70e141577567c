------------------------------ MODULE BoxesMC ------------------------------
EXTENDS Boxes, MCEmit
CONSTANTS Boxed                              \* the values explored
VARIABLE st
Init == st = BoxInit /\ EmitInit(st)
Do(op, a) == \E o \in BoxApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
LetA == \E v \in Boxed : (st.x = Null /\ Do("let", <<<<0>>, v>>)) \/ (st.y = Null /\ Do("let", <<<<1>>, v>>))
DropA == st.x # Null /\ st.y = Null /\ Do("let", <<<<0>>, Null>>)
EqualsA == \E h \in 0..1 : Do("equals", <<<<h>>>>)
RawA == IsValue(st.x) /\ IsValue(st.y) /\ st.x[1] = st.y[1] /\ (Do("equals", <<<<2>>>>) \/ Do("compare", <<<<1>>>>))
CompareA == Do("compare", <<<<0>>>>)
AsA == st.y = Null /\ \E u \in Values : Do("as", <<<<u>>>>)
TypeA == st.y = Null /\ Do("type", <<>>)
Next == LetA \/ DropA \/ EqualsA \/ RawA \/ CompareA \/ AsA \/ TypeA
Spec == Init /\ [][Next]_st
Pair == IsValue(st.x) /\ IsValue(st.y) /\ st.x[1] = st.y[1]
T == st.x[1]
Antisymmetric == Pair => Order(T, Tail(st.x), Tail(st.y)) = -Order(T, Tail(st.y), Tail(st.x))
Transitive == Pair => \A z \in Boxed : z[1] = T /\ Order(T, Tail(st.x), Tail(st.y)) <= 0 /\ Order(T, Tail(st.y), Tail(z)) <= 0
                        => Order(T, Tail(st.x), Tail(z)) <= 0
(* the order of integers is that of their doubles wherever those are exact, and never against it *)
AgreesWithDouble == (Pair /\ T \in IntTypes) =>
   LET d == CmpF(13, DoubleOf(Tail(st.x), Signs(T)), DoubleOf(Tail(st.y), Signs(T))) IN d # 0 => d = Order(T, Tail(st.x), Tail(st.y))
(* reading as a wider type of the same signedness and back is the identity; so is a double of at most 32 bits *)
ThereAndBack == (IsValue(st.x) /\ T \in IntTypes) =>
   /\ \A u \in IntTypes : BoxWidth[u] >= BoxWidth[T] => Resize(Reading(T, Tail(st.x), u), BoxWidth[T], Signs(u)) = Tail(st.x)
   /\ BoxWidth[T] <= 4 => TruncF(13, DoubleOf(Tail(st.x), Signs(T)), T) = Tail(st.x)
SingleExact == (IsValue(st.x) /\ T = 12 /\ ~IsNaNW(12, Tail(st.x))) =>
   LET d == ConvertF(12, Tail(st.x), 13) IN ConvertF(13, d, 12) \in {Tail(st.x), Open}
=============================================================================
