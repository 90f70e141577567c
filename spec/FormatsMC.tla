----------------------------- MODULE FormatsMC -----------------------------
EXTENDS Formats, MCEmit
CONSTANTS Values, Sizes, Places, Beginnings, MaxLen
VARIABLE st
Init == st = FormatInit /\ EmitInit(st)
Do(op, a) == \E o \in FormatApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Known == st.t # Null
LetA    == st.b = <<>> /\ \E v \in Values : v # st.v /\ Do("let", <<v>>)
TextA   == st.t = Null /\ Do("text", <<>>)
IntoA   == Known /\ st.b = <<>> /\ \E n \in Sizes \cup {Len(st.t), Len(st.t) + 1, Len(st.t) - 1} : n >= 0 /\ Do("into", <<<<n>>>>)
ConcatA == Known /\ st.b = <<>> /\ Do("concat", <<>>)
StartA  == \E b \in Beginnings : st.b \in (Beginnings \cup {<<>>}) /\ b # st.b /\ Do("start", <<b>>)
Room == Known /\ Len(st.b) + Len(st.t) <= MaxLen
AppendA == Room /\ \E op \in {"append", "appendObject"} : Do(op, <<>>)
InsertA == Room /\ \E op \in {"insert", "insertObject", "appendValue"} : \E i \in Places :
             (op = "appendValue" => st.v[1] \in 2..16) /\ Do(op, <<<<i>>>>)
Next == LetA \/ TextA \/ IntoA \/ ConcatA \/ StartA \/ AppendA \/ InsertA
Spec == Init /\ [][Next]_st
(* the text of a value of these types tells the value; every value but a string has a short text *)
Telling == {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17}
Distinct == Known => \A v \in Values : (v[1] = st.v[1] /\ v[1] \in Telling /\ TextOf(v) = st.t) => v = st.v
Short == Known /\ st.v[1] \notin Texts => st.t # <<>> /\ Len(st.t) < 40
(* composing never loses what was there *)
Grows == [][Len(st'.b) >= Len(st.b) \/ st'.b \in Beginnings]_st
=============================================================================
