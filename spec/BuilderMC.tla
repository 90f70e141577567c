------------------------------ MODULE BuilderMC ------------------------------
EXTENDS Builder, MCEmit
CONSTANTS AllCaps, Group, Chars, Texts, Nums, MaxMax, Caps, OldNew
VARIABLE st
Init == st = SbInit /\ EmitInit(st)

(* for test generation the model grows to exactly the length needed; other capacities are explored but not replayed *)
Do(op, a) == \E o \in SbApply(op, st, a, AllCaps, {MaxMax}) :
               st' = o.st /\ Emit(st, op, a, o)
B == {b \in 1..NB : Live(st, b)}
New2A == \E b \in 1..NB : b \notin B /\ \E c, m \in Caps : Do("new2", <<<<b, c, m>>>>)
AppendA == \E b \in B : \E t \in Texts : \E op \in {"appendString", "appendArray", "appendObject"} : Do(op, <<<<b>>, t>>)
PartA == \E b \in B : \E t \in Texts : \E i, n \in Nums : Do("appendPart", <<<<b, i, n>>, t>>)
RepeatA == \E b \in B : \E c \in Chars : \E n \in Nums : Do("appendRepeat", <<<<b, c, n>>>>)
LineA == \E b \in B : \E t \in Texts : Do("appendLine", <<<<b>>, t>>)
InsertA == \E b \in B : \E t \in Texts : \E p \in Nums : \E op \in {"insertString", "insertArray", "insertObject"} : Do(op, <<<<b, p>>, t>>)
InsRepA == \E b \in B : \E t \in Texts : \E p, n \in Nums : Do("insertRepeat", <<<<b, p, n>>, t>>)
BuilderA == \E b \in B : \E c \in B \cup {0} : Do("appendBuilder", <<<<b, c>>>>) \/ \E p \in Nums : Do("insertBuilder", <<<<b, p, c>>>>)
RemoveA == \E b \in B : \E p, n \in Nums : Do("remove", <<<<b, p, n>>>>)
ReplaceA == \E b \in B : \E p \in OldNew : Do("replace", <<<<b>>, p[1], p[2]>>)
ReplacePartA == \E b \in B : \E p \in OldNew : \E i, n \in Nums : Do("replacePart", <<<<b, i, n>>, p[1], p[2]>>)
ReplaceCharA == \E b \in B : \E c, d \in Chars : \E i, n \in Nums : c # d /\ Do("replaceCharPart", <<<<b, c, d, i, n>>>>)
ClearA == \E b \in B : Do("clear", <<<<b>>>>)
LengthA == \E b \in B : \E n \in Nums : Do("setLength", <<<<b, n>>>>)
CharA == \E b \in B : \E p \in Nums : \E c \in Chars : Do("setChar", <<<<b, p, c>>>>)
GetA == \E b \in B : \E p \in Nums : Do("getChar", <<<<b, p>>>>)
SubA == \E b \in B : \E p, n \in Nums : Do("subText", <<<<b, p, n>>>>)
FormatA == \E b \in B : \E n \in Nums : n >= 0 /\ Do("format", <<<<b, n>>>>)
EqualA == \E b \in B : \E c \in 0..NB : Do("equals", <<<<b, c>>>>)
CapA == \E b \in B : \E n \in Nums : \E op \in {"setCapacity", "ensureCapacity"} : Do(op, <<<<b, n>>>>)
Next == \/ New2A
        \/ Group = "content" /\ (AppendA \/ BuilderA \/ PartA \/ RepeatA \/ InsertA \/ RemoveA \/ LengthA \/ CharA \/ GetA \/ SubA \/ ClearA)
        \/ Group = "replace" /\ (AppendA \/ InsRepA \/ ReplaceA \/ ReplacePartA \/ ReplaceCharA \/ FormatA \/ LineA)
        \/ Group = "capacity" /\ (AppendA \/ BuilderA \/ RepeatA \/ InsRepA \/ LineA \/ LengthA \/ CapA \/ EqualA \/ ClearA \/ RemoveA)
Spec == Init /\ [][Next]_st

WithinBounds == \A b \in 1..NB : Bounded(st[b])
MaximumFixed == [][\A b \in 1..NB : Live(st, b) /\ Live(st', b) => st'[b].max = st[b].max]_st
OneBuilder == [][Cardinality({b \in 1..NB : st'[b] # st[b]}) <= 1]_st
(* an edit succeeds exactly when its result fits *)
Fits == \A b \in B : \A t \in Texts : t # Null =>
          \A o \in AppendText(st, b, t, AllCaps) : (o.r.k = "ok") = (Len(st[b].text) + Len(t) <= st[b].max)
(* inserting a text and removing it again restores the content; so does growing and shrinking the length *)
Undo == \A b \in B : \A t \in Texts \ {Null} : \A p \in 0..Len(st[b].text) :
          RemoveAt(InsertAt(st[b].text, p, t), p, Len(t)) = st[b].text
(* a replacement leaves no occurrence of the old text unless the new one (or its surroundings) makes one *)
ReplaceLaws == \A b \in B : \A p \in OldNew : (p[1] \notin {Null, <<>>} /\ p[2] # Null) =>
   LET s == st[b].text  occ == Occurrences(s, p[1], 0, Len(s))  r == ReplaceIn(s, p[1], p[2], 0, Len(s)) IN
   /\ Len(r) = Len(s) + Len(occ) * (Len(p[2]) - Len(p[1]))
   /\ p[1] = p[2] => r = s
   /\ occ = <<>> <=> \A k \in 0..Len(s) : ~At(s, k, p[1])
   /\ \A i \in 1..(Len(occ) - 1) : occ[i + 1] >= occ[i] + Len(p[1])
=============================================================================
