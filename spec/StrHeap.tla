------------------------------- MODULE StrHeap -------------------------------
(* Strings derived from strings and character arrays.  The state holds every string and every character array a program
   refers to; strings may share representation as the implementation likes, because nothing changes one.           *)
EXTENDS Text

CONSTANTS NS, NA                    \* number of string and of array slots

HeapInit == [s |-> [k \in 1..NS |-> Null], a |-> [k \in 1..NA |-> Null]]
Str(st, k) == IF k = 0 THEN Null ELSE st.s[k]         \* slot 0 is the null reference
Arr(st, k) == IF k = 0 THEN Null ELSE st.a[k]

White(c) == c \in (9..13) \cup {32, 160, 12288}
Blank(c) == c \in (9..13) \cup {32}
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Map(F(_), t) == [i \in 1..Len(t) |-> F(t[i])]

SetStr(st, k, t) == { [r |-> Ok(<<>>), st |-> [st EXCEPT !.s[k] = t]] }
SetArr(st, k, t) == { [r |-> Ok(<<>>), st |-> [st EXCEPT !.a[k] = t]] }
Answer(st, v) == { [r |-> Ok(v), st |-> st] }
Refuse(st) == { [r |-> Reject, st |-> st] }

(* -------------------------------------------------------- derived contents; each is a text or the failure No *)
No == <<-2147483647 - 1>>
Keep(st, k, t) == IF t = No THEN Refuse(st) ELSE SetStr(st, k, t)
(* -1 as a length means: to the end *)
Part(t, from, n0) == LET n == IF n0 = -1 THEN Len(t) - from ELSE n0 IN
  IF from < 0 \/ from > Len(t) \/ ~RangeOk(Len(t), from, n) THEN No ELSE Slice(t, from, n)
Inserted(t, p, u) == IF u = Null \/ p < 0 \/ p > Len(t) THEN No ELSE InsertAt(t, p, u)
Removed(t, from, n0) == LET n == IF n0 = -1 THEN Len(t) - from ELSE n0 IN
  IF from < 0 \/ from > Len(t) \/ ~RangeOk(Len(t), from, n) THEN No ELSE RemoveAt(t, from, n)
Replaced(t, old, new) == IF old = Null \/ old = <<>> THEN No ELSE ReplaceIn(t, old, IF new = Null THEN <<>> ELSE new, 0, Len(t))
Padded(t, w, c, left) == IF w < 0 THEN No ELSE IF w <= Len(t) THEN t
                         ELSE IF left THEN Repeat(<<c>>, w - Len(t)) \o t ELSE t \o Repeat(<<c>>, w - Len(t))
Trimmed(t, set, mode) ==                          \* mode 1 start, 2 end, 3 both; set: characters, or Null for white space
  LET out(c) == IF set = Null \/ set = <<>> THEN White(c) ELSE c \in Range(set)
      keep == {i \in 1..Len(t) : ~out(t[i])}
      first == IF mode = 2 THEN 1 ELSE IF keep = {} THEN Len(t) + 1 ELSE CHOOSE i \in keep : \A j \in keep : i <= j
      last == IF mode = 1 THEN Len(t) ELSE IF keep = {} THEN 0 ELSE CHOOSE i \in keep : \A j \in keep : i >= j
  IN SubSeq(t, first, last)

(* items of a concatenation: slot numbers; 0 is null; -n-2 is the boxed integer n *)
ItemText(st, x) == IF x < 0 THEN Decimal(SToWord(-(x + 2), 4), TRUE) ELSE IF x = 0 \/ st.s[x] = Null THEN <<>> ELSE st.s[x]
RECURSIVE Joined(_, _, _)
Joined(st, items, sep) ==
  IF items = <<>> THEN <<>> ELSE IF Len(items) = 1 THEN ItemText(st, items[1])
  ELSE ItemText(st, items[1]) \o sep \o Joined(st, Tail(items), sep)
Join(st, k, sep, items, from, n) ==
  IF items = Null THEN Refuse(st)
  ELSE IF items = <<>> THEN SetStr(st, k, <<>>) \cup (IF from = 0 /\ n <= 0 THEN {} ELSE Refuse(st))
  ELSE LET p == Part(items, from, n) IN IF p = No THEN Refuse(st) ELSE SetStr(st, k, Joined(st, p, sep))

CopyTo(st, k, from, x, to, n) ==
  LET t == st.s[k]  u == Arr(st, x) IN
  IF u = Null \/ ~RangeOk(Len(t), from, n) \/ ~RangeOk(Len(u), to, n) THEN Refuse(st)
  ELSE SetArr(st, x, [i \in 1..Len(u) |-> IF i > to /\ i <= to + n THEN t[i - to + from] ELSE u[i]])

(* operations on a receiver; without one there is nothing to ask *)
Asked == {"self", "substring", "insert", "remove", "replaceChar", "replace", "padLeft", "padRight", "trim", "trimSet", "lower", "upper",
          "toArray", "copyTo", "char", "format"}
HeapSteps(op, st, a) ==
  LET p == a[1]
      K == p[1]                                    \* target slot
      T == st.s[p[2]]                              \* receiver
  IN IF (op \in Asked /\ Str(st, p[2]) = Null) \/ (op = "put" /\ st.a[K] = Null) THEN Refuse(st)
     ELSE
     CASE op = "literal"   -> SetStr(st, K, a[2])                                     \* any text, from a character array
       [] op = "other"     -> Refuse(st)                                              \* an array of numbers, or a table
       [] op = "null"      -> SetStr(st, K, Null)
       [] op = "fromArray" -> LET u == Arr(st, p[2])  v == IF u = Null THEN <<>> ELSE u IN
             Keep(st, K, Part(v, p[3], p[4])) \cup (IF p[3] # 0 /\ p[4] = -1 THEN Refuse(st) ELSE {})
       [] op = "fill"      -> Keep(st, K, IF p[3] < 0 THEN No ELSE Repeat(<<p[2]>>, p[3]))
       [] op = "fromRaw"   -> Keep(st, K, Part(a[2], p[2], p[3]))
       [] op = "copy"      -> IF Str(st, p[2]) = Null THEN Refuse(st) ELSE SetStr(st, K, T)
       [] op = "self"      -> SetStr(st, K, T)                                        \* ToString
       [] op = "substring" -> Keep(st, K, Part(T, p[3], p[4]))
       [] op = "insert"    -> Keep(st, K, Inserted(T, p[3], Str(st, p[4])))
       [] op = "remove"    -> Keep(st, K, Removed(T, p[3], p[4]))
       [] op = "replaceChar" -> SetStr(st, K, ReplaceCharIn(T, p[3], p[4], 0, Len(T)))
       [] op = "replace"   -> Keep(st, K, Replaced(T, Str(st, p[3]), Str(st, p[4])))
       [] op = "padLeft"   -> Keep(st, K, Padded(T, p[3], p[4], TRUE))
       [] op = "padRight"  -> Keep(st, K, Padded(T, p[3], p[4], FALSE))
       [] op = "trim"      -> SetStr(st, K, Trimmed(T, Null, 3))
       [] op = "trimSet"   -> SetStr(st, K, Trimmed(T, Arr(st, p[3]), p[4]))
       [] op = "lower"     -> SetStr(st, K, Map(Lower, T))
       [] op = "upper"     -> SetStr(st, K, Map(Upper, T))
       [] op = "concat"    -> SetStr(st, K, Joined(st, a[2], <<>>))
                               \cup (IF a[2][1] >= 0 /\ Str(st, a[2][1]) = Null THEN Refuse(st) ELSE {})
       [] op = "concatArray" -> IF a[2] = Null THEN Refuse(st) ELSE SetStr(st, K, Joined(st, a[2], <<>>))
       [] op = "joinChar"  -> Join(st, K, <<p[2]>>, a[2], p[3], p[4])
       [] op = "join"      -> Join(st, K, IF Str(st, p[2]) = Null THEN <<>> ELSE T, a[2], p[3], p[4])
       [] op = "builder"   -> SetStr(st, K, T)          \* text of a builder over the receiver, which is edited afterwards
       (* arrays *)
       [] op = "newArray"  -> SetArr(st, K, a[2])
       [] op = "put"       -> IF p[2] < 0 \/ p[2] >= Len(st.a[K]) THEN Refuse(st) ELSE SetArr(st, K, [st.a[K] EXCEPT ![p[2] + 1] = p[3]])
       [] op = "toArray"   -> LET u == Part(T, p[3], p[4]) IN IF u = No THEN Refuse(st) ELSE SetArr(st, K, u)
       [] op = "copyTo"    -> CopyTo(st, p[2], p[3], K, p[4], p[5])
       (* queries *)
       [] op = "char"      -> IF p[3] < 0 \/ p[3] >= Len(T) THEN Refuse(st) ELSE Answer(st, <<<<T[p[3] + 1]>>>>)
       [] op = "format"    -> IF p[3] <= Len(T) THEN Refuse(st) ELSE Answer(st, <<T>>)
       [] op = "empty"     -> Answer(st, <<<<Bool(Str(st, p[2]) = Null \/ T = <<>>)>>>>)
       [] op = "blank"     -> Answer(st, <<<<Bool(Str(st, p[2]) = Null \/ \A i \in 1..Len(T) : Blank(T[i]))>>>>)
       [] OTHER -> {}

HeapSeen(st) == [i \in 1..(NS + NA) |-> IF i <= NS THEN st.s[i] ELSE st.a[i - NS]]
HeapApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> HeapSeen(o.st)] : o \in HeapSteps(op, st, a) }
HeapExplain(st, e) == Explained(HeapApply(e.op, st, e.a), e)
=============================================================================
