------------------------------- MODULE Builder -------------------------------
(* StringBuilder: a character sequence with a capacity and a maximum capacity.  The implementation chooses the capacity;
   the specification only bounds it.                                                                               *)
EXTENDS Text

CONSTANT NB                       \* number of builders

Free == [text |-> Null, cap |-> 0, max |-> 0]
SbInit == [b \in 1..NB |-> Free]
Live(st, b) == st[b].text # Null

(* hint: sequence of <<capacity, maximum>> per builder, as observed after the call *)
Capacities(old, n, min, hint) ==            \* capacities allowed for builder contents of length n
  {c \in hint : n <= c /\ c <= old.max /\ c >= min}
Edited(st, b, t, caps) ==
  LET x == st[b] IN
  IF Len(t) > x.max THEN { [r |-> Reject, st |-> st] }
  ELSE { [r |-> Ok(<<>>), st |-> [st EXCEPT ![b].text = t, ![b].cap = c]] : c \in Capacities(x, Len(t), Len(t), caps) }
Refuse(st) == { [r |-> Reject, st |-> st] }
Same(st) == { [r |-> Ok(<<>>), st |-> st] }
Answer(st, v) == { [r |-> Ok(v), st |-> st] }

(* ------------------------------------------------------------ constructors *)
Create(st, b, t, min, maxs, caps) ==
  { [r |-> Ok(<<>>), st |-> [st EXCEPT ![b] = [text |-> t, cap |-> c, max |-> m]]] :
      <<c, m>> \in {p \in caps \X maxs : p[1] <= p[2] /\ p[1] >= min /\ p[1] >= Len(t) /\ p[2] >= Len(t)} }
Failed(st, b) == { [r |-> Reject, st |-> [st EXCEPT ![b] = Free]] }
New0(st, b, caps, maxs) == Create(st, b, <<>>, 0, maxs, caps)
New1(st, b, cap, caps, maxs) == IF cap < 0 THEN Failed(st, b) ELSE Create(st, b, <<>>, cap, maxs, caps)
New2(st, b, cap, max, caps) ==
  IF cap < 0 \/ max < 1 \/ cap > max THEN Failed(st, b) ELSE Create(st, b, <<>>, cap, {max}, caps)
NewText(st, b, t0, from, len, cap, caps, maxs) ==
  LET t == IF t0 = Null THEN <<>> ELSE t0 IN
  IF cap < 0 \/ ~RangeOk(Len(t), from, len) THEN Failed(st, b)
  ELSE Create(st, b, Slice(t, from, len), cap, maxs, caps)

(* ------------------------------------------------------------------- edits *)
Put(st, b, t, caps) == Edited(st, b, st[b].text \o t, caps)
Insert(st, b, p, t, caps) ==
  IF p < 0 \/ p > Len(st[b].text) THEN Refuse(st) ELSE Edited(st, b, InsertAt(st[b].text, p, t), caps)
AppendText(st, b, t, caps) == IF t = Null THEN Same(st) ELSE Put(st, b, t, caps)
(* part of a text; charCount -1 means all of it *)
AppendPart(st, b, t, from, n0, caps) ==
  IF t = Null THEN (IF from = 0 /\ n0 <= 0 THEN Same(st) ELSE Refuse(st))
  ELSE LET n == IF n0 = -1 THEN Len(t) ELSE n0 IN
       IF ~RangeOk(Len(t), from, n) THEN Refuse(st) ELSE Put(st, b, Slice(t, from, n), caps)
(* an empty part of an array is nothing, wherever it starts *)
EmptyPart(st, n) == IF n = 0 THEN Same(st) ELSE {}
AppendRepeat(st, b, c, n, caps) ==
  IF n < 0 THEN Refuse(st)
  ELSE IF n > st[b].max - Len(st[b].text) THEN Refuse(st)
  ELSE Put(st, b, Repeat(<<c>>, n), caps)
InsertText(st, b, p, t, caps) == Insert(st, b, p, IF t = Null THEN <<>> ELSE t, caps)
InsertRepeat(st, b, p, t, n, caps) ==
  IF p < 0 \/ p > Len(st[b].text) THEN Refuse(st)
  ELSE IF t = Null \/ t = <<>> \/ n <= 0 THEN Same(st) \cup (IF n < 0 THEN Refuse(st) ELSE {})
  ELSE IF n > (st[b].max - Len(st[b].text)) \div Len(t) THEN Refuse(st)
  ELSE Insert(st, b, p, Repeat(t, n), caps)
InsertPart(st, b, p, t, from, n0, caps) ==
  IF p < 0 \/ p > Len(st[b].text) THEN Refuse(st)
  ELSE IF t = Null THEN Same(st)
  ELSE LET n == IF n0 = -1 THEN Len(t) ELSE n0 IN
       IF ~RangeOk(Len(t), from, n) THEN Refuse(st) \cup EmptyPart(st, n) ELSE Insert(st, b, p, Slice(t, from, n), caps)
Remove(st, b, p, n, caps) ==
  IF ~RangeOk(Len(st[b].text), p, n) THEN Refuse(st) ELSE Edited(st, b, RemoveAt(st[b].text, p, n), caps)
ReplaceText(st, b, old, new, from, n, caps) ==
  IF old = Null \/ old = <<>> \/ ~RangeOk(Len(st[b].text), from, n) THEN Refuse(st)
  ELSE Edited(st, b, ReplaceIn(st[b].text, old, IF new = Null THEN <<>> ELSE new, from, n), caps)
ReplaceChar(st, b, old, new, from, n, caps) ==
  IF ~RangeOk(Len(st[b].text), from, n) THEN Refuse(st)
  ELSE Edited(st, b, ReplaceCharIn(st[b].text, old, new, from, n), caps)
SetLength(st, b, n, caps) ==
  IF n < 0 \/ n > st[b].max THEN Refuse(st)
  ELSE LET t == st[b].text IN Edited(st, b, IF n <= Len(t) THEN TakeN(t, n) ELSE t \o Zero(n - Len(t)), caps)
SetChar(st, b, p, c) ==
  IF p < 0 \/ p >= Len(st[b].text) THEN Refuse(st)
  ELSE { [r |-> Ok(<<>>), st |-> [st EXCEPT ![b].text[p + 1] = c]] }

(* ---------------------------------------------------------------- capacity *)
SetCapacity(st, b, n, caps) ==
  LET x == st[b] IN
  IF n < Len(x.text) \/ n > x.max \/ n < 0 THEN Refuse(st)
  ELSE { [r |-> Ok(<<>>), st |-> [st EXCEPT ![b].cap = c]] : c \in Capacities(x, Len(x.text), n, caps) }
       \cup (IF n < x.cap THEN Refuse(st) ELSE {})
EnsureCapacity(st, b, n, caps) ==
  LET x == st[b] IN
  IF n < 0 \/ n > x.max THEN Refuse(st)
  ELSE { [r |-> Ok(<<<<c>>>>), st |-> [st EXCEPT ![b].cap = c]] : c \in Capacities(x, Len(x.text), Max2(n, x.cap), caps) }

(* ----------------------------------------------------------------- queries *)
SubText(st, b, from, n) ==
  IF ~RangeOk(Len(st[b].text), from, n) THEN Refuse(st) ELSE Answer(st, <<Slice(st[b].text, from, n)>>)
GetChar(st, b, p) ==
  IF p < 0 \/ p >= Len(st[b].text) THEN Refuse(st) ELSE Answer(st, <<<<st[b].text[p + 1]>>>>)
Equal(st, b, c) ==
  Answer(st, << <<Bool(c > 0 /\ Live(st, c) /\ st[b] = st[c])>> >>)
Format(st, b, size) ==          \* into a buffer that also has to hold a terminator
  IF size <= Len(st[b].text) THEN Refuse(st) ELSE Answer(st, <<st[b].text>>)
CountIn(st, b, t, from, n) ==
  IF t = Null \/ ~RangeOk(Len(st[b].text), from, n) THEN Refuse(st)
  ELSE Answer(st, << <<IF t = <<>> THEN 0 ELSE Len(Occurrences(st[b].text, t, from, from + n))>> >>)

Steps(op, st, a, caps, maxs) ==
  LET b == a[1][1] IN
  CASE op = "new0" -> New0(st, b, caps, maxs)
    [] op = "new1" -> New1(st, b, a[1][2], caps, maxs)
    [] op = "new2" -> New2(st, b, a[1][2], a[1][3], caps)
    [] op = "newText0" -> NewText(st, b, a[2], 0, IF a[2] = Null THEN 0 ELSE Len(a[2]), 0, caps, maxs)
    [] op = "newText1" -> NewText(st, b, a[2], 0, IF a[2] = Null THEN 0 ELSE Len(a[2]), a[1][2], caps, maxs)
    [] op = "newText3" -> NewText(st, b, a[2], a[1][2], a[1][3], a[1][4], caps, maxs)
    [] op = "delete" -> { [r |-> Ok(<<>>), st |-> [st EXCEPT ![b] = Free]] }
    [] op \in {"appendString", "appendArray", "appendObject"} -> AppendText(st, b, a[2], caps)
    [] op = "appendRaw" -> IF a[1][2] < 0 \/ a[1][2] > Len(a[2]) THEN Refuse(st) ELSE Put(st, b, TakeN(a[2], a[1][2]), caps)
    [] op = "appendPart" -> AppendPart(st, b, a[2], a[1][2], a[1][3], caps)
    [] op = "appendArrayPart" -> IF a[2] = Null THEN Same(st) ELSE AppendPart(st, b, a[2], a[1][2], a[1][3], caps) \cup EmptyPart(st, a[1][3])
    [] op = "appendRepeat" -> AppendRepeat(st, b, a[1][2], a[1][3], caps)
    [] op = "appendValue" -> Put(st, b, ValueText(a[2]), caps)
    [] op = "appendBoxed" -> Put(st, b, ValueText(a[2]), caps)
    [] op = "appendLine" -> Put(st, b, (IF a[2] = Null THEN <<>> ELSE a[2]) \o <<13, 10>>, caps)
    [] op \in {"insertString", "insertObject", "insertArray"} -> InsertText(st, b, a[1][2], a[2], caps)
    \* another builder, or this one, given as an object
    [] op = "appendBuilder" -> AppendText(st, b, IF a[1][2] = 0 THEN Null ELSE st[a[1][2]].text, caps)
    [] op = "insertBuilder" -> InsertText(st, b, a[1][2], IF a[1][3] = 0 THEN Null ELSE st[a[1][3]].text, caps)
    [] op = "insertRepeat" -> InsertRepeat(st, b, a[1][2], a[2], a[1][3], caps)
    [] op = "insertPart" -> InsertPart(st, b, a[1][2], a[2], a[1][3], a[1][4], caps)
    [] op = "insertValue" -> Insert(st, b, a[1][2], ValueText(a[2]), caps)
    [] op = "insertBoxed" -> Insert(st, b, a[1][2], ValueText(a[2]), caps)
    [] op = "remove" -> Remove(st, b, a[1][2], a[1][3], caps)
    [] op = "replace" -> ReplaceText(st, b, a[2], a[3], 0, Len(st[b].text), caps)
    [] op = "replacePart" -> ReplaceText(st, b, a[2], a[3], a[1][2], a[1][3], caps)
    [] op = "replaceChar" -> ReplaceChar(st, b, a[1][2], a[1][3], 0, Len(st[b].text), caps)
    [] op = "replaceCharPart" -> ReplaceChar(st, b, a[1][2], a[1][3], a[1][4], a[1][5], caps)
    [] op = "clear" -> Edited(st, b, <<>>, caps)
    [] op = "setLength" -> SetLength(st, b, a[1][2], caps)
    [] op = "setChar" -> SetChar(st, b, a[1][2], a[1][3])
    [] op = "setCapacity" -> SetCapacity(st, b, a[1][2], caps)
    [] op = "ensureCapacity" -> EnsureCapacity(st, b, a[1][2], caps)
    [] op = "subText" -> SubText(st, b, a[1][2], a[1][3])
    [] op = "getChar" -> GetChar(st, b, a[1][2])
    [] op = "equals" -> Equal(st, b, a[1][2])
    [] op = "format" -> Format(st, b, a[1][2])
    [] op = "count" -> CountIn(st, b, a[2], a[1][2], a[1][3])
    [] op = "other" -> { [r |-> Reject, st |-> st] }         \* an array of numbers, or a table
    [] OTHER -> {}

(* observed of every builder: the text as a string, <<length, capacity, maximum>>; a free builder is null *)
Seen(x) == IF x.text = Null THEN <<Null, <<>>>> ELSE <<x.text, <<Len(x.text), x.cap, x.max>>>>
Observation(st) == LET f[b \in 0..NB] == IF b = 0 THEN <<>> ELSE f[b-1] \o Seen(st[b]) IN f[NB]
SbApply(op, st, a, caps, maxs) == { [r |-> o.r, st |-> o.st, s |-> Observation(o.st)] : o \in Steps(op, st, a, caps, maxs) }
SbExplain(st, e) ==
  LET k == 2 * e.a[1][1] IN
  IF k > Len(e.s) THEN {}
  ELSE IF Len(e.s[k]) = 3 THEN Explained(SbApply(e.op, st, e.a, {e.s[k][2]}, {e.s[k][3]}), e)
  ELSE Explained(SbApply(e.op, st, e.a, {}, {}), e)
------------------------------------------------------------------------------
Bounded(x) == x.text = Null \/ (Len(x.text) <= x.cap /\ x.cap <= x.max)
=============================================================================
