-------------------------------- MODULE Text --------------------------------
(* Operations on character sequences, shared by the specifications of String and StringBuilder. *)
EXTENDS Events, Words

At(s, p, t) == p >= 0 /\ p + Len(t) <= Len(s) /\ \A i \in 1..Len(t) : s[p + i] = t[i]        \* t occurs in s at p
InsertAt(s, p, t) == SubSeq(s, 1, p) \o t \o SubSeq(s, p + 1, Len(s))
RemoveAt(s, p, n) == SubSeq(s, 1, p) \o SubSeq(s, p + n + 1, Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
TakeN(s, n) == SubSeq(s, 1, n)
RangeOk(n, from, count) == from >= 0 /\ count >= 0 /\ from <= n /\ count <= n - from
RECURSIVE Repeat(_, _)
Repeat(t, n) == IF n = 0 THEN <<>> ELSE IF n % 2 = 0 THEN LET h == Repeat(t, n \div 2) IN h \o h ELSE t \o Repeat(t, n - 1)

(* positions of the occurrences a left-to-right scan replaces: none overlaps its predecessor, all lie in [from, to) *)
RECURSIVE Occurrences(_, _, _, _)
Occurrences(s, t, from, to) ==
  IF from + Len(t) > to THEN <<>>
  ELSE IF At(s, from, t) THEN <<from>> \o Occurrences(s, t, from + Len(t), to)
  ELSE Occurrences(s, t, from + 1, to)
RECURSIVE Splice(_, _, _, _, _)
Splice(s, n, pos, new, done) ==      \* replace the n characters at each of the positions pos; done characters are copied
  IF pos = <<>> THEN Drop(s, done)
  ELSE SubSeq(s, done + 1, pos[1]) \o new \o Splice(s, n, Tail(pos), new, pos[1] + n)
ReplaceIn(s, old, new, from, count) == Splice(s, Len(old), Occurrences(s, old, from, from + count), new, 0)
ReplaceCharIn(s, old, new, from, count) ==
  [i \in 1..Len(s) |-> IF i > from /\ i <= from + count /\ s[i] = old THEN new ELSE s[i]]

(* decimal digits of an unsigned word, most significant first *)
RECURSIVE DigitsOf(_)
DigitsOf(w) ==
  IF IsZero(w) THEN <<>>
  ELSE LET n == Len(w)
           rem[i \in 1..(n+1)] == IF i = n + 1 THEN 0 ELSE (rem[i+1] * 256 + w[i]) % 10
           q == Eager([i \in 1..n |-> (rem[i+1] * 256 + w[i]) \div 10])
       IN DigitsOf(q) \o <<rem[1]>>
Decimal(w, signed) ==
  LET d == DigitsOf(MagnitudeOf(w, signed)) IN
  (IF signed /\ Negative(w) THEN <<45>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE [i \in 1..Len(d) |-> 48 + d[i]])
TrueText == <<84, 114, 117, 101>>
FalseText == <<70, 97, 108, 115, 101>>
(* text of a value <<type>> \o bytes: Boolean, Char and the integers *)
ValueText(v) == LET w == Tail(v) IN
  CASE v[1] = 2 -> IF IsZero(w) THEN FalseText ELSE TrueText
    [] v[1] = 3 -> <<w[1] + 256 * w[2] + 65536 * w[3]>>
    [] OTHER -> Decimal(w, v[1] \in {4, 6, 8, 10})
=============================================================================
