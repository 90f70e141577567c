------------------------------- MODULE Chars --------------------------------
(* Enumerating strings, and what the ASCII characters are.  The state: two strings (or null) and three enumerators, each
   not there (k = 0) or over the characters c that its string had when it was made, at position p: 0 before the first
   character, Len(c) + 1 behind the last.                                                                           *)
EXTENDS Text

NoEnum == [on |-> 0, c |-> <<>>, p |-> 0]
CharInit == [s |-> <<<<>>, <<>>>>, e |-> <<NoEnum, NoEnum, NoEnum>>]

(* ASCII *)
Between(c, a, b) == c >= a /\ c <= b
Control(c) == Between(c, 0, 31) \/ c = 127
Digit(c) == Between(c, 48, 57)
UpperL(c) == Between(c, 65, 90)
LowerL(c) == Between(c, 97, 122)
Letter(c) == UpperL(c) \/ LowerL(c)
White(c) == Between(c, 9, 13) \/ c = 32
Punct(c) == Between(c, 33, 126) /\ ~Letter(c) /\ ~Digit(c)
ToUpper(c) == IF LowerL(c) THEN c - 32 ELSE c
ToLower(c) == IF UpperL(c) THEN c + 32 ELSE c
Numeric(c) == IF Digit(c) THEN c - 48 ELSE -1
(* control digit letter letterOrDigit lower number punctuation separator upper whiteSpace, numeric value *)
Is(f, c) ==
  CASE f = 0 -> Bool(Control(c)) [] f \in {1, 5} -> Bool(Digit(c)) [] f = 2 -> Bool(Letter(c))
    [] f = 3 -> Bool(Letter(c) \/ Digit(c)) [] f = 4 -> Bool(LowerL(c)) [] f = 6 -> Bool(Punct(c))
    [] f \in {7, 9} -> Bool(White(c)) [] f = 8 -> Bool(UpperL(c)) [] f = 10 -> Numeric(c)
Forms == 0..10
About(c) == <<[i \in 1..11 |-> Is(i - 1, c)], <<ToUpper(c), ToLower(c)>>>>

(* what an enumerator shows: not there, refusing, or a character *)
Current(e) == IF e.on = 0 THEN <<0>> ELSE IF e.p < 1 \/ e.p > Len(e.c) THEN <<1>> ELSE <<2, e.c[e.p]>>
Move(e) == [e EXCEPT !.p = Min2(@ + 1, Len(e.c) + 1)]

Ret(st, r) == { [st |-> st, r |-> r] }
CharSteps(op, st, a) ==
  LET k == a[1][1] + 1 IN
  CASE op = "set"   -> Ret([st EXCEPT !.s[k] = a[2]], Ok(<<>>))
    [] op = "open"  -> Ret([st EXCEPT !.e[k] = [on |-> 1, c |-> st.s[a[1][2] + 1], p |-> 0]], Ok(<<>>))
    [] op = "next"  -> LET n == Move(st.e[k]) IN Ret([st EXCEPT !.e[k] = n], Ok(<<<<Bool(n.p <= Len(n.c))>>>>))
    [] op = "back"  -> Ret([st EXCEPT !.e[k].p = 0], Ok(<<>>))
    [] op = "about" -> Ret(st, Ok(About(a[1][1])))
    [] op = "at"    -> LET s == st.s[k]  i == a[1][2] IN                 \* string, index, form
         Ret(st, IF s = Null \/ i < 0 \/ i >= Len(s) THEN Reject ELSE Ok(<<<<Is(a[1][3], s[i + 1])>>>>))
    [] OTHER -> {}
Observe(st) == <<st.s[1], st.s[2], Current(st.e[1]), Current(st.e[2]), Current(st.e[3])>>
CharApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in CharSteps(op, st, a) }
CharExplain(st, e) == Explained(CharApply(e.op, st, e.a), e)
=============================================================================
