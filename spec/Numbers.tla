------------------------------ MODULE Numbers ------------------------------
(* Text of the integers, of Boolean and of Char, and back.  The state is the text a program has at hand.           *)
EXTENDS Text

Ints == 4..11                                   \* SByte Byte Int16 UInt16 Int32 UInt32 Int64 UInt64
IntWidth == [t \in Ints |-> CASE t <= 5 -> 1 [] t <= 7 -> 2 [] t <= 9 -> 4 [] OTHER -> 8]
SignedT == [t \in Ints |-> t % 2 = 0]
Highest == [t \in Ints |-> [i \in 1..IntWidth[t] |-> IF i = IntWidth[t] /\ SignedT[t] THEN 127 ELSE 255]]
Lowest  == [t \in Ints |-> [i \in 1..IntWidth[t] |-> IF i = IntWidth[t] /\ SignedT[t] THEN 128 ELSE 0]]
(* greatest magnitude of a value with the given sign, as decimal digits *)
Limit == [t \in Ints |-> [neg \in BOOLEAN |-> DigitsOf(MagnitudeOf(IF neg THEN Lowest[t] ELSE Highest[t], SignedT[t]))]]

NumInit == <<>>

Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c) == c >= 48 /\ c <= 57
Fold(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

(* [ws] [sign] digits [ws]: the sign and the digits without leading zeros, or Malformed *)
Malformed == [neg |-> FALSE, digits |-> <<-1>>]
Skip(s) == LET k == {i \in 1..Len(s) : ~Blank(s[i])} IN
           IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : i >= j)
Literal(s) ==
  LET t == Skip(s)
      signed == t # <<>> /\ t[1] \in {43, 45}
      d == IF signed THEN Tail(t) ELSE t
      nz == {i \in 1..Len(d) : d[i] # 48}
  IN IF d = <<>> \/ \E i \in 1..Len(d) : ~Digit(d[i]) THEN Malformed
     ELSE [neg |-> signed /\ t[1] = 45,
           digits |-> IF nz = {} THEN <<>>
                      ELSE LET f == CHOOSE i \in nz : \A j \in nz : i <= j IN [i \in 1..(Len(d) - f + 1) |-> d[f + i - 1] - 48]]
LessOrEqual(a, b) ==                            \* of digit sequences without leading zeros
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]
(* the word of a digit sequence that fits *)
TimesTen(w, d) ==
  LET c[i \in 0..Len(w)] == IF i = 0 THEN d ELSE (w[i] * 10 + c[i-1]) \div 256
  IN Eager([i \in 1..Len(w) |-> (w[i] * 10 + c[i-1]) % 256])
RECURSIVE Accumulate(_, _, _)
Accumulate(w, digits, i) == IF i > Len(digits) THEN w ELSE Accumulate(TimesTen(w, digits[i]), digits, i + 1)
WordOf(digits, n) == Accumulate(Zero(n), digits, 1)

(* <<"ok", word>> or <<exception>> *)
ReadInt(t, s) ==
  LET l == Literal(s) IN
  IF l = Malformed THEN <<"Format">>
  ELSE IF ~LessOrEqual(l.digits, Limit[t][l.neg]) THEN <<"Overflow">>
  ELSE <<"ok", LET w == WordOf(l.digits, IntWidth[t]) IN IF l.neg THEN Neg(w) ELSE w>>
ReadBool(s) == LET f == [i \in 1..Len(s) |-> Fold(s[i])] IN
  IF f = <<116, 114, 117, 101>> THEN <<"ok", <<1>>>> ELSE IF f = <<102, 97, 108, 115, 101>> THEN <<"ok", <<0>>>> ELSE <<"Format">>
Read(t, s) == CASE t \in Ints -> ReadInt(t, s)
                [] t = 2 -> ReadBool(s)
                [] OTHER -> IF Len(s) = 1 THEN <<"ok", s>> ELSE <<"Format">>

Parse(st, t) ==
  { [st |-> st, r |-> IF st = Null THEN (IF t = 2 THEN Reject ELSE Throw("ArgumentNull"))
                      ELSE LET x == Read(t, st) IN IF x[1] = "ok" THEN Ok(<<x[2]>>) ELSE Throw(x[1])] }
ZeroOf(t) == IF t \in Ints THEN Zero(IntWidth[t]) ELSE <<0>>
TryParse(st, t) ==
  { [st |-> st, r |-> IF st = Null THEN Ok(<<<<0>>, ZeroOf(t)>>)
                      ELSE LET x == Read(t, st) IN Ok(IF x[1] = "ok" THEN <<<<1>>, x[2]>> ELSE <<<<0>>, ZeroOf(t)>>)] }
(* text of a value; it becomes the text at hand.  A Char travels as its code point *)
TextOf(t, w) == IF t = 3 THEN w ELSE ValueText(<<t>> \o w)
Show(st, t, w) == { [st |-> TextOf(t, w), r |-> Ok(<<>>)] }

NumSteps(op, st, a) ==
  CASE op = "set"      -> { [st |-> a[1], r |-> Ok(<<>>)] }
    [] op = "append"   -> { [st |-> st \o a[1], r |-> Ok(<<>>)] }
    [] op = "show"     -> Show(st, a[1][1], a[2])
    [] op = "limit"    -> Show(st, a[1][1], IF a[1][2] = 0 THEN Lowest[a[1][1]] ELSE Highest[a[1][1]])   \* MinValue, MaxValue
    [] op = "parse"    -> Parse(st, a[1][1])
    [] op = "tryParse" -> TryParse(st, a[1][1])
    [] OTHER -> {}
NumApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> <<o.st>>] : o \in NumSteps(op, st, a) }
NumExplain(st, e) == Explained(NumApply(e.op, st, e.a), e)
=============================================================================
