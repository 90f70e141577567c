------------------------------- MODULE Floats -------------------------------
(* Double and Single values: classification, order, neighbours, exponent and scaling, and their text.  The state: the
   type t (12 single, 13 double), two values x and y of it, and the text s a program has at hand.                   *)
EXTENDS Big

FloatInit == [t |-> 13, x |-> Zero(8), y |-> Zero(8), s |-> <<>>]

NaNOf(t) == Pack(t, FALSE, TopExponent(t), <<1>> \o Zeros(MantBits(t) - 1))
GreatestOf(t) == Pack(t, FALSE, TopExponent(t) - 1, Eager([i \in 1..MantBits(t) |-> 1]))
TiniestOf(t) == [i \in 1..Bytes(t) |-> Bool(i = 1)]
Opposite(w) == [w EXCEPT ![Len(w)] = (@ + 128) % 256]
IsWord(v, n) == Len(v) = n /\ \A i \in 1..n : v[i] \in 0..255
Same(t, a, b) == IsWord(b, Bytes(t)) /\ (a = b \/ (IsNaNW(t, a) /\ IsNaNW(t, b)))

NegativeV(t, w) == IsNaNW(t, w) \/ Negative(w)
(* finite infinite NaN negative normal subnormal +infinity -infinity *)
Class(t, w) ==
  <<Bool(Finite(t, w)), Bool(IsInf(t, w)), Bool(IsNaNW(t, w)), Bool(NegativeV(t, w)),
    Bool(Finite(t, w) /\ Exponent(t, w) # 0), Bool(Exponent(t, w) = 0 /\ ~IsZero(Fraction(t, w))),
    Bool(IsInf(t, w) /\ ~Negative(w)), Bool(IsInf(t, w) /\ Negative(w))>>
Comparison(st) == LET c == CmpF(st.t, st.x, st.y) IN <<<<c, c>>, <<Bool(c = 0), Bool(c = 0)>>, <<1, 0>>>>     \* last: against null

(* neighbours *)
One8(w) == ToWord(1, Len(w))
Up(t, w) ==
  IF IsNaNW(t, w) \/ (IsInf(t, w) /\ ~Negative(w)) THEN w
  ELSE IF w = Opposite(Zero(Bytes(t))) THEN TiniestOf(t)
  ELSE IF Negative(w) THEN Sub(w, One8(w)) ELSE Add(w, One8(w))
Down(t, w) == IF IsNaNW(t, w) THEN w ELSE Opposite(Up(t, Opposite(w)))

CopySign(t, x, y) == IF NegativeV(t, y) = Negative(x) THEN x ELSE Opposite(x)
Larger(t, x, y) ==
  IF IsNaNW(t, x) \/ IsNaNW(t, y) THEN NaNOf(t)
  ELSE LET c == CmpF(t, x, y) IN IF c > 0 THEN x ELSE IF c < 0 THEN y ELSE IF Negative(x) THEN y ELSE x
Smaller(t, x, y) == IF IsNaNW(t, x) \/ IsNaNW(t, y) THEN NaNOf(t) ELSE IF Larger(t, x, y) = x THEN y ELSE x
LargerMagn(t, x, y) ==
  IF IsNaNW(t, x) \/ IsNaNW(t, y) THEN NaNOf(t)
  ELSE LET c == CmpF(t, Magn(x), Magn(y)) IN IF c > 0 THEN x ELSE IF c < 0 THEN y ELSE IF Negative(x) THEN y ELSE x
SmallerMagn(t, x, y) == IF IsNaNW(t, x) \/ IsNaNW(t, y) THEN NaNOf(t) ELSE IF LargerMagn(t, x, y) = x THEN y ELSE x

(* exponent and scaling *)
LeastInt == -2147483647 - 1
ILogB(t, w) ==
  IF ~Finite(t, w) THEN 2147483647 ELSE IF IsZero(Magn(w)) THEN LeastInt
  ELSE Len(BigBits(SigOf(t, w))) - 1 + LastWeight(t, w)
ScaleB(t, w, n) ==
  IF ~Finite(t, w) \/ IsZero(Magn(w)) THEN w
  ELSE LET m == IF n > 5000 THEN 5000 ELSE IF n < -5000 THEN -5000 ELSE n IN Nearest(t, Negative(w), SigOf(t, w), LastWeight(t, w) + m)

------------------------------------------------------------------------------
(* decimal text: [ws] [sign] digits [. digits] [e [sign] digits] [ws] *)
Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Digit(c) == c >= 48 /\ c <= 57
Strip(s) == LET k == {i \in 1..Len(s) : ~Blank(s[i])} IN
            IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : i >= j)
RECURSIVE DigitRun(_, _)
DigitRun(s, i) == IF i > Len(s) THEN i ELSE IF Digit(s[i]) THEN DigitRun(s, i + 1) ELSE i     \* first position that is not a digit
RECURSIVE Capped(_, _, _)
Capped(s, i, acc) == IF i > Len(s) THEN acc ELSE Capped(s, i + 1, Min2(9999999, acc * 10 + s[i] - 48))
NoNumber == [ok |-> FALSE, neg |-> FALSE, digits |-> <<>>, scale |-> 0]
(* the number read is  (-1)^neg * digits * 10^scale; digits are without leading zeros *)
ReadDecimal(s0) ==
  LET s == Strip(s0)
      signed == s # <<>> /\ s[1] \in {43, 45}
      b == IF signed THEN 2 ELSE 1
      e1 == DigitRun(s, b)                                             \* behind the integer digits
      dot == e1 <= Len(s) /\ s[e1] = 46
      e2 == IF dot THEN DigitRun(s, e1 + 1) ELSE e1                    \* behind the fraction
      int == SubSeq(s, b, e1 - 1)
      frac == IF dot THEN SubSeq(s, e1 + 1, e2 - 1) ELSE <<>>
      rest == SubSeq(s, e2, Len(s))
      exp == IF rest = <<>> THEN <<>> ELSE Tail(rest)
      esign == exp # <<>> /\ exp[1] \in {43, 45}
      ed == IF esign THEN Tail(exp) ELSE exp
      good == /\ int \o frac # <<>>
              /\ rest = <<>> \/ (rest[1] \in {69, 101} /\ ed # <<>> /\ \A i \in 1..Len(ed) : Digit(ed[i]))
      all == int \o frac
      nz == {i \in 1..Len(all) : all[i] # 48}
      ev == IF ed = <<>> THEN 0 ELSE Capped(ed, 1, 0)
  IN IF ~good THEN NoNumber
     ELSE [ok |-> TRUE, neg |-> signed /\ s[1] = 45,
           digits |-> IF nz = {} THEN <<>>
                      ELSE LET f == CHOOSE i \in nz : \A j \in nz : i <= j IN Eager([i \in 1..(Len(all) - f + 1) |-> all[f + i - 1] - 48]),
           scale |-> (IF esign /\ exp[1] = 45 THEN -ev ELSE ev) - Len(frac)]
RECURSIVE NumberOf(_, _, _)
NumberOf(digits, i, acc) == IF i > Len(digits) THEN acc ELSE NumberOf(digits, i + 1, Norm(AddFrom(MulSmall(acc \o <<0>>, 10), ToWord(digits[i], Len(acc) + 1), 1, 0)))
TenTo(n) == TimesPow10(<<1>>, n)
(* may w be what the text with the reading d denotes in type t?  Too great numbers may be infinite *)
Denotes(t, d, w) ==
  LET s == Min2(400, Max2(-400 - Len(d.digits), d.scale))
      n == NumberOf(d.digits, 1, <<0>>)
  IN /\ IsWord(w, Bytes(t)) /\ ~IsNaNW(t, w)
     /\ IF d.digits = <<>> THEN IsZero(Magn(w))
        ELSE /\ Negative(w) = d.neg \/ IsZero(Magn(w))
             /\ NearestRatio(t, Magn(w), IF s >= 0 THEN TimesPow10(n, s) ELSE n, IF s >= 0 THEN <<1>> ELSE TenTo(-s))
TooGreat(t, d) == Denotes(t, d, InfOf(t, d.neg))
ParseOk(st, r) ==
  IF st.s = Null THEN ResultMatches(Throw("ArgumentNull"), r)
  ELSE LET d == ReadDecimal(st.s) IN
       IF ~d.ok THEN ResultMatches(Throw("Format"), r)
       ELSE \/ r.k = "ok" /\ Len(r.v) = 1 /\ Denotes(st.t, d, r.v[1])
            \/ TooGreat(st.t, d) /\ ResultMatches(Throw("Overflow"), r)
TryParseOk(st, r) ==
  /\ r.k = "ok" /\ Len(r.v) = 2
  /\ LET d == IF st.s = Null THEN NoNumber ELSE ReadDecimal(st.s) IN
     IF ~d.ok THEN r.v = <<<<0>>, Zero(Bytes(st.t))>>
     ELSE (r.v[1] = <<1>> /\ Denotes(st.t, d, r.v[2])) \/ (TooGreat(st.t, d) /\ r.v = <<<<0>>, Zero(Bytes(st.t))>>)

(* six digits d and the decimal exponent x of the first, as text *)
RECURSIVE NoTrailing(_)
NoTrailing(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NoTrailing(SubSeq(d, 1, Len(d) - 1)) ELSE d
Chars(d) == [i \in 1..Len(d) |-> 48 + d[i]]
Fractional(d) == LET f == NoTrailing(d) IN IF f = <<>> THEN <<>> ELSE <<46>> \o Chars(f)
ExponentText(x) == LET a == IF x < 0 THEN -x ELSE x IN
  <<69, IF x < 0 THEN 45 ELSE 43>> \o (IF a >= 100 THEN <<48 + (a \div 100)>> ELSE <<>>) \o <<48 + ((a \div 10) % 10), 48 + (a % 10)>>
Shown(neg, d, x) ==
  (IF neg THEN <<45>> ELSE <<>>) \o
  (IF x < -4 \/ x >= 6 THEN Chars(SubSeq(d, 1, 1)) \o Fractional(Tail(d)) \o ExponentText(x)
   ELSE IF x >= 0 THEN Chars(SubSeq(d, 1, x + 1)) \o Fractional(SubSeq(d, x + 2, 6))
   ELSE <<48>> \o Fractional(Rep(0, -x - 1) \o d))
(* is s the text of the finite value w? *)
TextOk(t, w, s) ==
  LET d == ReadDecimal(s)  sig == NoTrailing(d.digits) IN
  /\ d.ok
  /\ IF IsZero(Magn(w)) THEN s = (IF Negative(w) THEN <<45, 48>> ELSE <<48>>)
     ELSE /\ sig # <<>> /\ Len(sig) <= 6
          /\ LET six == sig \o Rep(0, 6 - Len(sig))  x == d.scale + Len(d.digits) - 1
                 n == NumberOf(six, 1, <<0>>)  p == x - 5                      \* n * 10^p against the value
                 lhs(k) == BigMul(BigSmall(SigOf(t, w), k), TenTo(Max2(0, -p)))            \* k * value, scaled
                 rhs(v) == BigMul(v, TenTo(Max2(0, p)))
                 cmp(k, v) == ScaledCmp(lhs(k), LastWeight(t, w), rhs(v), 0)   \* k * value against v * 10^p
                 n2 == BigSmall(n, 2)
                 above == cmp(2, BigAdd(n2, <<1>>))  below == cmp(2, BigSub(n2, <<1>>))
             IN /\ s = Shown(Negative(w), six, x) /\ x > -400 /\ x < 400
                /\ above < 0 \/ (above = 0 /\ ~Odd(n))
                /\ below > 0 \/ (below = 0 /\ ~Odd(n))
                /\ n = BigOf(100000) => cmp(20, BigSub(BigSmall(n, 20), <<1>>)) >= 0

------------------------------------------------------------------------------
Observe(st) == <<<<st.t>>, st.x, st.y, st.s>>
(* operations with one result, a value of type st.t *)
Valued == {"copySign", "max", "min", "maxMagn", "minMagn", "scaleB"}
ValueOf(op, st, a) ==
  CASE op = "copySign" -> CopySign(st.t, st.x, st.y)
    [] op = "max" -> Larger(st.t, st.x, st.y)
    [] op = "min" -> Smaller(st.t, st.x, st.y)
    [] op = "maxMagn" -> LargerMagn(st.t, st.x, st.y)
    [] op = "minMagn" -> SmallerMagn(st.t, st.x, st.y)
    [] op = "scaleB" -> ScaleB(st.t, st.x, a[1][1])
FloatSteps(op, st, a) ==
  CASE op = "let"    -> { [st |-> [t |-> a[1][1], x |-> a[2], y |-> a[3], s |-> st.s], r |-> Ok(<<>>)] }
    [] op = "set"    -> { [st |-> [st EXCEPT !.s = a[1]], r |-> Ok(<<>>)] }
    [] op = "append" -> { [st |-> [st EXCEPT !.s = @ \o a[1]], r |-> Ok(<<>>)] }
    [] op = "swap"   -> { [st |-> [st EXCEPT !.x = st.y, !.y = st.x], r |-> Ok(<<>>)] }
    [] op = "up"     -> { [st |-> [st EXCEPT !.x = Up(st.t, st.x)], r |-> Ok(<<>>)] }
    [] op = "down"   -> { [st |-> [st EXCEPT !.x = Down(st.t, st.x)], r |-> Ok(<<>>)] }
    [] op = "class"  -> { [st |-> st, r |-> Ok(<<Class(st.t, st.x)>>)] }
    [] op = "cmp"    -> { [st |-> st, r |-> Ok(Comparison(st))] }
    [] op = "bits"   -> { [st |-> st, r |-> Ok(<<st.x, st.y>>)] }          \* singles only
    [] op = "ilogb"  -> { [st |-> st, r |-> Ok(<<<<ILogB(st.t, st.x)>>>>)] }
    [] op = "limits" -> { [st |-> st, r |-> Ok(<<GreatestOf(st.t), Opposite(GreatestOf(st.t)), TiniestOf(st.t), InfOf(st.t, FALSE), InfOf(st.t, TRUE), <<1>>>>)] }
    [] op \in Valued -> { [st |-> st, r |-> Ok(<<ValueOf(op, st, a)>>)] }
    [] OTHER -> {}
FloatApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in FloatSteps(op, st, a) }
FloatExplain(st, e) ==
  CASE e.op \in {"text", "parse", "tryParse"} ->
         IF /\ e.s = Observe(st)
            /\ CASE e.op = "parse" -> ParseOk(st, e.r)
                 [] e.op = "tryParse" -> TryParseOk(st, e.r)
                 [] OTHER -> e.r.k = "ok" /\ Len(e.r.v) = 1 /\ TextOk(st.t, st.x, e.r.v[1])
         THEN {st} ELSE {}
    [] e.op \in Valued ->
         IF e.r.k = "ok" /\ e.s = Observe(st) /\ Len(e.r.v) = 1 /\ Same(st.t, ValueOf(e.op, st, e.a), e.r.v[1]) THEN {st} ELSE {}
    [] OTHER -> Explained(FloatApply(e.op, st, e.a), e)
=============================================================================
