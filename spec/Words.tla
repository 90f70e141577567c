------------------------------- MODULE Words -------------------------------
(* Machine words as sequences of bytes, least significant first, and their conversions.  TLC's integers have 32 bits,
   so every wider value lives here.                                                                             *)
EXTENDS Integers, Sequences

(* TLC keeps a function constructor unevaluated and evaluates it again at every application; this makes it a tuple *)
Eager(s) == s \o <<>>

Pow2 == [k \in 0..30 |-> 2^k]
ByteBit(b, k) == (b \div Pow2[k]) % 2                              \* k = 0 is the least significant bit
Negative(w) == w[Len(w)] >= 128
FillOf(w, signed) == IF signed /\ Negative(w) THEN 255 ELSE 0
(* extend or truncate to n bytes *)
Resize(w, n, signed) == [i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE FillOf(w, signed)]
Zero(n) == [i \in 1..n |-> 0]
IsZero(w) == \A i \in DOMAIN w : w[i] = 0

(* arithmetic modulo 256^Len(a); both operands have the same length *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Len(a) THEN <<>>
  ELSE LET x == a[i] + b[i] + c IN <<x % 256>> \o AddFrom(a, b, i + 1, x \div 256)
AddC(a, b, c0) == AddFrom(a, b, 1, c0)
Not(a) == Eager([i \in 1..Len(a) |-> 255 - a[i]])
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, Not(b), 1)
Neg(a) == AddC(Zero(Len(a)), Not(a), 1)
MagnitudeOf(w, signed) == IF signed /\ Negative(w) THEN Neg(w) ELSE w     \* unsigned reading of the magnitude

(* unsigned comparison -1, 0, 1 *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
CmpU(a, b) == CmpFrom(a, b, Len(a))
FlipTop(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
CmpS(a, b) == CmpU(FlipTop(a), FlipTop(b))
Cmp(a, b, signed) == IF signed THEN CmpS(a, b) ELSE CmpU(a, b)

(* a non-negative integer below 2^31 as n bytes, and back *)
ToWord(v, n) == [i \in 1..n |-> IF i > 4 THEN 0 ELSE (v \div Pow2[8 * (i - 1)]) % 256]
SToWord(v, n) == IF v >= 0 THEN ToWord(v, n) ELSE Not(ToWord(-(v + 1), n))

(* bits, most significant first *)
BitsOf(w) == Eager([i \in 1..(8 * Len(w)) |-> LET k == 8 * Len(w) - i IN ByteBit(w[(k \div 8) + 1], k % 8)])
FromBits(bits) ==
  LET n == Len(bits) \div 8
      bit(k) == bits[Len(bits) - k]
  IN Eager([i \in 1..n |-> LET o == 8 * (i - 1) IN
        bit(o) + 2*bit(o+1) + 4*bit(o+2) + 8*bit(o+3) + 16*bit(o+4) + 32*bit(o+5) + 64*bit(o+6) + 128*bit(o+7)])

------------------------------------------------------------------------------
(* IEEE 754: encoding of  (-1)^sign * magnitude * 2^scale  with mb mantissa bits and eb exponent bits, rounded to
   nearest, ties to even; magnitude is a bit sequence, most significant first.  Only for results in the normal range
   (or zero). *)
RECURSIVE FirstFrom(_, _)
FirstFrom(bits, i) == IF i > Len(bits) THEN 0 ELSE IF bits[i] = 1 THEN i ELSE FirstFrom(bits, i + 1)
FirstOne(bits) == FirstFrom(bits, 1)
RECURSIVE LastFrom(_, _)
LastFrom(bits, i) == IF i = 0 THEN 0 ELSE IF bits[i] = 1 THEN i ELSE LastFrom(bits, i - 1)
LastOne(bits) == LastFrom(bits, Len(bits))
RECURSIVE LastClear(_, _)
LastClear(bits, i) == IF i = 0 \/ bits[i] = 0 THEN i ELSE LastClear(bits, i - 1)
IncBits(bits) ==        \* carry and bits + 1
  LET z == LastClear(bits, Len(bits))
  IN [carry |-> IF z = 0 THEN 1 ELSE 0,
      bits |-> Eager([i \in 1..Len(bits) |-> IF i < z THEN bits[i] ELSE IF i = z THEN 1 ELSE 0])]
IntBits(v, n) == [i \in 1..n |-> IF n - i > 30 THEN 0 ELSE (v \div Pow2[n - i]) % 2]
EncodeF(sign, bits, scale, mb, eb) ==
  LET f == FirstOne(bits) IN
  IF f = 0 THEN FromBits(<<sign>> \o [i \in 1..(mb + eb) |-> 0])
  ELSE LET at(i) == IF f + i <= Len(bits) THEN bits[f + i] ELSE 0
           e0 == Len(bits) - f + scale
           mant == Eager([i \in 1..mb |-> at(i)])
           half == at(mb + 1)
           sticky == \E j \in (f + mb + 2)..Len(bits) : bits[j] = 1
           up == half = 1 /\ (sticky \/ mant[mb] = 1)
           inc == IncBits(mant)
           m == IF up THEN inc.bits ELSE mant
           e == IF up /\ inc.carry = 1 THEN e0 + 1 ELSE e0
       IN FromBits(<<sign>> \o IntBits(e + Pow2[eb - 1] - 1, eb) \o m)
SingleOf(w, signed) == EncodeF(IF signed /\ Negative(w) THEN 1 ELSE 0, BitsOf(MagnitudeOf(w, signed)), 0, 23, 8)
DoubleOf(w, signed) == EncodeF(IF signed /\ Negative(w) THEN 1 ELSE 0, BitsOf(MagnitudeOf(w, signed)), 0, 52, 11)
=============================================================================
