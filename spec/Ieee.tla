-------------------------------- MODULE Ieee --------------------------------
(* IEEE 754 values as little-endian byte sequences (type code 12: single, 13: double), and exact arithmetic on words
   and bit sequences for specifying what they are converted to.  Bit sequences are most significant bit first.      *)
EXTENDS Events, Words

Exponent(t, w) == IF t = 13 THEN (w[8] % 128) * 16 + w[7] \div 16 ELSE (w[4] % 128) * 2 + w[3] \div 128
Fraction(t, w) == IF t = 13 THEN [w EXCEPT ![8] = 0, ![7] = @ % 16] ELSE [w EXCEPT ![4] = 0, ![3] = @ % 128]
TopExponent(t) == IF t = 13 THEN 2047 ELSE 255
IsNaNW(t, w) == Exponent(t, w) = TopExponent(t) /\ ~IsZero(Fraction(t, w))
Magn(w) == [w EXCEPT ![Len(w)] = @ % 128]
CmpF(t, v, w) ==
  IF IsNaNW(t, v) \/ IsNaNW(t, w) THEN Bool(IsNaNW(t, w)) - Bool(IsNaNW(t, v))      \* NaN is below everything but NaN
  ELSE IF IsZero(Magn(v)) /\ IsZero(Magn(w)) THEN 0
  ELSE IF Negative(v) # Negative(w) THEN (IF Negative(v) THEN -1 ELSE 1)
  ELSE IF Negative(v) THEN CmpU(Magn(w), Magn(v)) ELSE CmpU(Magn(v), Magn(w))
(* magnitude bits of a finite value, most significant first, and the weight of its last bit *)
Significand(t, w) ==
  LET bits == BitsOf(w)  eb == IF t = 13 THEN 11 ELSE 8
  IN <<IF Exponent(t, w) = 0 THEN 0 ELSE 1>> \o SubSeq(bits, eb + 2, Len(bits))
LastWeight(t, w) == (IF Exponent(t, w) = 0 THEN 1 ELSE Exponent(t, w)) - (IF t = 13 THEN 1075 ELSE 150)
IsInf(t, w) == Exponent(t, w) = TopExponent(t) /\ IsZero(Fraction(t, w))
Finite(t, w) == Exponent(t, w) # TopExponent(t)

------------------------------------------------------------------------------
(* bit sequences *)
Zeros(n) == Eager([i \in 1..n |-> 0])
Bits0(b) == LET f == FirstOne(b) IN IF f = 0 THEN <<>> ELSE SubSeq(b, f, Len(b))          \* without leading zeros
(* integer and fraction part of b * 2^k *)
IntPart(b, k) == IF k >= 0 THEN b \o Zeros(k) ELSE SubSeq(b, 1, Len(b) + k)
FracPart(b, k) == IF k >= 0 THEN <<>> ELSE IF Len(b) >= -k THEN SubSeq(b, Len(b) + k + 1, Len(b)) ELSE Zeros(-k - Len(b)) \o b
(* a bit sequence as a word of n bytes; the caller knows that it fits *)
FitsIn(b, n) == Len(Bits0(b)) <= 8 * n
WordOfBits(b, n) == FromBits(Eager([i \in 1..(8 * n) |-> LET j == Len(b) - 8 * n + i IN IF j >= 1 THEN b[j] ELSE 0]))
(* rounded to m significant bits, ties to even: <<bits, exponent of the last bit>> *)
RoundBits(b0, k, m) ==
  LET b == Bits0(b0) IN
  IF Len(b) <= m THEN <<b, k>>
  ELSE LET head == SubSeq(b, 1, m)  half == b[m + 1] = 1
           rest == \E i \in (m + 2)..Len(b) : b[i] = 1
           up == half /\ (rest \/ head[m] = 1)
           inc == IncBits(head)
       IN <<IF ~up THEN head ELSE IF inc.carry = 1 THEN <<1>> \o Zeros(m) ELSE Eager(inc.bits), k + Len(b) - m>>

(* words times and divided by small numbers (below 2^22) *)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(w, f, i, c) == IF i > Len(w) THEN <<>> ELSE LET x == w[i] * f + c IN <<x % 256>> \o MulFrom(w, f, i + 1, x \div 256)
MulSmall(w, f) == MulFrom(w, f, 1, 0)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(w, f, i, r) == IF i = 0 THEN <<<<>>, r>>
  ELSE LET n == r * 256 + w[i]  x == DivFrom(w, f, i - 1, n % f) IN <<x[1] \o <<n \div f>>, x[2]>>
DivSmall(w, f) == DivFrom(w, f, Len(w), 0)                   \* <<quotient, remainder>>
RECURSIVE MulAll(_, _)
MulAll(w, fs) == IF fs = <<>> THEN w ELSE MulAll(MulSmall(w, fs[1]), Tail(fs))
=============================================================================
