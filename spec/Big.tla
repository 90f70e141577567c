-------------------------------- MODULE Big ---------------------------------
(* Exact arithmetic on natural numbers of any size (words of any length) and rounding to IEEE 754 values. *)
EXTENDS Ieee

(* numbers as words; Long leaves room for one more byte *)
Norm(w) == LET k == {i \in 1..Len(w) : w[i] # 0} IN IF k = {} THEN <<0>> ELSE SubSeq(w, 1, CHOOSE i \in k : \A j \in k : i >= j)
Wide(w, n) == Eager([i \in 1..n |-> IF i <= Len(w) THEN w[i] ELSE 0])
BigCmp(a, b) == LET n == Max2(Len(a), Len(b)) IN CmpU(Wide(a, n), Wide(b, n))
BigAdd(a, b) == LET n == Max2(Len(a), Len(b)) + 1 IN Norm(Add(Wide(a, n), Wide(b, n)))
BigSub(a, b) == LET n == Max2(Len(a), Len(b)) IN Norm(Sub(Wide(a, n), Wide(b, n)))              \* a >= b
BigDist(a, b) == IF BigCmp(a, b) >= 0 THEN BigSub(a, b) ELSE BigSub(b, a)
BigSmall(a, f) == Norm(MulSmall(a \o <<0, 0, 0>>, f))                                           \* f below 2^22
Shl(a, k) == IF IsZero(a) THEN <<0>> ELSE Norm(Zero(k \div 8) \o MulSmall(a \o <<0>>, Pow2[k % 8]))
RECURSIVE TimesPow10(_, _)
TimesPow10(a, n) == IF n = 0 THEN a ELSE IF n >= 6 THEN TimesPow10(BigSmall(a, 1000000), n - 6) ELSE BigSmall(a, 10^n)
RECURSIVE MulFromTo(_, _, _, _)
MulFromTo(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE MulFromTo(a, b, i + 1, IF b[i] = 0 THEN acc
         ELSE Add(acc, Wide(Zero(i - 1) \o MulSmall(a \o <<0>>, b[i]), Len(acc))))
BigMul(a, b) == IF Len(a) >= Len(b) THEN Norm(MulFromTo(a, b, 1, Zero(Len(a) + Len(b) + 1)))
                ELSE Norm(MulFromTo(b, a, 1, Zero(Len(a) + Len(b) + 1)))
BigOf(n) == Norm(ToWord(n, 4))
BigBits(a) == Bits0(BitsOf(a))
FromBitSeq(b) == LET n == ((Len(b) + 7) \div 8) IN IF b = <<>> THEN <<0>> ELSE Norm(WordOfBits(b, n))

(* the finite value w is  (-1)^sign * SigOf(t, w) * 2^LastWeight(t, w) *)
SigOf(t, w) == IF Exponent(t, w) = 0 THEN Norm(Fraction(t, w))
               ELSE IF t = 13 THEN Norm([Fraction(t, w) EXCEPT ![7] = @ + 16]) ELSE Norm([Fraction(t, w) EXCEPT ![3] = @ + 128])
MantBits(t) == IF t = 13 THEN 52 ELSE 23
ExpBits(t) == IF t = 13 THEN 11 ELSE 8
LeastWeight(t) == IF t = 13 THEN -1074 ELSE -149
Bytes(t) == IF t = 13 THEN 8 ELSE 4

(* (-1)^neg * a * 2^k, a a word, rounded to the nearest value of type t, ties to even; more says that something below
   the last bit of a, but not zero, is to be added *)
Pack(t, neg, e, mant) == FromBits(<<Bool(neg)>> \o IntBits(e, ExpBits(t)) \o mant)
InfOf(t, neg) == Pack(t, neg, TopExponent(t), Zeros(MantBits(t)))
ZeroOf(t, neg) == Pack(t, neg, 0, Zeros(MantBits(t)))
NearestX(t, neg, a, k, more) ==
  LET b == BigBits(a)  m == MantBits(t) + 1 IN
  IF b = <<>> THEN ZeroOf(t, neg)
  ELSE LET u == Max2(k + Len(b) - m, LeastWeight(t))                        \* weight of the last bit of the result
           q == u - k                                                       \* bits of b dropped, if positive
           head == IF q <= 0 THEN b \o Zeros(-q) ELSE IF q >= Len(b) THEN <<>> ELSE SubSeq(b, 1, Len(b) - q)
           half == q >= 1 /\ q <= Len(b) /\ b[Len(b) - q + 1] = 1
           rest == more \/ (q > Len(b)) \/ \E i \in Max2(1, Len(b) - q + 2)..Len(b) : q >= 1 /\ b[i] = 1
           up == half /\ (rest \/ (head # <<>> /\ head[Len(head)] = 1))
           inc == IncBits(head)
           r == IF ~up THEN head ELSE IF inc.carry = 1 THEN <<1>> \o Zeros(Len(head)) ELSE inc.bits
           r2 == IF Len(r) > m THEN SubSeq(r, 1, m) ELSE r
           u2 == IF Len(r) > m THEN u + 1 ELSE u
       IN IF Len(r2) < m THEN Pack(t, neg, 0, Zeros(m - 1 - Len(r2)) \o r2)
          ELSE LET e == u2 - LeastWeight(t) + 1 IN IF e >= TopExponent(t) THEN InfOf(t, neg) ELSE Pack(t, neg, e, Tail(r2))
Nearest(t, neg, a, k) == NearestX(t, neg, a, k, FALSE)

(* rounding a magnitude a * 2^k with a sign to an integer; mode 0: ties to even, 1: ties away from zero, 2: toward zero,
   3: down, 4: up *)
RoundTo(mode, neg, a, k) ==
  IF k >= 0 THEN Shl(a, k)
  ELSE LET b == BigBits(a)
           i == IntPart(b, k)  f == FracPart(b, k)
           whole == FromBitSeq(Bits0(i))
           any == \E j \in 1..Len(f) : f[j] = 1
           tie == f # <<>> /\ f[1] = 1 /\ \A j \in 2..Len(f) : f[j] = 0
           over == f # <<>> /\ f[1] = 1 /\ ~tie
           odd == i # <<>> /\ i[Len(i)] = 1
           up == CASE mode = 0 -> over \/ (tie /\ odd) [] mode = 1 -> over \/ tie [] mode = 2 -> FALSE
                   [] mode = 3 -> neg /\ any [] mode = 4 -> ~neg /\ any
       IN IF up THEN BigAdd(whole, <<1>>) ELSE whole

(* comparing a * 2^i with b * 2^j *)
ScaledCmp(a, i, b, j) == IF i >= j THEN BigCmp(Shl(a, i - j), b) ELSE BigCmp(a, Shl(b, j - i))
(* is the finite value w (not negative) of type t the one nearest to p / q, ties to even?  p and q are words, q > 0.  An
   infinite w stands for everything from half a step above the greatest value *)
Odd(a) == a[1] % 2 = 1
PowerOfTwo(t, w) == Exponent(t, w) > 1 /\ IsZero(Fraction(t, w))
NearestRatio(t, w, p, q) ==
  LET up == Exponent(t, w) = TopExponent(t)                  \* treated as the next power of two
      s == IF up THEN <<1>> ELSE SigOf(t, w)
      e == IF up THEN (IF t = 13 THEN 1024 ELSE 128) ELSE LastWeight(t, w)
      (* 4 s 2^(e-2): bounds s + 1/2 above, s - 1/2 (or - 1/4 below a power of two) below *)
      mid == Shl(s, 2)
      hi == BigAdd(mid, <<2>>)
      below == IF up THEN 0 ELSE IF PowerOfTwo(t, w) THEN 1 ELSE 2
      lo == IF up \/ IsZero(s) THEN <<0>> ELSE BigSub(mid, BigOf(below))
      cmp(v) == ScaledCmp(BigMul(v, q), e - 2, p, 0)         \* v * 2^(e-2) against p / q
      ul == IF up THEN ScaledCmp(BigMul(BigSub(Shl(<<1>>, MantBits(t) + 2), <<1>>), q), e - MantBits(t) - 2, p, 0) ELSE 0
  IN IF up THEN ul <= 0
     ELSE /\ LET c == cmp(hi) IN c > 0 \/ (c = 0 /\ ~Odd(s))
          /\ IsZero(s) \/ LET c == cmp(lo) IN c < 0 \/ (c = 0 /\ ~Odd(s))
=============================================================================
