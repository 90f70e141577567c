-------------------------------- MODULE Reals -------------------------------
(* Real functions to about 120 bits, in integer arithmetic.

   A natural number is the sequence of its digits to the base 4096, lowest first, without zeros at the end.  A fixed-point
   number stands for n / 4096^11, that is, it has 132 bits after the point; its operations round down.  A signed number is
   [n, m]: the magnitude m, negative if n.  Where a result may be huge or tiny, it comes with a power of two.            *)
EXTENDS Big, SequencesExt

Digits == Eager([i \in 1..500 |-> i])                        \* 1..500 as a sequence, for folding over ranges
From(i, j) == SubSeq(Digits, i, j)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE SubSeq(a, 1, SelectLastInSeq(a, LAMBDA d : d # 0))
(* from columns that may be any integers, as long as the whole is not negative *)
CarryStep(acc, c) == LET x == c + acc[2] IN <<Append(acc[1], x % 4096), x \div 4096>>
Carried(cols) == FoldLeft(CarryStep, <<<<>>, 0>>, cols)
Carry(cols) == LET r == Carried(cols)  c == r[2] IN
  Trim(IF c = 0 THEN r[1] ELSE r[1] \o <<c % 4096, (c \div 4096) % 4096, (c \div 4096) \div 4096>>)
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
NAdd(a, b) == Carry(Eager([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)]))
Diff(a, b) == Eager([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) - At(b, i)])
NSub(a, b) == Carry(Diff(a, b))                              \* a >= b
NCmp(a, b) == IF a = b THEN 0 ELSE IF Carried(Diff(a, b))[2] < 0 THEN -1 ELSE 1
NScale(a, f) == Carry(Eager([i \in 1..Len(a) |-> a[i] * f]))         \* f below 2^18
NDiv(a, d) ==                                                       \* d below 2^18
  IF a = <<>> THEN <<>>
  ELSE Trim(FoldRight(LAMBDA x, acc : LET n == acc[2] * 4096 + x IN << <<n \div d>> \o acc[1], n % d >>, a, << <<>>, 0>>)[1])
Nought(n) == Eager([i \in 1..n |-> 0])
NShl(a, n) == IF a = <<>> THEN <<>> ELSE Nought(n \div 12) \o (IF n % 12 = 0 THEN a ELSE NScale(a, 2^(n % 12)))
NShr(a, n) ==
  LET w == n \div 12  r == n % 12 IN
  IF w >= Len(a) THEN <<>>
  ELSE LET b == SubSeq(a, w + 1, Len(a)) IN IF r = 0 THEN b ELSE LET c == NScale(b, 2^(12 - r)) IN SubSeq(c, 2, Len(c))
NShift(a, n) == IF n >= 0 THEN NShl(a, n) ELSE NShr(a, -n)
Column(a, b, k) == FoldLeft(LAMBDA s, i : s + a[i] * b[k + 1 - i], 0, From(Max2(1, k + 1 - Len(b)), Min2(k, Len(a))))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carry(Eager([k \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, k)]))
NOf(w) ==                                                           \* from a word of bytes
  LET at(i) == IF i <= Len(w) THEN w[i] ELSE 0 IN
  Trim(Eager([j \in 1..(2 * ((Len(w) + 2) \div 3)) |->
         LET o == 3 * ((j - 1) \div 2) IN IF j % 2 = 1 THEN at(o + 1) + 256 * (at(o + 2) % 16) ELSE at(o + 2) \div 16 + 16 * at(o + 3)]))
Small(n) == Trim(<<n % 4096, (n \div 4096) % 4096, (n \div 4096) \div 4096>>)
BitLength(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + (CHOOSE b \in 1..12 : a[Len(a)] >= 2^(b - 1) /\ a[Len(a)] < 2^b)

Point == 132
One0 == Eager([i \in 1..12 |-> IF i = 12 THEN 1 ELSE 0])            \* the fixed-point number one
FMul(a, b) ==
  IF Len(a) + Len(b) < 13 THEN <<>>
  ELSE LET p == Carry(Eager([k \in 1..(Len(a) + Len(b) - 10) |-> Column(a, b, k + 9)])) IN SubSeq(p, 3, Len(p))
FixedOf(s, k) == NShift(s, k + Point)                               \* s * 2^k
SNeg(x) == [x EXCEPT !.n = ~@]
SAdd(x, y) == IF x.n = y.n THEN [n |-> x.n, m |-> NAdd(x.m, y.m)]
              ELSE IF NCmp(x.m, y.m) >= 0 THEN [n |-> x.n, m |-> NSub(x.m, y.m)] ELSE [n |-> y.n, m |-> NSub(y.m, x.m)]

------------------------------------------------------------------------------
(* constants; TransMC checks them against each other and against series *)
HalfPi ==
   <<2597, 2105, 27, 1303, 2252, 2441, 2118, 721, 1092, 4021, 2337, 1>>
Ln2 ==
   <<2804, 758, 63, 920, 3643, 3017, 1946, 463, 3965, 535, 2839>>
Ln10 ==
   <<2616, 3112, 180, 2222, 1461, 2985, 2821, 2722, 1898, 1591, 1239, 2>>
InvHalfPi ==
   <<3104, 3323, 3056, 1722, 3195, 1135, 816, 1376, 3336, 2261, 287, 1531, 3067, 3750, 658, 2213, 2551, 115, 2877,
   3863, 3045, 3198, 1978, 1874, 2605, 1534, 1694, 1014, 3910, 2932, 2825, 636, 3791, 871, 3949, 1745, 2570, 2229,
   3857, 3826, 2063, 89, 4062, 2431, 4088, 945, 2344, 3039, 3979, 2117, 1180, 927, 851, 920, 470, 921, 3649, 1527,
   1716, 1794, 2460, 2126, 2884, 747, 1525, 2083, 3816, 2675, 297, 459, 3563, 4065, 540, 3353, 2569, 750, 1609, 3584,
   3538, 1060, 3642, 582, 439, 3158, 3771, 2749, 355, 4069, 65, 1081, 2364, 2393, 2914, 3085, 1245, 3923, 2001, 629,
   2556, 338, 3652, 1764, 2435, 2607>>
LnNear ==
   <<-1397, -1308, -1221, -1136, -1052, -970, -890, -811, -734, -658, -584, -511, -439, -368, -299, -230, -163, -97,
   0, 0, 95, 157, 218, 278, 338, 396, 454, 511, 567, 622, 677, 731, 784, 836, 888, 940, 990, 1040, 1089, 1138, 1186,
   1234, 1281, 1328, 1374, 1419>>
------------------------------------------------------------------------------
(* e^r = 1 + r (1 + r/2 (1 + r/3 ...)) at r / 256, squared eight times; r below 1.5 *)
ExpNear(r) ==
  LET t == NShr(r, 8)
      s == FoldLeft(LAMBDA acc, n : NAdd(One0, NDiv(FMul(t, acc), n)), One0, <<14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
  IN FoldLeft(LAMBDA acc, n : FMul(acc, acc), s, From(1, 8))
(* e^(+-a) = m * 2^k, a below 1400 *)
Exp(neg, a) ==
  LET x == At(a, 12) * 32 + At(a, 11) \div 128
      q == (x * 23637) \div (32 * 16384)                            \* about a / ln 2
      p == NScale(Ln2, q)
  IN IF ~neg THEN (IF NCmp(p, a) <= 0 THEN [m |-> ExpNear(NSub(a, p)), k |-> q] ELSE [m |-> ExpNear(NSub(a, NScale(Ln2, q - 1))), k |-> q - 1])
     ELSE LET u == NScale(Ln2, q + 1) IN
          IF NCmp(u, a) >= 0 THEN [m |-> ExpNear(NSub(u, a)), k |-> -q - 1] ELSE [m |-> ExpNear(NSub(NAdd(u, Ln2), a)), k |-> -q - 2]
(* ln (s * 2^k), s > 0 *)
Ln(s, k) ==
  LET b == BitLength(s)
      m0 == NShift(s, Point + 1 - b)                                \* in [1, 2)
      big == m0[11] >= 1695                                         \* above 1.414
      m == IF big THEN NShr(m0, 1) ELSE m0
      e == IF big THEN k + b ELSE k + b - 1
      c == At(m, 12) * 4096 + At(m, 11)
      y == LnNear[((c - 2880) \div 64) + 1]
      f == Exp(y > 0, NShl(Small(IF y < 0 THEN -y ELSE y), Point - 12))
      q == IF y = 0 THEN m ELSE NShift(FMul(m, f.m), f.k)           \* 1 + d
      less == NCmp(q, One0) < 0
      d == IF less THEN NSub(One0, q) ELSE NSub(q, One0)
      term(acc, n) == LET i == NDiv(One0, n)  p == FMul(d, acc) IN IF less THEN NAdd(i, p) ELSE NSub(i, p)
      l == FMul(d, FoldLeft(term, <<>>, <<24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>))
      r == SAdd([n |-> less, m |-> l], [n |-> y < 0, m |-> NShl(Small(IF y < 0 THEN -y ELSE y), Point - 12)])
  IN SAdd(r, [n |-> e < 0, m |-> NScale(Ln2, IF e < 0 THEN -e ELSE e)])

(* sine and cosine of a, 0 <= a <= pi / 4 *)
SinNear(a) ==
  LET u == FMul(a, a) IN
  FMul(a, FoldLeft(LAMBDA acc, n : NSub(One0, NDiv(FMul(u, acc), (2 * n) * (2 * n + 1))), One0, <<16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>))
CosNear(a) ==
  LET u == FMul(a, a) IN
  FoldLeft(LAMBDA acc, n : NSub(One0, NDiv(FMul(u, acc), (2 * n - 1) * (2 * n))), One0, <<17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
(* sine and cosine of s * 2^k, k <= 971 *)
SinCos(s, k) ==
  LET p == NShr(NMul(s, InvHalfPi), 1248 - Point - k)               \* in quarter turns
      quarter == At(p, 12) % 4
      f == Trim(SubSeq(p, 1, Min2(11, Len(p))))
      upper == At(f, 11) >= 2048
      a == FMul(HalfPi, IF upper THEN NSub(One0, f) ELSE f)
      s0 == IF upper THEN CosNear(a) ELSE SinNear(a)
      c0 == IF upper THEN SinNear(a) ELSE CosNear(a)
      sg(n, m) == [n |-> n, m |-> m]
  IN CASE quarter = 0 -> [sin |-> sg(FALSE, s0), cos |-> sg(FALSE, c0)]
       [] quarter = 1 -> [sin |-> sg(FALSE, c0), cos |-> sg(TRUE, s0)]
       [] quarter = 2 -> [sin |-> sg(TRUE, s0), cos |-> sg(TRUE, c0)]
       [] quarter = 3 -> [sin |-> sg(TRUE, c0), cos |-> sg(FALSE, s0)]

------------------------------------------------------------------------------
(* comparing a * 2^i with b * 2^j *)
NScaledCmp(a, i, b, j) == IF i >= j THEN NCmp(NShl(a, i - j), b) ELSE NCmp(a, NShl(b, j - i))
(* is the double w within eight units in its last place of  (-1)^neg (p / q) 2^e ?  An infinity stands for everything from
   eight units below the greatest finite value upwards *)
Units == 8
WithinUnits(w, neg, p, q, e, units) ==
  /\ ~IsNaNW(13, w)
  /\ Negative(w) = neg
  /\ IF IsInf(13, w) THEN NScaledCmp(p, e, NMul(q, NSub(NShl(<<1>>, 53), <<units>>)), 971) >= 0
     ELSE LET s == NMul(q, NOf(SigOf(13, w)))  k == LastWeight(13, w)
              a == IF e >= k THEN NShl(p, e - k) ELSE p
              b == IF e >= k THEN s ELSE NShl(s, k - e)
              t == IF e >= k THEN NScale(q, units) ELSE NShl(NScale(q, units), k - e)
          IN NCmp(a, NAdd(b, t)) <= 0 /\ NCmp(b, NAdd(a, t)) <= 0
NearRatio(w, neg, p, q, e) == WithinUnits(w, neg, p, q, e, Units)
(* the double nearest to (p / 2^132) 2^e *)
WordOfN(a) ==
  LET n == (3 * Len(a) + 1) \div 2 IN
  Norm(Eager([i \in 1..Max2(1, n) |-> LET o == 2 * ((i - 1) \div 3) IN
         CASE i % 3 = 1 -> At(a, o + 1) % 256
           [] i % 3 = 2 -> At(a, o + 1) \div 256 + 16 * (At(a, o + 2) % 16)
           [] OTHER -> At(a, o + 2) \div 16]))
NearestOf(neg, p, e) == Nearest(13, neg, WordOfN(p), e - Point)
=============================================================================
