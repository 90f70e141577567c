------------------------------- MODULE TransMC ------------------------------
EXTENDS Trans, MCEmit
CONSTANTS Values, Seconds, Asked
VARIABLE st
Init == st = TransInit /\ EmitInit(st)
Do(op, a) == \E o \in TransApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Ask(op) == st' = st /\ Emit(st, op, <<>>, [st |-> st])
Next ==
  \/ st = TransInit /\ \E x \in Values : \E y \in Seconds : Do("let", <<x, y>>)
  \/ \E op \in Asked : Ask(op)
Spec == Init /\ [][Next]_st

Close(a, b) == Le(a, b) /\ Le(b, a)
Near2(x, y) == SLe(x, y) /\ SLe(y, x)
Plain(w) == Finite(13, w) /\ ~IsZ(w)
Move(w, n) == IF n >= 0 THEN Add(w, <<n, 0, 0, 0, 0, 0, 0, 0>>) ELSE Sub(w, <<-n, 0, 0, 0, 0, 0, 0, 0>>)
Opposite8(w) == [w EXCEPT ![8] = (@ + 128) % 256]
(* the nearest double is allowed, so are its neighbours up to the seventh, and the ninth is not *)
Sharp(Allow(_), r) ==
  /\ Allow(r)
  /\ (Plain(r) /\ Exponent(13, r) \in 2..2045 /\ CmpU(Magn(r), Unity) < 0) =>
       /\ Allow(Move(r, 7)) /\ Allow(Move(r, -7))
       /\ Exponent(13, Move(r, 9)) = Exponent(13, r) => ~Allow(Move(r, 9))
       /\ ~Allow(Move(r, -9))
       /\ ~Allow(Opposite8(r))
Opp(x) == [n |-> TRUE, m |-> x]
Pos(x) == [n |-> FALSE, m |-> x]

(* exponential and logarithm *)
Exponentials == Plain(st.x) /\ ~AtLeast(st.x, 600) =>
  LET e == ExpW(st.x)  f == Exp(~IsNeg(st.x), Fixed(st.x))  r == NearestOf(FALSE, e.m, e.k) IN
  /\ LET p == FMul(e.m, f.m) IN Close(NShift(p, e.k + f.k), One0)                       \* e^x e^-x = 1
  /\ LET g == Exp(IsNeg(st.x), NScale(Fixed(st.x), 2))  q == FMul(e.m, e.m) IN Close(NShift(g.m, g.k - 2 * e.k), q)
  /\ Near2(SAdd(Ln(e.m, e.k - Point), [n |-> ~IsNeg(st.x), m |-> Fixed(st.x)]), Pos(<<>>))   \* ln e^x = x
  /\ Sharp(LAMBDA w : OkExp(w, st.x), r)
Logarithms == Plain(st.x) =>
  LET l == LnOf(st.x) IN
  /\ ~IsNeg(st.x) => Sharp(LAMBDA w : OkLog(w, st.x), IF st.x = Unity THEN Nil(FALSE) ELSE NearestOf(l.n, l.m, 0))
  /\ Plain(st.y) => Near2(Ln(NMul(S(st.x), S(st.y)), K(st.x) + K(st.y)), SAdd(l, LnOf(st.y)))
  /\ (~IsNeg(st.x) => OkPow(st.x, st.x, Unity))
  /\ Exponent(13, st.x) \in 700..1300 /\ Magn(st.x) # Unity =>
       LET q == Nearest(13, FALSE, BigMul(SigOf(13, st.x), SigOf(13, st.x)), 2 * K(st.x))  two == Dbl(FALSE, 2, 0) IN
       OkPow(q, st.x, two) /\ ~OkPow(Move(q, 20), st.x, two) /\ ~OkPow(Move(q, -20), st.x, two) /\ ~OkPow(Opposite8(q), st.x, two)
(* sine and cosine; s, c their nearest doubles, whose angle is x again *)
Circle == Plain(st.x) =>
  LET v == SinCos(S(st.x), K(st.x))  d == SinCos(S(st.x), K(st.x) + 1)
      s == NearestOf(v.sin.n # IsNeg(st.x), v.sin.m, 0)  c == NearestOf(v.cos.n, v.cos.m, 0) IN
  /\ Close(NAdd(FMul(v.sin.m, v.sin.m), FMul(v.cos.m, v.cos.m)), One0)
  /\ K(st.x) < 900 => Near2(d.sin, [n |-> v.sin.n # v.cos.n, m |-> NScale(FMul(v.sin.m, v.cos.m), 2)])
  /\ ~Below2(st.x, -28) => (Sharp(LAMBDA w : OkSin(w, st.x), s) /\ OkCos(c, st.x))
  /\ ~AtLeast(st.x, 3) /\ ~Below2(st.x, -28) => OkAtan2(st.x, s, c) /\ ~OkAtan2(Opposite8(st.x), s, c) /\ ~OkAtan2(Move(st.x, 20), s, c) /\ ~OkAtan2(Move(st.x, -20), s, c)
  /\ ~AtLeast(st.x, 1) /\ ~Below2(st.x, -28) => OkAsin(st.x, s) /\ ~OkAsin(Move(st.x, 20), s) /\ ~OkAsin(Move(st.x, -20), s)
  /\ AtLeast(st.x, 1) /\ ~AtLeast(st.x, 3) /\ ~IsNeg(st.x) => OkAcos(st.x, c) /\ ~OkAcos(Move(st.x, 20), c) /\ ~OkAcos(Move(st.x, -20), c)
(* hyperbolic functions; e^-x instead of a quotient *)
Hyperbola == Plain(st.x) /\ ~AtLeast(st.x, 40) /\ ~Below2(st.x, -28) =>
  LET e == ExpOf(S(st.x), K(st.x))  f == Exp(TRUE, Fixed(st.x))
      up == NShift(e.m, e.k)  down == NShift(f.m, f.k)
      sh == NearestOf(IsNeg(st.x), NSub(up, down), -1)  ch == NearestOf(FALSE, NAdd(up, down), -1) IN
  /\ Sharp(LAMBDA w : OkSinh(w, st.x), sh) /\ OkCosh(ch, st.x)
  /\ OkAsinh(st.x, sh) /\ ~OkAsinh(Opposite8(st.x), sh)
  /\ ~OkAsinh(Move(st.x, 20), sh) /\ ~OkAsinh(Move(st.x, -20), sh)
  /\ AtLeast(st.x, 1) /\ ~IsNeg(st.x) => OkAcosh(st.x, ch) /\ ~OkAcosh(Move(st.x, 20), ch) /\ ~OkAcosh(Move(st.x, -20), ch)
(* 2 atanh x = ln (1 + x) - ln (1 - x) *)
Areas == Plain(st.x) /\ ~AtLeast(st.x, 1) /\ ~Below2(st.x, -28) =>
  LET l == SAdd(Ln(NAdd(One0, Fixed(st.x)), -Point), SNeg(Ln(NSub(One0, Fixed(st.x)), -Point)))
      r == NearestOf(IsNeg(st.x), l.m, -1) IN OkAtanh(r, st.x) /\ ~OkAtanh(Move(r, 20), st.x) /\ ~OkAtanh(Move(r, -20), st.x) /\ ~OkAtanh(Opposite8(r), st.x)
(* cubes *)
Cubes == Plain(st.x) /\ Exponent(13, st.x) \in 700..1300 =>
  LET c == Nearest(13, IsNeg(st.x), BigMul(SigOf(13, st.x), BigMul(SigOf(13, st.x), SigOf(13, st.x))), 3 * K(st.x)) IN
  OkCbrt(st.x, c) /\ ~OkCbrt(Move(st.x, 20), c) /\ ~OkCbrt(Move(st.x, -20), c) /\ ~OkCbrt(Opposite8(st.x), c)

------------------------------------------------------------------------------
(* the constants: pi = 16 atan 1/5 - 4 atan 1/239, 2 / pi its inverse to all its bits; e^(ln 2) = 2, (e^(ln 10 / 2))^2 = 10 *)
One105 == Eager([i \in 1..106 |-> IF i = 106 THEN 1 ELSE 0])
ArcStep(acc, n) ==                          \* acc: power / d^(2n+1), sum of the terms with plus, with minus
  LET t == NDiv(acc.p, 2 * n - 1)  sq == acc.d * acc.d IN
  [d |-> acc.d, p |-> NDiv(acc.p, sq), a |-> IF n % 2 = 1 THEN NAdd(acc.a, t) ELSE acc.a, b |-> IF n % 2 = 0 THEN NAdd(acc.b, t) ELSE acc.b]
ArcTan(d) == LET r == FoldLeft(ArcStep, [d |-> d, p |-> NDiv(One105, d), a |-> <<>>, b |-> <<>>], From(1, 280)) IN NSub(r.a, r.b)
LongHalfPi == NSub(NScale(ArcTan(5), 8), NScale(ArcTan(239), 2))
ASSUME LET p == NMul(InvHalfPi, LongHalfPi)  one == Eager([i \in 1..210 |-> IF i = 210 THEN 1 ELSE 0]) IN
  NCmp(p, one) <= 0 /\ Len(NSub(one, p)) <= 108                    \* 2/pi * pi/2 = 1 to 101 digits to the base 4096
ASSUME Close(NShr(LongHalfPi, 12 * 94), HalfPi)
ASSUME Close(ExpNear(Ln2), NScale(One0, 2))
ASSUME LET e == ExpNear(NShr(Ln10, 1)) IN Close(NShr(FMul(e, e), 4), NShr(NScale(One0, 10), 4))
ASSUME /\ OkAtan(<<79, 187, 97, 5, 103, 172, 221, 63>>, Dbl(FALSE, 1, -1))        \* 0.4636476090008061
       /\ OkAtan(<<24, 45, 68, 84, 251, 33, 233, 63>>, Unity) /\ ~OkAtan(<<34, 45, 68, 84, 251, 33, 233, 63>>, Unity)
       /\ ~OkAtan(<<14, 45, 68, 84, 251, 33, 233, 63>>, Unity)
       /\ OkTan(Unity, <<24, 45, 68, 84, 251, 33, 233, 63>>)
       /\ OkCbrt(Dbl(TRUE, 3, 0), Dbl(TRUE, 27, 0)) /\ OkPow(Dbl(TRUE, 27, 0), Dbl(TRUE, 3, 0), Dbl(FALSE, 3, 0))
       /\ ~OkPow(Dbl(FALSE, 27, 0), Dbl(TRUE, 3, 0), Dbl(FALSE, 3, 0)) /\ OkPow(Dbl(FALSE, 9, 0), Dbl(TRUE, 3, 0), Dbl(FALSE, 1, 1))
       /\ OkLogBase(Dbl(FALSE, 3, 0), Dbl(FALSE, 8, 0), Dbl(FALSE, 2, 0)) /\ OkLogBase(Dbl(TRUE, 3, 0), Dbl(FALSE, 8, 0), Dbl(FALSE, 1, -1))
       /\ OkLog2(Dbl(TRUE, 1074, 0), Dbl(FALSE, 1, -1074)) /\ ~OkLog2(Move(Dbl(TRUE, 1074, 0), 1), Dbl(FALSE, 1, -1074))
=============================================================================
