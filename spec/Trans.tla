-------------------------------- MODULE Trans -------------------------------
(* The transcendental functions of the Math class.  The state: two doubles x and y.  A function's result is not a
   function of its arguments here: every double within eight units in the last place of the mathematical value is
   allowed (Near...), except where the value is exact.  A result can be kept in x, so that a computation goes on with
   what the library returned.                                                                                        *)
EXTENDS Reals

TransInit == [x |-> Zero(8), y |-> Zero(8)]

NaN == Pack(13, FALSE, 2047, <<1>> \o Zeros(51))
Inf(neg) == InfOf(13, neg)
Nil(neg) == ZeroOf(13, neg)
Dbl(neg, n, k) == Nearest(13, neg, BigOf(n), k)             \* (-1)^neg n 2^k
Unity == Dbl(FALSE, 1, 0)
IsWord8(v) == Len(v) = 8 /\ \A i \in 1..8 : v[i] \in 0..255
IsN(w) == IsNaNW(13, w)
IsI(w) == IsInf(13, w)
IsZ(w) == IsZero(Magn(w))
IsNeg(w) == Negative(w)
S(w) == NOf(SigOf(13, w))                                   \* |w| = S(w) * 2^K(w)
K(w) == LastWeight(13, w)
(* cmp of |w| with 2^n; |w| with |v| *)
Below2(w, n) == CmpU(Magn(w), Dbl(FALSE, 1, n)) < 0
AtLeast(w, n) == CmpU(Magn(w), Dbl(FALSE, n, 0)) >= 0
Tiny(w) == Below2(w, -28)                                   \* f(w) = w up to the eighth unit, for the odd functions here
Fixed(w) == FixedOf(S(w), K(w))                             \* |w|, |w| below 2^20

------------------------------------------------------------------------------
(* what |w| may be: the interval from eight units below to eight units above, as S * 2^K; no lower bound if it reaches
   nought *)
HasLow(w) == NCmp(S(w), <<Units>>) > 0
LowS(w) == NSub(S(w), <<Units>>)
HighS(w) == NAdd(S(w), <<Units>>)
Pi == NScale(HalfPi, 2)
(* slack of the comparisons, far below a unit of any result they decide *)
Slack == NShl(<<1>>, Point - 114)
Le(a, b) == NCmp(a, NAdd(b, Slack)) <= 0                    \* fixed-point numbers, not negative
SLe(x, y) == LET d == SAdd(y, SNeg(x)) IN ~d.n \/ NCmp(d.m, Slack) <= 0

(* e^|w| for |w| < 1400 *)
ExpOf(s, k) == Exp(FALSE, FixedOf(s, k))
(* hyperbolic functions of a = s * 2^k, 0 < a < 40, as ratios of fixed-point numbers; beyond, e^-a does not count *)
Hyper(s, k) ==
  LET e == ExpOf(s, k)  f == NShl(e.m, e.k)  q == FMul(f, f) IN
  [odd |-> NSub(q, One0), even |-> NAdd(q, One0), twice |-> NScale(f, 2)]
ExpW(w) == Exp(IsNeg(w), Fixed(w))

LnOf(w) == Ln(S(w), K(w))                                   \* ln |w|

------------------------------------------------------------------------------
(* each: is r a permitted result for these arguments? *)
Is(r, v) == r = v \/ (IsN(r) /\ IsN(v))
NearOf(r, neg, p, e) == NearRatio(r, neg, p, One0, e)
NearArg(r, x) == NearRatio(r, IsNeg(x), S(x), <<1>>, K(x))

OkExp(r, x) ==
  IF IsN(x) THEN IsN(r)
  ELSE IF IsI(x) THEN Is(r, IF IsNeg(x) THEN Nil(FALSE) ELSE x)
  ELSE IF IsZ(x) THEN Is(r, Unity)
  ELSE IF AtLeast(x, 1300) THEN Is(r, IF IsNeg(x) THEN Nil(FALSE) ELSE Inf(FALSE))
  ELSE LET e == ExpW(x) IN NearOf(r, FALSE, e.m, e.k)
(* sinh, cosh, tanh *)
Huge(r, neg, x) ==                                           \* e^|x| / 2
  IF AtLeast(x, 1300) THEN Is(r, Inf(neg)) ELSE LET e == ExpOf(S(x), K(x)) IN NearOf(r, neg, e.m, e.k - 1)
OkSinh(r, x) ==
  IF IsN(x) \/ IsI(x) \/ IsZ(x) THEN Is(r, x)
  ELSE IF Tiny(x) THEN NearArg(r, x)
  ELSE IF AtLeast(x, 40) THEN Huge(r, IsNeg(x), x)
  ELSE LET h == Hyper(S(x), K(x)) IN NearRatio(r, IsNeg(x), h.odd, h.twice, 0)
OkCosh(r, x) ==
  IF IsN(x) THEN IsN(r)
  ELSE IF IsI(x) THEN Is(r, Inf(FALSE))
  ELSE IF IsZ(x) THEN Is(r, Unity)
  ELSE IF AtLeast(x, 40) THEN Huge(r, FALSE, x)
  ELSE LET h == Hyper(S(x), K(x)) IN NearRatio(r, FALSE, h.even, h.twice, 0)
OkTanh(r, x) ==
  IF IsN(x) \/ IsZ(x) THEN Is(r, x)
  ELSE IF IsI(x) THEN Is(r, Dbl(IsNeg(x), 1, 0))
  ELSE /\ ~AtLeast(r, 1) \/ Magn(r) = Unity
       /\ IF Tiny(x) THEN NearArg(r, x)
          ELSE IF AtLeast(x, 40) THEN NearOf(r, IsNeg(x), One0, 0)
          ELSE LET h == Hyper(S(x), K(x)) IN NearRatio(r, IsNeg(x), h.odd, h.even, 0)
OkSin(r, x) ==
  IF IsN(x) \/ IsI(x) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, x)
  ELSE /\ ~AtLeast(r, 1) \/ Magn(r) = Unity
       /\ IF Tiny(x) THEN NearArg(r, x)
          ELSE LET v == SinCos(S(x), K(x)).sin IN NearOf(r, v.n # IsNeg(x), v.m, 0)
OkCos(r, x) ==
  IF IsN(x) \/ IsI(x) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, Unity)
  ELSE /\ ~AtLeast(r, 1) \/ Magn(r) = Unity
       /\ LET v == SinCos(S(x), K(x)).cos IN NearOf(r, v.n, v.m, 0)
(* at a pole the result can only be as good as the remainder of the division by pi / 2, which the C library the functions
   rest on keeps to about 2^-110 *)
NearPole(v) == NCmp(v.cos.m, NShl(<<1>>, Point - 50)) < 0
OkTan(r, x) ==
  IF IsN(x) \/ IsI(x) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, x)
  ELSE IF Tiny(x) THEN NearArg(r, x)
  ELSE LET v == SinCos(S(x), K(x)) IN
       WithinUnits(r, v.sin.n # (v.cos.n # IsNeg(x)), v.sin.m, v.cos.m, 0, IF NearPole(v) THEN 64 ELSE Units)

OkLn(r, x, scale) ==                                          \* ln x / scale
  IF IsN(x) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, Inf(TRUE))
  ELSE IF IsNeg(x) THEN IsN(r)
  ELSE IF IsI(x) THEN Is(r, x)
  ELSE IF x = Unity THEN Is(r, Nil(FALSE))
  ELSE LET l == LnOf(x) IN NearRatio(r, l.n, l.m, scale, 0)
OkLog(r, x) == OkLn(r, x, One0)
(* at a power of two the logarithm to that base is a whole number, and exact *)
PowerOfTwoAt(x) == LET b == BigBits(SigOf(13, x)) IN IF \A i \in 2..Len(b) : b[i] = 0 THEN {K(x) + Len(b) - 1} ELSE {}
OkLog2(r, x) ==
  /\ OkLn(r, x, Ln2)
  /\ (Finite(13, x) /\ ~IsZ(x) /\ ~IsNeg(x)) => \A n \in PowerOfTwoAt(x) : r = Dbl(n < 0, IF n < 0 THEN -n ELSE n, 0)
TenTo(n) == Nearest(13, FALSE, TimesPow10(<<1>>, n), 0)
OkLog10(r, x) == OkLn(r, x, Ln10) /\ \A n \in 1..22 : x = TenTo(n) => r = Dbl(FALSE, n, 0)
(* ln x / ln b *)
OkLogBase(r, x, b) ==
  IF IsN(x) \/ IsN(b) \/ b = Unity THEN IsN(r)
  ELSE IF x # Unity /\ (IsZ(b) \/ (IsI(b) /\ ~IsNeg(b))) THEN IsN(r)
  ELSE IF IsNeg(b) /\ ~IsZ(b) THEN IsN(r)
  ELSE IF IsNeg(x) /\ ~IsZ(x) THEN IsN(r)
  ELSE IF x = Unity THEN IsZ(r)
  ELSE LET d == LnOf(b) IN
       IF IsZ(x) THEN Is(r, Inf(~d.n))
       ELSE IF IsI(x) THEN Is(r, Inf(d.n))
       ELSE LET l == LnOf(x) IN NearRatio(r, l.n # d.n, l.m, d.m, 0)

(* inverse functions: the forward function of the ends of r's interval encloses x *)
OkAsin(r, x) ==
  IF IsN(x) \/ (AtLeast(x, 1) /\ Magn(x) # Unity) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(x)
       /\ IF Tiny(x) THEN NearArg(r, x)
          ELSE /\ HasLow(r) => /\ Le(FixedOf(LowS(r), K(r)), HalfPi)
                               /\ Le(SinCos(LowS(r), K(r)).sin.m, Fixed(x))
               /\ \/ ~Le(FixedOf(HighS(r), K(r)), HalfPi)
                  \/ Le(Fixed(x), SinCos(HighS(r), K(r)).sin.m)
OkAcos(r, x) ==
  IF IsN(x) \/ (AtLeast(x, 1) /\ Magn(x) # Unity) THEN IsN(r)
  ELSE IF x = Unity THEN Is(r, Nil(FALSE))
  ELSE /\ Finite(13, r) /\ ~IsNeg(r)
       /\ LET v == [n |-> IsNeg(x), m |-> Fixed(x)] IN
          /\ HasLow(r) => /\ Le(FixedOf(LowS(r), K(r)), Pi)
                          /\ SLe(v, SinCos(LowS(r), K(r)).cos)
          /\ \/ ~Le(FixedOf(HighS(r), K(r)), Pi)
             \/ SLe(SinCos(HighS(r), K(r)).cos, v)
OkAtan(r, x) ==
  IF IsN(x) THEN IsN(r)
  ELSE IF IsZ(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(x)
       /\ IF IsI(x) THEN NearOf(r, IsNeg(x), HalfPi, 0)
          ELSE IF Tiny(x) THEN NearArg(r, x)
          ELSE LET cmp(v) == NScaledCmp(v.sin.m, 0, NMul(v.cos.m, S(x)), K(x)) IN          \* tan v against |x|
               /\ HasLow(r) => /\ Le(FixedOf(LowS(r), K(r)), HalfPi)
                               /\ cmp(SinCos(LowS(r), K(r))) <= 0
               /\ \/ ~Le(FixedOf(HighS(r), K(r)), HalfPi)
                  \/ cmp(SinCos(HighS(r), K(r))) >= 0
(* the angle of the point (x, y), between -pi and pi *)
SScaled(m, k, v) == [n |-> v.n, m |-> NMul(m, v.m), k |-> k]
(* sign of u + v, numbers with exponents: -1, 0, 1 *)
SignOfSum(u, v) ==
  IF u.n = v.n THEN (IF u.m = <<>> /\ v.m = <<>> THEN 0 ELSE IF u.n THEN -1 ELSE 1)
  ELSE LET c == NScaledCmp(u.m, u.k, v.m, v.k) IN IF u.n THEN -c ELSE c
OkAtan2(r, y, x) ==
  IF IsN(x) \/ IsN(y) THEN IsN(r)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(y)
       /\ IF IsZ(y) /\ ~IsNeg(x) THEN IsZ(r)
          ELSE IF IsZ(y) THEN NearOf(r, IsNeg(y), Pi, 0)
          ELSE IF IsI(y) /\ IsI(x) THEN NearOf(r, IsNeg(y), IF IsNeg(x) THEN NShr(NScale(HalfPi, 3), 1) ELSE NShr(HalfPi, 1), 0)
          ELSE IF IsI(y) \/ IsZ(x) THEN NearOf(r, IsNeg(y), HalfPi, 0)
          ELSE IF IsI(x) THEN (IF IsNeg(x) THEN NearOf(r, IsNeg(y), Pi, 0) ELSE IsZ(r))
          ELSE IF ~IsNeg(x) /\ NScaledCmp(NShl(S(y), 30), K(y), S(x), K(x)) < 0 THEN NearRatio(r, IsNeg(y), S(y), S(x), K(y) - K(x))
          ELSE LET v(s) == SinCos(s, K(r))
                   across(s) == SignOfSum(SScaled(S(y), K(y), v(s).cos), SNeg(SScaled(S(x), K(x), [v(s).sin EXCEPT !.n = @ # IsNeg(x)])))
                   along(s) == SignOfSum(SScaled(S(x), K(x), [v(s).cos EXCEPT !.n = @ # IsNeg(x)]), SScaled(S(y), K(y), v(s).sin))
               IN /\ HasLow(r) /\ along(LowS(r)) > 0 /\ across(LowS(r)) >= 0
                  /\ Le(FixedOf(LowS(r), K(r)), Pi)
                  /\ ~Le(FixedOf(HighS(r), K(r)), Pi) \/ (along(HighS(r)) > 0 /\ across(HighS(r)) <= 0)
(* a hyperbolic function g of s * 2^k against |x|; g is increasing *)
CmpSinh(s, k, x) ==
  IF NScaledCmp(s, k, Small(1300), 0) > 0 THEN 1
  ELSE IF NScaledCmp(s, k, <<40>>, 0) >= 0 THEN LET e == ExpOf(s, k) IN NScaledCmp(e.m, e.k - 1 - Point, S(x), K(x))
  ELSE LET h == Hyper(s, k) IN NScaledCmp(h.odd, 0, NMul(h.twice, S(x)), K(x))
CmpCosh(s, k, x) ==
  IF NScaledCmp(s, k, Small(1300), 0) > 0 THEN 1
  ELSE IF NScaledCmp(s, k, <<40>>, 0) >= 0 THEN LET e == ExpOf(s, k) IN NScaledCmp(e.m, e.k - 1 - Point, S(x), K(x))
  ELSE LET h == Hyper(s, k) IN NScaledCmp(h.even, 0, NMul(h.twice, S(x)), K(x))
OkAsinh(r, x) ==
  IF IsN(x) \/ IsZ(x) \/ IsI(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(x)
       /\ IF Tiny(x) THEN NearArg(r, x)
          ELSE /\ HasLow(r) => CmpSinh(LowS(r), K(r), x) <= 0
               /\ CmpSinh(HighS(r), K(r), x) >= 0
OkAcosh(r, x) ==
  IF IsN(x) \/ (IsNeg(x) /\ ~IsZ(x)) \/ ~AtLeast(x, 1) THEN IsN(r)
  ELSE IF x = Unity THEN Is(r, Nil(FALSE))
  ELSE IF IsI(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ ~IsNeg(r)
       /\ HasLow(r) => CmpCosh(LowS(r), K(r), x) <= 0
       /\ CmpCosh(HighS(r), K(r), x) >= 0
OkAtanh(r, x) ==
  IF IsN(x) \/ (AtLeast(x, 1) /\ Magn(x) # Unity) THEN IsN(r)
  ELSE IF Magn(x) = Unity THEN Is(r, Inf(IsNeg(x)))
  ELSE IF IsZ(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(x)
       /\ IF Tiny(x) THEN NearArg(r, x)
          ELSE /\ ~AtLeast(r, 39)
               /\ LET cmp(s) == LET h == Hyper(s, K(r)) IN NScaledCmp(h.odd, 0, NMul(h.even, S(x)), K(x)) IN
                  /\ HasLow(r) => cmp(LowS(r)) <= 0
                  /\ cmp(HighS(r)) >= 0
Cube(s) == NMul(s, NMul(s, s))
OkCbrt(r, x) ==
  IF IsN(x) \/ IsZ(x) \/ IsI(x) THEN Is(r, x)
  ELSE /\ Finite(13, r) /\ IsNeg(r) = IsNeg(x)
       /\ HasLow(r)
       /\ NScaledCmp(Cube(LowS(r)), 3 * K(r), S(x), K(x)) <= 0
       /\ NScaledCmp(Cube(HighS(r)), 3 * K(r), S(x), K(x)) >= 0

(* powers *)
WholeBits(w) == LET b == BigBits(SigOf(13, w)) IN K(w) >= 0 \/ \A i \in 1..Len(b) : i > Len(b) + K(w) => b[i] = 0
Whole(w) == IsI(w) \/ IsZ(w) \/ (WholeBits(w) /\ Len(BigBits(SigOf(13, w))) + K(w) >= 1)
OddWhole(w) ==
  /\ ~IsI(w) /\ ~IsZ(w) /\ Whole(w)
  /\ LET b == BigBits(SigOf(13, w))  p == Len(b) + K(w) IN p <= Len(b) /\ p >= 1 /\ b[p] = 1
OkPow(r, x, y) ==
  LET neg == IsNeg(x) /\ OddWhole(y) IN
  IF IsZ(y) \/ x = Unity THEN Is(r, Unity)
  ELSE IF IsN(x) \/ IsN(y) THEN IsN(r)
  ELSE IF IsI(y) THEN
         (IF Magn(x) = Unity THEN Is(r, Unity)
          ELSE Is(r, IF AtLeast(x, 1) = IsNeg(y) THEN Nil(FALSE) ELSE Inf(FALSE)))
  ELSE IF IsZ(x) THEN Is(r, IF IsNeg(y) THEN Inf(neg) ELSE Nil(neg))
  ELSE IF IsI(x) THEN Is(r, IF IsNeg(y) THEN Nil(neg) ELSE Inf(neg))
  ELSE IF IsNeg(x) /\ ~Whole(y) THEN IsN(r)
  ELSE IF y = Unity THEN Is(r, x)
  ELSE IF Magn(x) = Unity THEN Is(r, Dbl(neg, 1, 0))
  ELSE LET l == LnOf(x)
           down == l.n # IsNeg(y)
       IN IF NScaledCmp(NMul(l.m, S(y)), K(y) - Point, Small(1300), 0) >= 0 THEN Is(r, IF down THEN Nil(neg) ELSE Inf(neg))
          ELSE LET e == Exp(down, NShift(NMul(l.m, S(y)), K(y))) IN NearOf(r, neg, e.m, e.k)

------------------------------------------------------------------------------
Unary == {"exp", "sinh", "cosh", "tanh", "sin", "cos", "tan", "log", "log2", "log10", "asin", "acos", "atan", "asinh", "acosh", "atanh", "cbrt"}
Binary == {"logb", "atan2", "pow"}
Constants == {"pi", "e"}                                      \* to fifteen digits
Offered == Unary \cup Binary \cup Constants
Allowed(op, r, x, y) ==
  CASE op = "pi" -> WithinUnits(r, FALSE, Pi, One0, 0, 16)
    [] op = "e" -> LET e == Exp(FALSE, One0) IN WithinUnits(r, FALSE, e.m, One0, e.k, 16)
    [] op = "exp" -> OkExp(r, x)
    [] op = "sinh" -> OkSinh(r, x)
    [] op = "cosh" -> OkCosh(r, x)
    [] op = "tanh" -> OkTanh(r, x)
    [] op = "sin" -> OkSin(r, x)
    [] op = "cos" -> OkCos(r, x)
    [] op = "tan" -> OkTan(r, x)
    [] op = "log" -> OkLog(r, x)
    [] op = "log2" -> OkLog2(r, x)
    [] op = "log10" -> OkLog10(r, x)
    [] op = "asin" -> OkAsin(r, x)
    [] op = "acos" -> OkAcos(r, x)
    [] op = "atan" -> OkAtan(r, x)
    [] op = "asinh" -> OkAsinh(r, x)
    [] op = "acosh" -> OkAcosh(r, x)
    [] op = "atanh" -> OkAtanh(r, x)
    [] op = "cbrt" -> OkCbrt(r, x)
    [] op = "logb" -> OkLogBase(r, x, y)
    [] op = "atan2" -> OkAtan2(r, x, y)
    [] op = "pow" -> OkPow(r, x, y)
Observe(st) == <<st.x, st.y>>
Steps(op, st, a) ==
  CASE op = "let"  -> { [st |-> [x |-> a[1], y |-> a[2]], r |-> Ok(<<>>)] }
    [] op = "swap" -> { [st |-> [x |-> st.y, y |-> st.x], r |-> Ok(<<>>)] }
    [] OTHER -> {}
TransApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in Steps(op, st, a) }
(* a NaN is not kept *)
After(st, a, r) == IF a = <<>> \/ IsN(r) THEN st ELSE [st EXCEPT !.x = r]
TransExplain(st, e) ==
  IF e.op \in Offered
  THEN IF e.r.k = "ok" /\ Len(e.r.v) = 1 /\ IsWord8(e.r.v[1]) /\ Allowed(e.op, e.r.v[1], st.x, st.y) /\ e.s = Observe(After(st, e.a, e.r.v[1]))
       THEN {After(st, e.a, e.r.v[1])} ELSE {}
  ELSE Explained(TransApply(e.op, st, e.a), e)
=============================================================================
