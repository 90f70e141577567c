------------------------------- MODULE Maths --------------------------------
(* Integer mathematics, clamping and rounding.  The state: a numeric type t and three values x, y, z of it, as words. *)
EXTENDS Big

MathInit == [t |-> 8, x |-> Zero(4), y |-> Zero(4), z |-> Zero(4)]

Ints == 4..11
Floats == {12, 13}
SignedT(t) == t \in Ints /\ t % 2 = 0
WidthOf(t) == CASE t \in {4, 5} -> 1 [] t \in {6, 7} -> 2 [] t \in {8, 9, 12} -> 4 [] OTHER -> 8
LeastOf(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
CmpT(t, a, b) == IF t \in Floats THEN CmpF(t, a, b) ELSE Cmp(a, b, SignedT(t))
NaNV(t, w) == t \in Floats /\ IsNaNW(t, w)

(* a result that is a value of type u; zeros of either sign are the same number unless told apart *)
IsWord(v, n) == Len(v) = n /\ \A i \in 1..n : v[i] \in 0..255
SameF(u, a, b, strict) == IsWord(b, Bytes(u)) /\ (a = b \/ (IsNaNW(u, a) /\ IsNaNW(u, b)) \/ (~strict /\ IsZero(Magn(a)) /\ IsZero(Magn(b))))

Largest(st) == IF CmpT(st.t, st.x, st.y) >= 0 THEN st.x ELSE st.y
Smallest(st) == IF CmpT(st.t, st.x, st.y) <= 0 THEN st.x ELSE st.y
SignOf(st) ==
  IF NaNV(st.t, st.x) THEN Throw("Arithmetic")
  ELSE Ok(One(IF st.t \in Floats THEN CmpF(st.t, st.x, Zero(Bytes(st.t))) ELSE Cmp(st.x, Zero(WidthOf(st.t)), SignedT(st.t))))
(* the absolute value is a double *)
Magnitude(st) == Nearest(13, FALSE, Norm(MagnitudeOf(st.x, TRUE)), 0)
Widened(w) ==                                               \* a single as a double
  IF IsNaNW(12, w) THEN Pack(13, FALSE, 2047, <<1>> \o Zeros(51))
  ELSE IF IsInf(12, w) THEN InfOf(13, Negative(w)) ELSE Nearest(13, Negative(w), SigOf(12, w), LastWeight(12, w))
AbsOf(st) == CASE st.t = 13 -> Magn(st.x) [] st.t = 12 -> Magn(Widened(st.x)) [] OTHER -> Magnitude(st)
Clamped(st) ==                                              \* x between y and z
  IF CmpT(st.t, st.y, st.z) > 0 THEN Throw("MinMax")
  ELSE Ok(<<IF NaNV(st.t, st.x) THEN st.x ELSE IF CmpT(st.t, st.x, st.y) < 0 THEN st.y ELSE IF CmpT(st.t, st.x, st.z) > 0 THEN st.z ELSE st.x>>)
(* product of two signed words in twice their length *)
Product(a, b) ==
  LET n == 2 * Len(a)  m == Wide(BigMul(Norm(MagnitudeOf(a, TRUE)), Norm(MagnitudeOf(b, TRUE))), n)
  IN IF Negative(a) # Negative(b) THEN Neg(m) ELSE m
(* quotient toward zero, by schoolbook division in base 2, and remainder *)
RECURSIVE DivideBits(_, _, _, _, _)
DivideBits(bits, i, den, rem, q) ==
  IF i > Len(bits) THEN <<q, rem>>
  ELSE LET r2 == Shl(rem, 1)  r == IF bits[i] = 1 THEN BigAdd(r2, <<1>>) ELSE r2  g == BigCmp(r, den) >= 0
       IN DivideBits(bits, i + 1, den, IF g THEN BigSub(r, den) ELSE r, Append(q, Bool(g)))
DivRem(a, b) ==
  LET n == Len(a) IN
  IF IsZero(b) THEN Throw("DivideByZero")
  ELSE IF a = LeastOf(n) /\ b = [i \in 1..n |-> 255] THEN Throw("Overflow")
  ELSE LET d == DivideBits(BitsOf(MagnitudeOf(a, TRUE)), 1, Norm(MagnitudeOf(b, TRUE)), <<0>>, <<>>)
           q == FromBits(d[1])  r == Wide(d[2], n)
       IN Ok(<<IF Negative(a) # Negative(b) THEN Neg(q) ELSE q, IF Negative(a) THEN Neg(r) ELSE r>>)
(* a double as an integer in the given mode; it is exact *)
Integral(mode, f) ==
  IF ~Finite(13, f) \/ LastWeight(13, f) >= 0 THEN f
  ELSE Nearest(13, Negative(f), RoundTo(mode, Negative(f), SigOf(13, f), LastWeight(13, f)), 0)
Modes == [round |-> 0, trunc |-> 2, floor |-> 3, ceiling |-> 4]

(* rounding to digits after the point: x is scaled by 10^digits, exactly or to the nearest double, rounded in the mode
   and scaled back.  When the scaled value needs no rounding of its own, the result is the double nearest to the decimal
   fraction; otherwise the last place is left open *)
TenTo(n) == TimesPow10(<<1>>, n)
Limit16 == Nearest(13, FALSE, TenTo(16), 0)
StepsApart(a, b, n) == LET d == IF CmpU(Magn(a), Magn(b)) >= 0 THEN Sub(Magn(a), Magn(b)) ELSE Sub(Magn(b), Magn(a))
                       IN Negative(a) = Negative(b) /\ d[1] <= n /\ \A i \in 2..Len(d) : d[i] = 0
NearRatio(neg, w, p, q, exact) ==
  /\ Negative(w) = neg /\ Finite(13, w)
  /\ \/ NearestRatio(13, Magn(w), p, q)
     \/ /\ ~exact
        /\ LET one == <<1, 0, 0, 0, 0, 0, 0, 0>> IN NearestRatio(13, Add(Magn(w), one), p, q) \/ (~IsZero(Magn(w)) /\ NearestRatio(13, Sub(Magn(w), one), p, q))
RoundedOk(f, digits, mode, r) ==
  IF CmpF(13, Magn(f), Limit16) >= 0 \/ IsNaNW(13, f) THEN SameF(13, f, r, TRUE)
  ELSE LET p == BigMul(SigOf(13, f), TenTo(digits))  k == LastWeight(13, f)  n == Negative(f)
           s == Nearest(13, FALSE, p, k)  exact == SigOf(13, s) = <<0>> \/ ScaledCmp(SigOf(13, s), LastWeight(13, s), p, k) = 0
           choices == { RoundTo(mode, n, p, k), RoundTo(mode, n, SigOf(13, s), LastWeight(13, s)) }
       IN IsWord(r, 8) /\ \E c \in choices : NearRatio(n, r, c, TenTo(digits), exact)

(* x / y of doubles *)
QuotientOk(a, b, r) ==
  /\ IsWord(r, 8)
  /\ IF IsNaNW(13, a) \/ IsNaNW(13, b) \/ (IsZero(Magn(a)) /\ IsZero(Magn(b))) \/ (IsInf(13, a) /\ IsInf(13, b)) THEN IsNaNW(13, r)
     ELSE LET neg == Negative(a) # Negative(b) IN
          IF IsZero(Magn(b)) \/ IsInf(13, a) THEN r = InfOf(13, neg)
          ELSE IF IsZero(Magn(a)) \/ IsInf(13, b) THEN r = ZeroOf(13, neg)
          ELSE LET ka == LastWeight(13, a)  kb == LastWeight(13, b)  d == Max2(0, kb - ka)  u == Max2(0, ka - kb)
               IN Negative(r) = neg /\ ~IsNaNW(13, r) /\ NearestRatio(13, Magn(r), Shl(SigOf(13, a), u), Shl(SigOf(13, b), d))

Reply(op, st, a) ==
  CASE op = "max"    -> Ok(<<Largest(st)>>)
    [] op = "min"    -> Ok(<<Smallest(st)>>)
    [] op = "sign"   -> LET s == SignOf(st) IN IF s.k = "ok" THEN Ok(<<s.v>>) ELSE s
    [] op = "abs"    -> Ok(<<AbsOf(st)>>)
    [] op = "clamp"  -> Clamped(st)
    [] op = "bigMul" -> Ok(<<Product(st.x, st.y)>>)
    [] op = "divRem" -> DivRem(st.x, st.y)
    [] op = "divide" -> LET d == DivRem(st.x, st.y) IN IF d.k = "ok" THEN Ok(<<d.v[1]>>) ELSE d
    [] op \in DOMAIN Modes -> Ok(<<Integral(Modes[op], st.x)>>)
    [] op = "digits" /\ a[1][1] \notin 0..15 -> Throw("ArgumentOutOfRange")
    [] op = "digits" /\ Len(a[1]) = 2 /\ a[1][2] \notin 0..4 -> Throw("Argument")
Described(op, st, a) == (op = "digits" /\ a[1][1] \in 0..15 /\ (Len(a[1]) = 1 \/ a[1][2] \in 0..4)) \/ (op = "divide" /\ st.t = 13)
Observe(st) == <<One(st.t), st.x, st.y, st.z>>
MathSteps(op, st, a) ==
  IF op = "let" THEN LET n == [t |-> a[1][1], x |-> a[2], y |-> a[3], z |-> a[4]] IN { [st |-> n, r |-> Ok(<<>>)] }
  ELSE { [st |-> st, r |-> Reply(op, st, a)] }
MathApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in MathSteps(op, st, a) }
(* an operation whose result is a float: a NaN is as good as any other *)
FloatResult(op, st) == \/ op \in {"abs"} \cup DOMAIN Modes
                       \/ op = "clamp" /\ st.t \in Floats
MathExplain(st, e) ==
  IF e.op # "let" /\ e.s # Observe(st) THEN {}
  ELSE IF Described(e.op, st, e.a)
  THEN IF e.r.k = "ok" /\ Len(e.r.v) = 1 /\ (IF e.op = "digits" THEN RoundedOk(st.x, e.a[1][1], IF Len(e.a[1]) = 2 THEN e.a[1][2] ELSE 0, e.r.v[1])
                                             ELSE QuotientOk(st.x, st.y, e.r.v[1])) THEN {st} ELSE {}
  ELSE IF FloatResult(e.op, st) /\ e.r.k = "ok"
  THEN LET r == Reply(e.op, st, e.a)  u == IF e.op = "clamp" THEN st.t ELSE 13 IN
       IF r.k = "ok" /\ Len(e.r.v) = 1 /\ SameF(u, r.v[1], e.r.v[1], e.op # "clamp") THEN {st} ELSE {}
  ELSE Explained(MathApply(e.op, st, e.a), e)
=============================================================================
