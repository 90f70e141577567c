------------------------------- MODULE Exacts -------------------------------
(* The operations whose result IEEE 754 defines to the last bit: square root, fused multiply-add, the two remainders.
   The state: the type t (12 single, 13 double) and three values x, y, z of it; roots, sums and remainders can be kept in
   x, so that a computation goes on with the result of the last.                                                       *)
EXTENDS Big, SequencesExt

ExactInit == [t |-> 13, x |-> Zero(8), y |-> Zero(8), z |-> Zero(8)]

NaNOf(t) == Pack(t, FALSE, TopExponent(t), <<1>> \o Zeros(MantBits(t) - 1))
Opposite(w) == [w EXCEPT ![Len(w)] = (@ + 128) % 256]
IsWord(v, n) == Len(v) = n /\ \A i \in 1..n : v[i] \in 0..255
Same(t, a, b) == IsWord(b, Bytes(t)) /\ (a = b \/ (IsNaNW(t, a) /\ IsNaNW(t, b)))
Signed(neg, w) == IF neg THEN Opposite(w) ELSE w
IsNought(w) == IsZero(Magn(w))

(* integer square root: the greatest r with r * r <= a, bit by bit from 2^k *)
Root(a) ==
  LET top == Len(BigBits(a)) \div 2
      step(r, k) == LET c == BigAdd(r, Shl(<<1>>, top - k)) IN IF BigCmp(BigMul(c, c), a) <= 0 THEN c ELSE r
  IN FoldLeft(step, <<0>>, [k \in 1..(top + 1) |-> k - 1])
Sqrt(t, w) ==
  IF IsNaNW(t, w) THEN NaNOf(t)
  ELSE IF IsNought(w) THEN w
  ELSE IF Negative(w) THEN NaNOf(t)
  ELSE IF IsInf(t, w) THEN w
  ELSE LET s == SigOf(t, w)  k == LastWeight(t, w)
           need == 2 * MantBits(t) + 4 - Len(BigBits(s))                 \* the root then has at least two bits to spare
           up == IF (k - need) % 2 = 0 THEN need ELSE need + 1
           a == Shl(s, up)  r == Root(a)
       IN NearestX(t, FALSE, r, (k - up) \div 2, BigCmp(BigMul(r, r), a) # 0)

(* the sum of (-1)^n a * 2^i and (-1)^m b * 2^j, rounded once *)
SumOf(t, n, a, i, m, b, j) ==
  LET k == IF i < j THEN i ELSE j  p == Shl(a, i - k)  q == Shl(b, j - k) IN
  IF n = m THEN Nearest(t, n, BigAdd(p, q), k)
  ELSE LET c == BigCmp(p, q) IN
       IF c = 0 THEN ZeroOf(t, FALSE) ELSE IF c > 0 THEN Nearest(t, n, BigSub(p, q), k) ELSE Nearest(t, m, BigSub(q, p), k)
Fma(t, x, y, z) ==
  LET n == Negative(x) # Negative(y) IN
  IF IsNaNW(t, x) \/ IsNaNW(t, y) \/ IsNaNW(t, z) THEN NaNOf(t)
  ELSE IF (IsInf(t, x) /\ IsNought(y)) \/ (IsNought(x) /\ IsInf(t, y)) THEN NaNOf(t)
  ELSE IF IsInf(t, x) \/ IsInf(t, y) THEN (IF IsInf(t, z) /\ Negative(z) # n THEN NaNOf(t) ELSE InfOf(t, n))
  ELSE IF IsInf(t, z) THEN z
  ELSE IF IsNought(x) \/ IsNought(y) THEN (IF IsNought(z) THEN ZeroOf(t, n /\ Negative(z)) ELSE z)
  ELSE LET p == BigMul(SigOf(t, x), SigOf(t, y))  i == LastWeight(t, x) + LastWeight(t, y) IN
       IF IsNought(z) THEN Nearest(t, n, p, i)
       ELSE SumOf(t, n, p, i, Negative(z), SigOf(t, z), LastWeight(t, z))

(* <<what is left of the bits b divided by d, last bit of the quotient>> *)
ModStep(r, bit, d) ==
  LET r2 == BigAdd(BigSmall(r, 2), <<bit>>) IN IF BigCmp(r2, d) >= 0 THEN <<BigSub(r2, d), 1>> ELSE <<r2, 0>>
ModBits(b, d) == FoldLeft(LAMBDA acc, bit : ModStep(acc[1], bit, d), <<<<0>>, 0>>, b)
(* |x| = q |y| + left * 2^unit with whole q; per is |y| in that unit *)
Divided(t, x, y) ==
  LET i == LastWeight(t, x)  j == LastWeight(t, y)  s == SigOf(t, x) IN
  IF i - j < -60 THEN [left |-> s, unit |-> i, odd |-> FALSE, per |-> Shl(<<1>>, 60)]       \* far below half of |y|
  ELSE LET k == IF i < j THEN i ELSE j
           per == Shl(SigOf(t, y), j - k)
           m == ModBits(BigBits(s) \o Zeros(i - k), per)
       IN [left |-> m[1], unit |-> k, odd |-> m[2] = 1, per |-> per]
Undefined(t, x, y) == IsNaNW(t, x) \/ IsNaNW(t, y) \/ IsInf(t, x) \/ IsNought(y)
Modulus(t, x, y) ==                    \* what truncated division leaves: the sign of x
  IF Undefined(t, x, y) THEN NaNOf(t)
  ELSE IF IsInf(t, y) \/ IsNought(x) THEN x
  ELSE LET d == Divided(t, x, y) IN Nearest(t, Negative(x), d.left, d.unit)
Remainder(t, x, y) ==                  \* what division rounded to the nearest whole number leaves, ties to even
  IF Undefined(t, x, y) THEN NaNOf(t)
  ELSE IF IsInf(t, y) \/ IsNought(x) THEN x
  ELSE LET d == Divided(t, x, y)  c == BigCmp(BigSmall(d.left, 2), d.per) IN
       IF c < 0 \/ (c = 0 /\ ~d.odd) THEN Nearest(t, Negative(x), d.left, d.unit)
       ELSE Nearest(t, ~Negative(x), BigSub(d.per, d.left), d.unit)

Observe(st) == <<<<st.t>>, st.x, st.y, st.z>>
Computed == {"sqrt", "fma", "rem", "mod"}
ValueOf(op, st) ==
  CASE op = "sqrt" -> Sqrt(st.t, st.x)
    [] op = "fma" -> Fma(st.t, st.x, st.y, st.z)
    [] op = "rem" -> Remainder(st.t, st.x, st.y)
    [] op = "mod" -> Modulus(st.t, st.x, st.y)
(* a NaN is kept as the one NaN both sides agree on *)
ExactSteps(op, st, a) ==
  CASE op = "let"  -> { [st |-> [t |-> a[1][1], x |-> a[2], y |-> a[3], z |-> a[4]], r |-> Ok(<<>>)] }
    [] op = "turn" -> { [st |-> [st EXCEPT !.x = st.y, !.y = st.z, !.z = st.x], r |-> Ok(<<>>)] }
    [] op \in Computed -> LET v == ValueOf(op, st) IN
         { [st |-> IF a = <<>> \/ IsNaNW(st.t, v) THEN st ELSE [st EXCEPT !.x = v], r |-> Ok(<<v>>)] }
    [] OTHER -> {}
ExactApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in ExactSteps(op, st, a) }
ExactExplain(st, e) ==
  IF e.op \in Computed
  THEN { o.st : o \in { p \in ExactApply(e.op, st, e.a) : e.r.k = "ok" /\ Len(e.r.v) = 1 /\ Same(st.t, p.r.v[1], e.r.v[1]) /\ p.s = e.s } }
  ELSE Explained(ExactApply(e.op, st, e.a), e)
=============================================================================
