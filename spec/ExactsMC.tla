------------------------------ MODULE ExactsMC ------------------------------
EXTENDS Exacts, MCEmit
CONSTANTS Type, Values, Addends
VARIABLE st
Init == st = ExactInit /\ EmitInit(st)
Do(op, a) == \E o \in ExactApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Next ==
  \/ st = ExactInit /\ \E x, y \in Values : \E z \in Addends : Do("let", <<<<Type>>, x, y, z>>)
  \/ st # ExactInit /\ (Do("mod", <<>>) \/ (Type = 13 /\ (Do("sqrt", <<>>) \/ Do("fma", <<>>) \/ Do("rem", <<>>))))
Spec == Init /\ [][Next]_st

Plain(w) == Finite(Type, w) /\ ~IsNought(w)
T == st.t
AbsCmp(a, b) == CmpF(T, Magn(a), Magn(b))
(* the root r of x = s 2^k: x lies between the squares of r -+ half of its last place *)
Rooted == Plain(st.x) /\ ~Negative(st.x) =>
  LET r == Sqrt(T, st.x)  m == SigOf(T, r)  j == LastWeight(T, r)
      sq(v) == BigMul(v, v)
      low == BigSub(BigSmall(m, 4), BigOf(IF PowerOfTwo(T, r) THEN 1 ELSE 2))
  IN /\ ScaledCmp(sq(BigAdd(BigSmall(m, 4), <<2>>)), 2 * j - 4, SigOf(T, st.x), LastWeight(T, st.x)) > 0
     /\ ScaledCmp(sq(low), 2 * j - 4, SigOf(T, st.x), LastWeight(T, st.x)) < 0
(* the root of a square is what was squared, where the square is exact *)
Squared == Plain(st.x) /\ Len(BigBits(SigOf(T, st.x))) - 1 - (Len(BigBits(SigOf(T, st.x))) - LastOne(BigBits(SigOf(T, st.x)))) < MantBits(T) \div 2 =>
  LET q == Fma(T, st.x, st.x, Zero(Bytes(T))) IN (Plain(q) /\ Exponent(T, q) > 0) => Sqrt(T, q) = Magn(st.x)
(* factors commute, signs factor out, one is neutral *)
Factors ==
  /\ Same(T, Fma(T, st.x, st.y, st.z), Fma(T, st.y, st.x, st.z))
  /\ LET f == Fma(T, st.x, st.y, st.z)  g == Fma(T, Opposite(st.x), st.y, Opposite(st.z)) IN
     IsNaNW(T, f) \/ IsNought(f) \/ f = Opposite(g)
  /\ LET one == Nearest(T, FALSE, <<1>>, 0) IN ~IsNaNW(T, st.x) =>
        /\ CmpF(T, Fma(T, st.x, one, Zero(Bytes(T))), st.x) = 0
        /\ Finite(T, st.x) => Fma(T, st.x, one, Opposite(st.x)) = Zero(Bytes(T))
(* |rem| <= |y| / 2, |mod| < |y|, and they differ by nothing or by |y| *)
Remainders == Plain(st.x) /\ Plain(st.y) =>
  LET r == Remainder(T, st.x, st.y)  m == Modulus(T, st.x, st.y)  one == Nearest(T, FALSE, <<1>>, 0)
      less(w, f) == ScaledCmp(BigSmall(SigOf(T, w), f), LastWeight(T, w), SigOf(T, st.y), LastWeight(T, st.y))
  IN /\ less(r, 2) <= 0 /\ less(m, 1) < 0
     /\ Negative(m) = Negative(st.x)
     /\ r = m \/ Fma(T, r, one, Signed(Negative(m), Magn(st.y))) = m          \* the sum is exact
     /\ Modulus(T, m, st.y) = m /\ Remainder(T, r, st.y) = r
ASSUME Sqrt(13, Nearest(13, FALSE, <<2>>, 0)) = <<205,59,127,102,158,160,246,63>>        \* 1.4142135623730951
ASSUME Root(BigOf(99)) = <<9>> /\ Root(BigOf(100)) = <<10>> /\ Root(BigOf(0)) = <<0>>
ASSUME Remainder(13, Nearest(13, FALSE, <<3>>, 0), Nearest(13, FALSE, <<2>>, 0)) = Nearest(13, TRUE, <<1>>, 0)
ASSUME Remainder(13, Nearest(13, FALSE, <<5>>, 0), Nearest(13, FALSE, <<2>>, 0)) = Nearest(13, FALSE, <<1>>, 0)
=============================================================================
