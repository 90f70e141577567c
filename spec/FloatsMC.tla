------------------------------ MODULE FloatsMC ------------------------------
EXTENDS Floats, MCEmit
CONSTANTS Family, Singles, Doubles, Shifts, Alphabet, MaxLen, Starts
VARIABLE st
Init == st = FloatInit /\ EmitInit(st)
Do(op, a) == \E o \in FloatApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Ask(op, a) == st' = st /\ Emit(st, op, a, [st |-> st])
Has(t) == IF t = 13 THEN Doubles ELSE Singles
ValueNext ==
  \/ st = FloatInit /\ \E t \in {12, 13} : \E x, y \in Has(t) : Do("let", <<<<t>>, x, y>>)
  \/ Do("class", <<>>) \/ Do("cmp", <<>>) \/ Do("max", <<>>) \/ Do("min", <<>>)
  \/ Finite(st.t, st.x) /\ Ask("text", <<>>)
  \/ st.t = 13 /\ (Do("copySign", <<>>) \/ Do("maxMagn", <<>>) \/ Do("minMagn", <<>>) \/ Do("ilogb", <<>>)
                   \/ (st.y = Zero(8) /\ st.x \in Doubles /\ (Do("up", <<>>) \/ Do("down", <<>>)))
                   \/ (st.y = Zero(8) /\ \E n \in Shifts : Do("scaleB", <<<<n>>>>)))
  \/ Do("limits", <<>>)
TextNext ==
  \/ st.s = <<>> /\ st = FloatInit /\ \E s \in Starts \cup {Null} : Do("set", <<s>>)
  \/ st.s = <<>> /\ st.t = 13 /\ Do("let", <<<<12>>, Zero(4), Zero(4)>>)
  \/ st.s # Null /\ (st.s = <<>> => Starts = {}) /\ Len(st.s) < MaxLen /\ \E c \in Alphabet : Do("append", <<<<c>>>>)
  \/ Ask("parse", <<>>) \/ Ask("tryParse", <<>>)
Next == IF Family = "text" THEN TextNext ELSE ValueNext
Spec == Init /\ [][Next]_st

(* laws *)
Single1 == IsZero(st.y)                       \* laws about x alone are looked at once
Opposed == CmpF(st.t, st.x, st.y) = -CmpF(st.t, st.y, st.x)
Transitive == \A z \in Has(st.t) : (CmpF(st.t, st.x, st.y) <= 0 /\ CmpF(st.t, st.y, z) <= 0) => CmpF(st.t, st.x, z) <= 0
Kinds == Single1 => LET c == Class(st.t, st.x) IN                 \* exactly one of normal, subnormal, zero, infinite, NaN
  c[5] + c[6] + Bool(IsZero(Magn(st.x))) + c[2] + c[3] = 1 /\ c[1] = 1 - c[2] - c[3] /\ c[7] + c[8] = c[2]
Neighbours == Single1 => LET u == Up(st.t, st.x) IN
  ~IsNaNW(st.t, st.x) =>
  /\ (u = InfOf(st.t, FALSE) /\ st.x = u) \/ CmpF(st.t, st.x, u) < 0
  /\ \A z \in Has(st.t) : ~(CmpF(st.t, st.x, z) < 0 /\ CmpF(st.t, z, u) < 0)
  /\ st.x = InfOf(st.t, FALSE) \/ CmpF(st.t, Down(st.t, u), st.x) = 0
Extremes ==
  LET a == Larger(st.t, st.x, st.y)  b == Smaller(st.t, st.x, st.y)  m == LargerMagn(st.t, st.x, st.y)  n == SmallerMagn(st.t, st.x, st.y) IN
  (~IsNaNW(st.t, st.x) /\ ~IsNaNW(st.t, st.y)) =>
     {a, b} = {st.x, st.y} /\ {m, n} = {st.x, st.y} /\ CmpF(st.t, a, b) >= 0 /\ CmpF(st.t, Magn(m), Magn(n)) >= 0
Logarithm == Single1 => LET e == ILogB(st.t, st.x) IN (Finite(st.t, st.x) /\ ~IsZero(Magn(st.x))) =>
  /\ ScaledCmp(SigOf(st.t, st.x), LastWeight(st.t, st.x), <<1>>, e) >= 0
  /\ ScaledCmp(SigOf(st.t, st.x), LastWeight(st.t, st.x), <<1>>, e + 1) < 0
Scaling == Single1 =>
  /\ ScaleB(st.t, st.x, 0) = st.x
  /\ \A n \in Shifts : (Finite(st.t, st.x) /\ ~IsZero(Magn(st.x))) =>
        LET r == ScaleB(st.t, st.x, n) IN
        (ILogB(st.t, st.x) + n) \in (1 - TopExponent(st.t) \div 2)..(TopExponent(st.t) \div 2)
        => ScaleB(st.t, r, -n) = st.x /\ ILogB(st.t, r) = ILogB(st.t, st.x) + n
(* the two definitions of nearest agree: each value is nearest to itself, to what is just short of halfway to its
   neighbours, and not to what is beyond *)
OwnNearest == Single1 /\ Finite(st.t, st.x) =>
  LET k == LastWeight(st.t, st.x)  s == SigOf(st.t, st.x)  near(p, j) == NearestRatio(st.t, Magn(st.x), Shl(p, Max2(0, j)), Shl(<<1>>, Max2(0, -j))) IN
  /\ near(s, k) /\ Nearest(st.t, Negative(st.x), s, k) = st.x
  /\ near(BigAdd(BigSmall(s, 16), <<7>>), k - 4) /\ ~near(BigAdd(BigSmall(s, 16), <<9>>), k - 4)
  /\ near(BigAdd(BigSmall(s, 2), <<1>>), k - 1) = (Nearest(st.t, Negative(st.x), BigAdd(BigSmall(s, 2), <<1>>), k - 1) = st.x)
  /\ Nearest(st.t, Negative(st.x), BigAdd(BigSmall(s, 16), <<7>>), k - 4) = st.x
  /\ Nearest(st.t, FALSE, BigAdd(BigSmall(s, 16), <<9>>), k - 4) = Up(st.t, Magn(st.x))
(* reading a text gives what its own text reads as, whatever the text: six digits are unchanged *)
SixDigits == st.s # Null => LET d == ReadDecimal(st.s) IN (d.ok /\ d.digits # <<>> /\ Len(NoTrailing(d.digits)) <= 6 /\ d.scale > -90 /\ d.scale < 90) =>
  LET sig == NoTrailing(d.digits)  six == sig \o Rep(0, 6 - Len(sig))  x == d.scale + Len(d.digits) - 1
      t == Shown(d.neg, six, x)  r == ReadDecimal(t)
      num(q) == NumberOf(q.digits, 1, <<0>>)
  IN r.ok /\ r.neg = d.neg /\ NoTrailing(r.digits) = sig /\ r.scale + Len(r.digits) = d.scale + Len(d.digits)
ASSUME TextOk(13, <<0,0,0,0,0,0,248,63>>, <<49,46,53>>)                       \* 1.5
ASSUME TextOk(13, Nearest(13, TRUE, TenTo(20), 0), <<45,49,69,43,50,48>>)       \* -1E+20
ASSUME TextOk(12, <<1,0,0,0>>, <<49,46,52,48,49,51,69,45,52,53>>)               \* 1.4013E-45
ASSUME TextOk(13, Nearest(13, FALSE, BigOf(9999995), 0), <<49,69,43,48,55>>) /\ ~TextOk(13, Nearest(13, FALSE, BigOf(9999994), 0), <<49,69,43,48,55>>)
ASSUME TextOk(13, Nearest(13, FALSE, BigOf(99999950), 0), <<49,69,43,48,56>>) /\ TextOk(13, Nearest(13, FALSE, BigOf(1000005), 0), <<49,69,43,48,54>>)
=============================================================================
