------------------------------ MODULE MathsMC -------------------------------
EXTENDS Maths, MCEmit
CONSTANTS Types, Values,        \* Values: pairs <<type, word>>
          Grid                  \* digits and modes for rounding
VARIABLE st
Init == st = MathInit /\ EmitInit(st)
Do(op, a) == \E o \in MathApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Ask(op, a) == st' = st /\ Emit(st, op, a, [st |-> st])
Of(t) == { v[2] : v \in { w \in Values : w[1] = t } }
Next ==
  \/ st = MathInit /\ \E t \in Types : \E x, y, z \in Of(t) :
        (t \in Floats => ~IsNaNW(t, y) /\ ~IsNaNW(t, z)) /\ (t = 13 => z = y) /\ Do("let", <<<<t>>, x, y, z>>)
  \/ st.t \in Ints /\ (Do("max", <<>>) \/ Do("min", <<>>))
  \/ (SignedT(st.t) \/ st.t \in Floats) /\ (Do("sign", <<>>) \/ Do("abs", <<>>))
  \/ Do("clamp", <<>>)
  \/ st.t = 8 /\ (Do("bigMul", <<>>) \/ Do("divRem", <<>>))
  \/ st.t = 10 /\ (Do("divRem", <<>>) \/ Do("divide", <<>>))
  \/ st.t = 13 /\ (\/ Ask("divide", <<>>) \/ \E op \in DOMAIN Modes : Do(op, <<>>)
                   \/ \E d \in Grid : IF Described("digits", st, <<d>>) THEN Ask("digits", <<d>>) ELSE Do("digits", <<d>>))
Spec == Init /\ [][Next]_st

(* laws *)
Bounds == st.t \in Ints => CmpT(st.t, Smallest(st), Largest(st)) <= 0 /\ {Smallest(st), Largest(st)} = {st.x, st.y}
ClampInside == LET c == Clamped(st) IN (c.k = "ok" /\ ~NaNV(st.t, st.x)) => CmpT(st.t, c.v[1], st.y) >= 0 /\ CmpT(st.t, c.v[1], st.z) <= 0
ClampIdle == LET c == Clamped(st) IN (CmpT(st.t, st.x, st.y) >= 0 /\ CmpT(st.t, st.x, st.z) <= 0) => c = Ok(<<st.x>>)
Euclid == st.t \in {8, 10} => LET d == DivRem(st.x, st.y) IN d.k = "ok" =>
   /\ Add(SubSeq(Product(d.v[1], st.y), 1, WidthOf(st.t)), d.v[2]) = st.x
   /\ CmpU(MagnitudeOf(d.v[2], TRUE), MagnitudeOf(st.y, TRUE)) < 0
   /\ (IsZero(d.v[2]) \/ Negative(d.v[2]) = Negative(st.x))
Commutes == st.t = 8 => Product(st.x, st.y) = Product(st.y, st.x)
Between == st.t = 13 /\ ~IsNaNW(13, st.x) =>
   LET f == Integral(3, st.x)  c == Integral(4, st.x)  r == Integral(0, st.x)  i == Integral(2, st.x) IN
   /\ CmpF(13, f, st.x) <= 0 /\ CmpF(13, st.x, c) <= 0 /\ r \in {f, c} /\ i \in {f, c}
   /\ Negative(f) = Negative(st.x) /\ Integral(0, r) = r /\ (IsZero(Magn(c)) \/ Negative(c) = Negative(st.x))
   /\ (f = st.x) = (c = st.x)
   /\ \A m \in 0..4 : RoundedOk(st.x, 0, m, IF m = 1 THEN IF RoundedOk(st.x, 0, 1, f) THEN f ELSE c ELSE Integral(m, st.x))
Exact == st.t = 13 => QuotientOk(st.x, Nearest(13, FALSE, <<1>>, 0), st.x) /\ (Finite(13, st.x) /\ ~IsZero(Magn(st.x)) => QuotientOk(st.x, st.x, Nearest(13, FALSE, <<1>>, 0)))
(* what a rounding is not *)
ASSUME Nearest(13, FALSE, <<1>>, -1075) = Zero(8) /\ Nearest(13, FALSE, <<3>>, -1076) = [i \in 1..8 |-> Bool(i = 1)]
ASSUME Nearest(12, TRUE, <<255, 255, 255, 255>>, 96) = InfOf(12, TRUE) /\ Nearest(12, FALSE, <<255, 255, 255>>, 104) = <<255, 255, 127, 127>>
ASSUME \A n \in 0..40 : NearestRatio(13, Nearest(13, FALSE, BigOf(n), -3), BigOf(n), <<8>>)
ASSUME \A n \in 1..40 : ~NearestRatio(13, Nearest(13, FALSE, BigOf(n), -3), BigOf(n + 41), <<64, 1>>)
=============================================================================
