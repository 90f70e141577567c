------------------------------- MODULE Boxes -------------------------------
(* Boxed values: equality, order and reading in another type.  The state is a pair of references x and y: each is null
   or <<type>> \o bytes (little endian; Boolean 1 byte, Char 4).  Two other objects stand for the rest of the class
   hierarchy: a string (type 17) and a plain object (type 1), each given by its identity.                            *)
EXTENDS Ieee

BoxInit == [x |-> Null, y |-> Null]

IntTypes == 4..11
Values == (2..13) \cup {15, 16}
BoxWidth == [t \in Values |-> CASE t \in {2, 4, 5} -> 1 [] t \in {6, 7} -> 2 [] t \in {3, 8, 9, 12} -> 4 [] OTHER -> 8]
Signs(t) == t \in {4, 6, 8, 10, 16}
IsValue(b) == b # Null /\ b[1] \in Values

(* sign of the difference of two values of type t *)
Order(t, v, w) == CASE t \in {12, 13} -> CmpF(t, v, w)
                    [] OTHER -> Cmp(v, w, Signs(t))

Same(p, q) ==                                  \* x.Equals(y) for a value x
  q # Null /\ p[1] = q[1] /\ Order(p[1], Tail(p), Tail(q)) = 0
Equals(st, how) ==                             \* 0: virtual, 1: static, 2: with the raw value
  CASE how = 1 /\ (st.x = Null \/ st.y = Null) -> { Ok(<<<<Bool(st.x = st.y)>>>>) }
    [] st.x = Null -> {}
    [] IsValue(st.x) -> { Ok(<<<<Bool(Same(st.x, st.y))>>>>) }
    [] OTHER -> { Ok(<<<<Bool(st.x = st.y)>>>>) }      \* identity; the named string and object differ from all others
Compare(st, how) ==                            \* 0: virtual, 1: with the raw value
  IF ~IsValue(st.x) THEN {}
  ELSE IF st.y = Null THEN { Ok(<<<<1>>>>) }
  ELSE IF st.y[1] # st.x[1] THEN { Reject }
  ELSE { Ok(<<<<Order(st.x[1], Tail(st.x), Tail(st.y))>>>>) }

(* which readings a type supports *)
Numeric == (4..13)
Readings == [t \in Values |->
  CASE t \in IntTypes -> 2..13
    [] t = 2 -> {2} \cup IntTypes
    [] t = 3 -> 3..13
    [] t \in {12, 13} -> 6..13
    [] OTHER -> {t}]
(* truncation of a floating-point value toward zero: as a word of n bytes, if it fits in n - 1 bytes or so; otherwise
   what the reading gives is left open *)
Open == <<-1, -1, -1>>
TruncF(t, w, u) ==
  LET n == BoxWidth[u]
      s == Significand(t, w)  k == LastWeight(t, w)
      int == IF k >= 0 THEN s \o [i \in 1..k |-> 0] ELSE SubSeq(s, 1, IF Len(s) + k > 0 THEN Len(s) + k ELSE 0)
      f == FirstOne(int)
      len == IF f = 0 THEN 0 ELSE Len(int) - f + 1
      bits == [i \in 1..(8 * n) |-> LET j == Len(int) - 8 * n + i IN IF j >= 1 THEN int[j] ELSE 0]
      lowest == Negative(w) /\ Signs(u) /\ len = 8 * n /\ \A i \in 2..(8 * n) : bits[i] = 0
  IN IF Exponent(t, w) = TopExponent(t) THEN Open
     ELSE IF (len > 8 * n - Bool(Signs(u)) /\ ~lowest) \/ (Negative(w) /\ ~Signs(u) /\ len > 0) THEN Open
     ELSE LET v == FromBits(bits) IN IF Negative(w) THEN Neg(v) ELSE v
(* single to double is exact; double to single is rounded, if the result is a normal number *)
ZeroF(t, neg) == [i \in 1..BoxWidth[t] |-> IF i = BoxWidth[t] /\ neg THEN 128 ELSE 0]
ConvertF(t, w, u) ==
  IF t = u THEN w
  ELSE IF Exponent(t, w) = TopExponent(t) THEN
    (IF IsNaNW(t, w) THEN Open ELSE FromBits(<<Bool(Negative(w))>> \o [i \in 1..(8 * BoxWidth[u] - 1) |-> IF i <= (IF u = 13 THEN 11 ELSE 8) THEN 1 ELSE 0]))
  ELSE IF IsZero(Magn(w)) THEN ZeroF(u, Negative(w))
  ELSE IF u = 12 /\ (Exponent(t, w) < 1023 - 125 \/ Exponent(t, w) > 1023 + 126) THEN Open
  ELSE EncodeF(Bool(Negative(w)), Significand(t, w), LastWeight(t, w), IF u = 13 THEN 52 ELSE 23, IF u = 13 THEN 11 ELSE 8)
Reading(t, w, u) ==
  CASE u = t -> w
    [] t \in {12, 13} /\ u \in {12, 13} -> ConvertF(t, w, u)
    [] t \in {12, 13} -> TruncF(t, w, u)
    [] u = 2 -> <<Bool(~IsZero(w))>>
    [] u = 12 -> SingleOf(w, Signs(t))
    [] u = 13 -> DoubleOf(w, Signs(t))
    [] OTHER -> Resize(w, BoxWidth[u], Signs(t))
As(st, u) ==                                   \* set of results
  IF st.x = Null THEN {}
  ELSE IF ~IsValue(st.x) \/ u \notin Readings[st.x[1]] THEN { Throw("InvalidCast") }
  ELSE { Ok(<<Reading(st.x[1], Tail(st.x), u)>>) }
IsOpen(r) == r.k = "ok" /\ r.v = <<Open>>

Let(st, which, v) == IF which = 0 THEN [st EXCEPT !.x = v] ELSE [st EXCEPT !.y = v]
BoxSteps(op, st, a) ==
  CASE op = "let"     -> { [st |-> Let(st, a[1][1], a[2]), r |-> Ok(<<>>)] }
    [] op = "swap"    -> { [st |-> [x |-> st.y, y |-> st.x], r |-> Ok(<<>>)] }
    [] op = "type"    -> IF st.x = Null THEN {} ELSE { [st |-> st, r |-> Ok(<<<<st.x[1]>>>>)] }
    [] op = "equals"  -> { [st |-> st, r |-> r] : r \in Equals(st, a[1][1]) }
    [] op = "compare" -> { [st |-> st, r |-> r] : r \in Compare(st, a[1][1]) }
    [] op = "as"      -> { [st |-> st, r |-> r] : r \in As(st, a[1][1]) }
    [] OTHER -> {}
BoxApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> <<o.st.x, o.st.y>>] : o \in BoxSteps(op, st, a) }
BoxExplain(st, e) ==
  { o.st : o \in { p \in BoxApply(e.op, st, e.a) : p.s = e.s /\ (ResultMatches(p.r, e.r) \/ (IsOpen(p.r) /\ e.r.k = "ok")) } }
=============================================================================
