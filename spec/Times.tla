------------------------------- MODULE Times -------------------------------
(* Dates, time spans, their text and time zones.  The state of a program: a date d and a time span t, both as tick
   counts in 8-byte words, a text x, and the zone z it runs in: minutes east of Greenwich, or one of the two zones with
   daylight saving.                                                                                               *)
EXTENDS Ieee, Calendar, Text

TimeInit == [d |-> Zero(8), t |-> Zero(8), x |-> <<>>, z |-> 0]

------------------------------------------------------------------------------
(* tick counts *)
MaxTicks == <<255, 63, 55, 244, 117, 40, 202, 43>>                   \* 3155378975999999999
InRange(w) == ~Negative(w) /\ CmpU(w, MaxTicks) <= 0
IntOf(w) == w[1] + 256 * w[2] + 65536 * w[3] + 16777216 * (IF Len(w) > 3 THEN w[4] ELSE 0)      \* of a word below 2^31
Highest == [i \in 1..8 |-> IF i = 8 THEN 127 ELSE 255]
Lowest  == [i \in 1..8 |-> IF i = 8 THEN 128 ELSE 0]
TicksPerMs == <<10000>>
(* factors of the units: millisecond, second, minute, hour, day *)
UnitTicks == <<<<10000>>, <<10000, 1000>>, <<10000, 1000, 60>>, <<10000, 1000, 3600>>, <<10000, 1000, 3600, 24>>>>
UnitMs    == <<<<1>>, <<1000>>, <<1000, 60>>, <<1000, 3600>>, <<1000, 3600, 24>>>>
(* a non-negative word broken down: days, hours, minutes, seconds, milliseconds, ticks of the last millisecond *)
Split(w) ==
  LET a == DivSmall(w, 10000)  b == DivSmall(a[1], 1000)  c == DivSmall(b[1], 60)  e == DivSmall(c[1], 60)  f == DivSmall(e[1], 24)
  IN [days |-> IntOf(f[1]), h |-> f[2], mi |-> e[2], s |-> c[2], ms |-> b[2], ticks |-> a[2]]
DayTicks(n) == MulAll(ToWord(n, 8), UnitTicks[5])
(* hours etc. may be any integers of 32 bits; the arithmetic is modulo 2^64, which is exact here *)
Weighted(v, factors) == MulAll(SToWord(v, 8), factors)
DateTicks(y, m, d, h, mi, s, ms) ==
  Add(Add(DayTicks(DayNumber(y, m, d)), Weighted(h, UnitTicks[4])),
      Add(Add(Weighted(mi, UnitTicks[3]), Weighted(s, UnitTicks[2])), Weighted(ms, UnitTicks[1])))

Set(st, w) == IF InRange(w) THEN { [st |-> [st EXCEPT !.d = w], r |-> Ok(<<>>)] }
              ELSE { [st |-> st, r |-> Throw("ArgumentOutOfRange")] }
Fail(st, x) == { [st |-> st, r |-> Throw(x)] }
Give(st, v) == { [st |-> st, r |-> Ok(v)] }
Span(st, w) == { [st |-> [st EXCEPT !.t = w], r |-> Ok(<<>>)] }

(* a: year month day [hour minute second [millisecond]] *)
FromParts(st, a0) ==
  LET a == a0 \o <<0, 0, 0, 0>> IN
  IF ValidDate(a[1], a[2], a[3]) /\ a[4] \in 0..23 /\ a[5] \in 0..59 /\ a[6] \in 0..59 /\ a[7] \in 0..999
  THEN Set(st, DateTicks(a[1], a[2], a[3], a[4], a[5], a[6], a[7]))
  ELSE Fail(st, "ArgumentOutOfRange")
Parts(st) ==
  LET p == Split(st.d)  c == DateOf(p.days)
  IN Give(st, <<<<c[1], c[2], c[3], c[4], WeekDay(p.days)>>, <<p.h, p.mi, p.s, p.ms>>,
               Sub(st.d, DayTicks(p.days)), DayTicks(p.days), st.d>>)
(* a whole month: per day its number, and the year, month, day, day of year and weekday it is taken apart into *)
MonthTable(y, m) ==
  LET n == MonthLength(y, m)  first == DayNumber(y, m, 1)  doy == MonthStart(y, m)
  IN <<[i \in 1..n |-> first + i - 1], Rep(y, n), Rep(m, n), [i \in 1..n |-> i], [i \in 1..n |-> doy + i],
       [i \in 1..n |-> WeekDay(first + i - 1)]>>
YearOk(y) == y >= 1 /\ y <= 9999
MonthOk(m) == m >= 1 /\ m <= 12

------------------------------------------------------------------------------
(* arithmetic on dates *)
Sum(a, b) == Add(a \o <<FillOf(a, TRUE)>>, b \o <<FillOf(b, TRUE)>>)          \* of signed words, one byte longer
Diff(a, b) == Sub(a \o <<FillOf(a, TRUE)>>, b \o <<FillOf(b, TRUE)>>)
Fits64(w) == w[9] = FillOf(SubSeq(w, 1, 8), TRUE)
Low8(w) == SubSeq(w, 1, 8)
Moved(st, w) == IF Fits64(w) THEN Set(st, Low8(w)) ELSE Fail(st, "ArgumentOutOfRange")

(* the magnitude of a double times factors, as bits and the weight of the last *)
SigWord(f) == LET b == Significand(13, f) IN WordOfBits(b, 8)
Product(f, factors) ==
  LET w == MulAll(SigWord(f) \o Zero(8), factors) IN <<Bits0(BitsOf(w)), LastWeight(13, f)>>
(* integer part of bits * 2^k in n bytes, or Huge *)
Huge == <<-1>>
IntWord(b, k, n) ==
  IF b = <<>> THEN Zero(n)
  ELSE IF Len(b) + k > 8 * n THEN Huge
  ELSE WordOfBits(IntPart(b, k), n)
(* milliseconds nearest to value * unit; within an eighth of a millisecond of a tie either neighbour may be taken,
   unless the product is exact *)
NearestMs(f, unit) ==
  LET p == Product(f, UnitMs[unit + 1])  b == p[1]  k == p[2]  i == IntWord(b, k, 7) IN
  IF i = Huge THEN { Huge }
  ELSE LET fr == Eager(FracPart(b, k) \o <<0, 0, 0>>)
           top == fr[1] * 4 + fr[2] * 2 + fr[3]                              \* eighths
           rest == \E j \in 4..Len(fr) : fr[j] = 1
           exact == LastOne(b) <= 53
           up == Add(i, ToWord(1, 7))
       IN IF top < 3 \/ (top = 3 /\ ~rest) THEN { i }
          ELSE IF top > 4 THEN { up }
          ELSE IF exact /\ top = 4 /\ ~rest THEN { up }
          ELSE { i, up }
AddUnit(st, unit, f) ==
  IF ~Finite(13, f) THEN Fail(st, "ArgumentOutOfRange")
  ELSE UNION { IF ms = Huge THEN Fail(st, "ArgumentOutOfRange")
               ELSE LET m == MulAll(ms \o <<0, 0>>, TicksPerMs)  delta == IF Negative(f) THEN Neg(m) ELSE m
                    IN Moved(st, Add(st.d \o <<0>>, delta)) : ms \in { x \in NearestMs(f, unit) : TRUE } }
MonthShift(st, k) ==
  LET p == Split(st.d)  c == DateOf(p.days)  month == (c[1] - 1) * 12 + c[2] - 1 + k          \* counted from 0001-01
      y == month \div 12 + 1  m == (month % 12) + 1
  IN IF month < 0 \/ y > 9999 THEN Fail(st, "ArgumentOutOfRange")
     ELSE Set(st, Add(DayTicks(DayNumber(y, m, Min2(c[3], MonthLength(y, m)))), Sub(st.d, DayTicks(p.days))))
AddMonths(st, k) == IF k < -120000 \/ k > 120000 THEN Fail(st, "ArgumentOutOfRange") ELSE MonthShift(st, k)
AddYears(st, k) == IF k < -10000 \/ k > 10000 THEN Fail(st, "ArgumentOutOfRange") ELSE MonthShift(st, 12 * k)
(* every way of comparing: Compare, CompareTo a value, CompareTo an object, Equals (value, static, object), == # < <= > >= *)
Comparisons(c) ==
  <<<<c, c, c>>, <<Bool(c = 0), Bool(c = 0), Bool(c = 0)>>,
    <<Bool(c = 0), Bool(c # 0), Bool(c < 0), Bool(c <= 0), Bool(c > 0), Bool(c >= 0)>>>>

------------------------------------------------------------------------------
(* time spans *)
MaxMs == DivSmall(Highest, 10000)[1]
MaxSec == DivSmall(MaxMs, 1000)[1]
Within(w, limit) == CmpS(w, limit) <= 0 /\ CmpS(w, Neg(limit)) >= 0
FromHms(st, a) ==
  LET s == Add(Add(Weighted(a[1], <<3600>>), Weighted(a[2], <<60>>)), SToWord(a[3], 8))
  IN IF Within(s, MaxSec) THEN Span(st, MulAll(s, UnitTicks[2])) ELSE Fail(st, "ArgumentOutOfRange")
FromDhms(st, a) ==
  LET ms == Add(Add(Weighted(a[1], UnitMs[5]), Weighted(a[2], UnitMs[4])),
                Add(Add(Weighted(a[3], UnitMs[3]), Weighted(a[4], UnitMs[2])), SToWord(a[5], 8)))
  IN IF Within(ms, MaxMs) THEN Span(st, MulAll(ms, TicksPerMs)) ELSE Fail(st, "ArgumentOutOfRange")
(* a signed tick count from a magnitude word of 9 bytes or Huge *)
Signed(st, neg, m) ==
  IF m = Huge \/ m[9] # 0 \/ (CmpU(Low8(m), Lowest) > 0) \/ (Low8(m) = Lowest /\ ~neg) THEN Fail(st, "Overflow")
  ELSE Span(st, IF neg THEN Neg(Low8(m)) ELSE Low8(m))
FromUnit(st, unit, f) ==
  IF IsNaNW(13, f) THEN Fail(st, "Argument")
  ELSE IF IsInf(13, f) THEN Fail(st, "Overflow")
  ELSE LET p == Product(f, UnitTicks[unit + 1])  q == RoundBits(p[1], p[2], 53)
       IN Signed(st, Negative(f), IntWord(q[1], q[2], 9)) \cup Signed(st, Negative(f), IntWord(p[1], p[2], 9))
SpanParts(st) ==
  LET n == Negative(st.t)  p == Split(MagnitudeOf(st.t, TRUE))  s(v) == IF n THEN -v ELSE v
  IN Give(st, <<<<s(p.days), s(p.h), s(p.mi), s(p.s), s(p.ms)>>, st.t>>)

(* quotient of a bit sequence by a word, most significant first, without leading zeros, and whether a remainder is left *)
RECURSIVE LongDiv(_, _, _, _, _)
LongDiv(b, i, den, rem, q) ==
  IF i > Len(b) THEN [q |-> q, exact |-> IsZero(rem)]
  ELSE LET r == Eager([j \in 1..Len(rem) |-> ((rem[j] * 2) % 256) + (IF j = 1 THEN b[i] ELSE rem[j-1] \div 128)])
       IN IF CmpU(r, den) >= 0 THEN LongDiv(b, i + 1, den, Sub(r, den), Append(q, 1))
          ELSE LongDiv(b, i + 1, den, r, Append(q, 0))
(* (bits * 2^k) / (den * 2^kd) to at least 66 significant bits, a sticky bit standing for the rest: <<bits, weight of the last>> *)
Quotient(b, k, den, kd) ==
  LET nd == Len(Bits0(BitsOf(den)))
      more == Max2(0, 66 + nd - Len(b))
      n == b \o Zeros(more)                                       \* its first nd - 1 bits are less than den
      x == LongDiv(n, nd, den \o <<0>>, WordOfBits(SubSeq(n, 1, nd - 1), Len(den) + 1), <<>>)
  IN <<Bits0(x.q \o <<Bool(~x.exact)>>), k - kd - more - 1>>
MagBits(w) == Bits0(BitsOf(MagnitudeOf(w, TRUE)))
(* a signed word as a double: its bits after rounding *)
AsDouble(w) == RoundBits(MagBits(w), 0, 53)
DoubleBits(neg, b, k) == EncodeF(Bool(neg), b, k, 52, 11)
RECURSIVE DivAll(_, _, _)
DivAll(w, fs, sticky) == IF fs = <<>> THEN <<w, sticky>> ELSE LET q == DivSmall(w, fs[1]) IN DivAll(q[1], Tail(fs), sticky \/ q[2] # 0)
Totals(t) ==
  LET a == AsDouble(t)  w == Zero(14) \o WordOfBits(IntPart(a[1], a[2]), 9) IN
  IF a[1] = <<>> THEN Rep(Zero(8), 5)
  ELSE Eager([u \in 1..5 |-> LET q == DivAll(w, UnitTicks[u], FALSE)
                              IN DoubleBits(Negative(t), BitsOf(q[1]) \o <<Bool(q[2])>>, -113)])
MaxMsDouble(neg) == DoubleBits(neg, Bits0(BitsOf(MaxMs)), 0)
(* two doubles of the same sign at most two steps apart *)
Steps2(w) == w[1] <= 2 /\ \A i \in 2..8 : w[i] = 0
Near(a, b) == Len(b) = 8 /\ (\A i \in 1..8 : b[i] \in 0..255) /\ Negative(a) = Negative(b) /\ (Steps2(Sub(a, b)) \/ Steps2(Sub(b, a)))
(* rounded to an integer, ties to even: a 9-byte word or Huge *)
NearestInt(b, k) ==
  IF b = <<>> \/ Len(b) + k < 0 THEN Zero(9)
  ELSE IF k >= 0 THEN IntWord(b, k, 9)
  ELSE IF Len(b) + k > 70 THEN Huge
  ELSE LET i == IntPart(b, k)  f == FracPart(b, k)
           up == f[1] = 1 /\ ((\E j \in 2..Len(f) : f[j] = 1) \/ (i # <<>> /\ i[Len(i)] = 1))
           w == WordOfBits(i, 9)
       IN IF up THEN Add(w, ToWord(1, 9)) ELSE w
Rounded53(b, k) == RoundBits(b, k, 53)
(* product of two words of 8 bytes *)
RECURSIVE MulWords(_, _, _, _)
MulWords(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE MulWords(a, b, i + 1, Add(acc, SubSeq(Zero(i - 1) \o MulSmall(a, b[i]) \o Zero(Len(acc)), 1, Len(acc))))
Times128(a, b) == MulWords(a \o Zero(8), b, 1, Zero(16))
Multiply(st, f) ==
  IF IsNaNW(13, f) THEN Fail(st, "Argument")
  ELSE IF IsInf(13, f) THEN Fail(st, "Overflow")
  ELSE LET neg == Negative(f) # Negative(st.t)  a == AsDouble(st.t)
           p == Bits0(BitsOf(Times128(WordOfBits(a[1], 8), SigWord(f))))  kp == a[2] + LastWeight(13, f)
           r == Rounded53(p, kp)
           e == Bits0(BitsOf(Times128(MagnitudeOf(st.t, TRUE), SigWord(f))))
       IN Signed(st, neg, NearestInt(r[1], r[2])) \cup Signed(st, neg, NearestInt(e, LastWeight(13, f)))
Divide(st, f) ==
  IF IsNaNW(13, f) THEN Fail(st, "Argument")
  ELSE IF IsInf(13, f) THEN Span(st, Zero(8))
  ELSE IF IsZero(Magn(f)) THEN Fail(st, "Overflow")
  ELSE IF IsZero(st.t) THEN Span(st, Zero(8))
  ELSE LET neg == Negative(f) # Negative(st.t)  a == AsDouble(st.t)
           p == Quotient(a[1], a[2], SigWord(f), LastWeight(13, f))
           r == Rounded53(p[1], p[2])
           e == Quotient(MagBits(st.t), 0, SigWord(f), LastWeight(13, f))
       IN Signed(st, neg, NearestInt(r[1], r[2])) \cup Signed(st, neg, NearestInt(e[1], e[2]))
(* what t / other may be as a double *)
RatioOk(t, o, r) ==
  IF IsZero(o) THEN IF IsZero(t) THEN Len(r) = 8 /\ IsNaNW(13, r)
                    ELSE r = DoubleBits(Negative(t), <<1>>, 1024)
  ELSE IF IsZero(t) THEN r \in {Zero(8), Lowest}
  ELSE LET q == Quotient(MagBits(t), 0, MagnitudeOf(o, TRUE), 0) IN Near(DoubleBits(Negative(t) # Negative(o), q[1], q[2]), r)
TotalsOk(t, r) ==
  LET x == Totals(t) IN
  /\ Len(r) = 5
  /\ \A u \in 1..5 : \/ Near(x[u], r[u]) \/ (IsZero(t) /\ r[u] = Zero(8))
                     \/ u = 1 /\ r[1] = MaxMsDouble(Negative(t)) /\ CmpU(Magn(x[1]), Magn(r[1])) >= 0

------------------------------------------------------------------------------
(* text *)
RECURSIVE DecimalOf(_)
DecimalOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecimalOf(n \div 10) \o <<48 + (n % 10)>>
Padded(n, width) == LET d == DecimalOf(n) IN Rep(48, width - Len(d)) \o d
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Colon == <<58>>
SpanText(t) ==
  LET p == Split(MagnitudeOf(t, TRUE))  f == p.ms * 10000 + p.ticks IN
  (IF Negative(t) THEN <<45>> ELSE <<>>) \o (IF p.days = 0 THEN <<>> ELSE DecimalOf(p.days) \o <<46>>)
  \o Two(p.h) \o Colon \o Two(p.mi) \o Colon \o Two(p.s) \o (IF f = 0 THEN <<>> ELSE <<46>> \o Padded(f, 7))
DateText(d) ==
  LET p == Split(d)  c == DateOf(p.days) IN
  DecimalOf(c[2]) \o <<47>> \o DecimalOf(c[3]) \o <<47>> \o DecimalOf(c[1]) \o <<32>>
  \o DecimalOf(IF p.h > 12 THEN p.h - 12 ELSE p.h) \o Colon \o Two(p.mi) \o Colon \o Two(p.s)
  \o <<32>> \o (IF p.h >= 12 THEN <<80>> ELSE <<65>>) \o <<77>>

Blank(c) == c \in {9, 10, 11, 12, 13, 32}
Strip(s) == LET k == {i \in 1..Len(s) : ~Blank(s[i])} IN
            IF k = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : i >= j)
Numeral(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] >= 48 /\ s[i] <= 57
(* value of a numeral, at most cap + 1 *)
RECURSIVE ValueUpTo(_, _, _, _)
ValueUpTo(s, i, acc, cap) == IF i > Len(s) THEN acc ELSE IF acc > cap THEN cap + 1 ELSE ValueUpTo(s, i + 1, acc * 10 + s[i] - 48, cap)
NumberAt(s, cap) == IF Numeral(s) THEN Min2(ValueUpTo(s, 1, 0, cap), cap + 1) ELSE cap + 1
(* fields between separators *)
RECURSIVE Fields(_, _, _)
Fields(s, sep, cur) == IF s = <<>> THEN <<cur>> ELSE IF s[1] = sep THEN <<cur>> \o Fields(Tail(s), sep, <<>>) ELSE Fields(Tail(s), sep, Append(cur, s[1]))
MaxDays == 10675199
Bad == <<-1>>
Clock(days, h, mi, s, frac) ==                \* texts; frac is a numeral or empty
  IF NumberAt(days, MaxDays) > MaxDays \/ NumberAt(h, 23) > 23 \/ NumberAt(mi, 59) > 59 \/ NumberAt(s, 59) > 59
     \/ ~(frac = <<>> \/ (Numeral(frac) /\ Len(frac) <= 7)) THEN Bad
  ELSE LET f == SubSeq(frac \o Rep(48, 7), 1, 7)
       IN Add(Add(DayTicks(NumberAt(days, MaxDays)), Weighted(NumberAt(h, 23), UnitTicks[4])),
              Add(Add(Weighted(NumberAt(mi, 59), UnitTicks[3]), Weighted(NumberAt(s, 59), UnitTicks[2])), ToWord(ValueUpTo(f, 1, 0, 9999999), 8)))
Naught == <<48>>
(* seconds with an optional fraction *)
Sec(s) == LET p == Fields(s, 46, <<>>) IN IF Len(p) = 1 THEN <<p[1], <<>>>> ELSE IF Len(p) = 2 /\ p[2] # <<>> THEN <<p[1], p[2]>> ELSE <<<<>>, <<>>>>
(* days.hours *)
Dotted(s) == LET p == Fields(s, 46, <<>>) IN IF Len(p) = 1 THEN <<Naught, p[1]>> ELSE IF Len(p) = 2 THEN <<p[1], p[2]>> ELSE <<<<>>, <<>>>>
Magnitude(s) ==
  LET f == Fields(s, 58, <<>>)  a == Dotted(f[1]) IN
  CASE Len(f) = 1 -> Clock(s, Naught, Naught, Naught, <<>>)
    [] Len(f) = 2 -> Clock(a[1], a[2], f[2], Naught, <<>>)
    [] Len(f) = 3 -> Clock(a[1], a[2], f[2], Sec(f[3])[1], Sec(f[3])[2])
    [] Len(f) = 4 -> Clock(f[1], f[2], f[3], Sec(f[4])[1], Sec(f[4])[2])
    [] OTHER -> Bad
ReadSpan(s) ==
  LET u == Strip(s)  neg == u # <<>> /\ u[1] = 45  m == Magnitude(IF neg THEN Tail(u) ELSE u) IN
  IF m = Bad THEN Bad
  ELSE IF CmpU(m, Lowest) > 0 \/ (m = Lowest /\ ~neg) THEN Bad
  ELSE IF neg THEN Neg(m) ELSE m
ParseSpan(st) ==
  IF st.x = Null THEN Fail(st, "ArgumentNull")
  ELSE LET v == ReadSpan(st.x) IN IF v = Bad THEN Fail(st, "Format") ELSE Span(st, v)
TryParse(st) ==
  LET v == IF st.x = Null THEN Bad ELSE ReadSpan(st.x) IN
  { [st |-> [st EXCEPT !.t = IF v = Bad THEN Zero(8) ELSE v], r |-> Ok(<<<<Bool(v # Bad)>>>>)] }

------------------------------------------------------------------------------
(* time zones *)
North == 10001                     \* EST5EDT, second Sunday of March to first Sunday of November, at 2:00
South == 10002                     \* AEST-10AEDT, first Sunday of October at 2:00 to first Sunday of April at 3:00
Offset(z, d) == Weighted(z, UnitTicks[3])                                  \* zones without daylight saving only
Clamp(w) == IF Negative(w) THEN Zero(8) ELSE IF CmpU(Low8(w), MaxTicks) > 0 THEN MaxTicks ELSE Low8(w)
ToLocal(st, strict) ==
  LET w == Sum(st.d, Offset(st.z, st.d)) IN
  IF strict /\ ~InRange(Low8(w)) THEN Fail(st, "Argument") ELSE Set(st, Clamp(w))
ToUniversal(st) == Set(st, Clamp(Diff(st.d, Offset(st.z, st.d))))
NthSunday(y, m, n) == LET first == DayNumber(y, m, 1) IN first + ((7 - WeekDay(first)) % 7) + 7 * (n - 1)
(* is daylight saving in force at the local hour h of day n: 0, 1, or 2 for an hour that is skipped or repeated *)
DaylightAt(z, y, n, h) ==
  IF z < 10000 THEN 0
  ELSE LET on == IF z = North THEN NthSunday(y, 3, 2) ELSE NthSunday(y, 10, 1)
           off == IF z = North THEN NthSunday(y, 11, 1) ELSE NthSunday(y, 4, 1)
           offHour == IF z = North THEN 2 ELSE 3
           past(day, hour) == n > day \/ (n = day /\ h >= hour)
       IN IF n = on /\ h = 2 THEN 2
          ELSE IF n = off /\ h = offHour - 1 THEN 2
          ELSE IF z = North THEN Bool(past(on, 2) /\ ~past(off, offHour))
          ELSE Bool(past(on, 2) \/ ~past(off, offHour))
IsDst(st) ==
  LET p == Split(st.d)  y == YearOf(p.days)  v == DaylightAt(st.z, y, p.days, p.h) IN
  IF y < 1971 /\ st.z > 10000 THEN {} ELSE IF v = 2 THEN Give(st, <<<<0>>>>) \cup Give(st, <<<<1>>>>) ELSE Give(st, <<<<v>>>>)
(* the clock: read by the driver before and after, as universal ticks; the library shows whole milliseconds *)
WholeMs(w) == MulAll(DivSmall(w, 10000)[1], TicksPerMs)
Between(a, w, b) == CmpS(WholeMs(a), w) <= 0 /\ CmpS(w, b) <= 0
DateOnly(w) == DayTicks(Split(w).days)
NowOk(z, v) ==
  /\ Len(v) = 5 /\ \A i \in 1..5 : Len(v[i]) = 8
  /\ LET off == Offset(z, v[1])  lo == Add(v[1], off)  hi == Add(v[5], off) IN
     /\ Between(v[1], v[2], v[5])                     \* UtcNow
     /\ Between(lo, v[3], hi)                         \* Now
     /\ v[4] \in {DateOnly(lo), DateOnly(hi)}         \* Today

------------------------------------------------------------------------------
TimeSteps(op, st, a) ==
  CASE op = "ticks"      -> Set(st, a[1])
    [] op = "date"       -> FromParts(st, a[1])
    [] op = "parts"      -> Parts(st)
    [] op = "leap"       -> IF YearOk(a[1][1]) THEN Give(st, <<<<Bool(Leap(a[1][1]))>>>>) ELSE Fail(st, "ArgumentOutOfRange")
    [] op = "daysIn"     -> IF YearOk(a[1][1]) /\ MonthOk(a[1][2]) THEN Give(st, <<<<MonthLength(a[1][1], a[1][2])>>>>)
                            ELSE Fail(st, "ArgumentOutOfRange")
    [] op = "month"      -> Give(st, MonthTable(a[1][1], a[1][2]))
    [] op = "limits"     -> Give(st, <<Zero(8), MaxTicks, Lowest, Highest, Zero(8), Zero(8), Zero(8)>>)
    [] op = "addTicks"   -> Moved(st, Sum(st.d, a[1]))
    [] op = "addSpan"    -> Moved(st, Sum(st.d, st.t))
    [] op = "subSpan"    -> Moved(st, Diff(st.d, st.t))
    [] op = "addUnit"    -> AddUnit(st, a[1][1], a[2])
    [] op = "addMonths"  -> AddMonths(st, a[1][1])
    [] op = "addYears"   -> AddYears(st, a[1][1])
    [] op = "diff"       -> Span(st, Sub(st.d, a[2]))
    [] op = "cmpDate"    -> Give(st, Comparisons(CmpU(st.d, a[1])))
    [] op = "dateText"   -> { [st |-> [st EXCEPT !.x = DateText(st.d)], r |-> Ok(<<>>)] }
    [] op = "span"       -> Span(st, a[1])
    [] op = "span3"      -> FromHms(st, a[1])
    [] op = "span5"      -> FromDhms(st, a[1])
    [] op = "fromUnit"   -> FromUnit(st, a[1][1], a[2])
    [] op = "spanParts"  -> SpanParts(st)
    [] op = "neg"        -> IF st.t = Lowest THEN Fail(st, "Overflow") ELSE Span(st, Neg(st.t))
    [] op = "plus"       -> Span(st, st.t)
    [] op = "abs"        -> IF st.t = Lowest THEN Fail(st, "Overflow") ELSE Span(st, MagnitudeOf(st.t, TRUE))
    [] op = "addT"       -> LET w == Sum(st.t, a[2]) IN IF Fits64(w) THEN Span(st, Low8(w)) ELSE Fail(st, "Overflow")
    [] op = "subT"       -> LET w == Diff(st.t, a[2]) IN IF Fits64(w) THEN Span(st, Low8(w)) ELSE Fail(st, "Overflow")
    [] op = "cmpSpan"    -> Give(st, Comparisons(CmpS(st.t, a[1])))
    [] op = "mul"        -> Multiply(st, a[2])
    [] op = "div"        -> Divide(st, a[2])
    [] op = "spanText"   -> { [st |-> [st EXCEPT !.x = SpanText(st.t)], r |-> Ok(<<>>)] }
    [] op = "text"       -> { [st |-> [st EXCEPT !.x = a[1]], r |-> Ok(<<>>)] }
    [] op = "append"     -> { [st |-> [st EXCEPT !.x = @ \o a[1]], r |-> Ok(<<>>)] }
    [] op = "parse"      -> ParseSpan(st)
    [] op = "tryParse"   -> TryParse(st)
    [] op = "zone"       -> { [st |-> [st EXCEPT !.z = a[1][1]], r |-> Ok(<<>>)] }
    [] op = "toLocal"    -> ToLocal(st, a[1][1] = 2)
    [] op = "toUniversal"-> ToUniversal(st)
    [] op = "isDst"      -> IsDst(st)
    [] OTHER -> {}
Observe(st) == <<st.d, st.t, st.x, <<st.z>>>>
TimeApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in TimeSteps(op, st, a) }
(* three operations have results that are described, not computed *)
Described(op, st, a, v) ==
  CASE op = "totals" -> TotalsOk(st.t, v)
    [] op = "ratio"  -> Len(v) = 1 /\ RatioOk(st.t, a[2], v[1])
    [] op = "now"    -> NowOk(st.z, v)
    [] OTHER -> FALSE
TimeExplain(st, e) ==
  IF e.op \in {"totals", "ratio", "now"}
  THEN IF e.r.k = "ok" /\ e.s = Observe(st) /\ Described(e.op, st, e.a, e.r.v) THEN {st} ELSE {}
  ELSE Explained(TimeApply(e.op, st, e.a), e)
=============================================================================
