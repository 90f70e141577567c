------------------------------ MODULE TimesMC ------------------------------
EXTENDS Times, MCEmit
CONSTANTS Family,                            \* which part of the interface is explored
          Dates, Spans, Doubles, Counts,     \* words, words, words, 32-bit numbers
          Records, Years,                    \* component lists, years
          Alphabet, MaxLen, Starts, Zones
VARIABLE st
Init == st = TimeInit /\ EmitInit(st)
Do(op, a) == \E o \in TimeApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Ask(op, a) == st' = st /\ Emit(st, op, a, [st |-> st])            \* an operation whose result is described
NoDate == IsZero(st.d)   NoSpan == IsZero(st.t)
PickSpan == NoDate /\ NoSpan /\ \E w \in Spans : Do("span", <<w>>)
PickDate == NoDate /\ \E w \in Dates : Do("ticks", <<w>>)
Fresh == (NoDate \/ st.d \in Dates) /\ (NoSpan \/ st.t \in Spans)
How == 0..1
CalendarNext ==
  \/ PickDate
  \/ Do("parts", <<>>)
  \/ NoDate /\ \E r \in Records : Do("date", <<r>>)
  \/ NoDate /\ \E y \in Years : Do("leap", <<<<y>>>>) \/ \E m \in 0..13 : Do("daysIn", <<<<y, m>>>>)
  \/ NoDate /\ Do("limits", <<>>)
DateNext ==
  \/ NoDate /\ PickSpan
  \/ PickDate
  \/ Fresh /\ \E h \in How : Do("addSpan", <<<<h>>>>) \/ Do("subSpan", <<<<h>>>>)
  \/ Fresh /\ NoSpan /\ \/ \E w \in Spans : Do("addTicks", <<w>>)
                        \/ \E u \in 0..4, f \in Doubles : Do("addUnit", <<<<u>>, f>>)
                        \/ \E k \in Counts : Do("addMonths", <<<<k>>>>) \/ Do("addYears", <<<<k>>>>)
                        \/ \E w \in Dates : Do("cmpDate", <<w>>) \/ \E h \in How : Do("diff", <<<<h>>, w>>)
                        \/ Do("parts", <<>>)
SpanNext ==
  \/ PickSpan
  \/ NoSpan /\ \/ \E r \in Records : Do("span3", <<SubSeq(r, 1, 3)>>) \/ Do("span5", <<r>>)
               \/ \E u \in 0..4, f \in Doubles : Do("fromUnit", <<<<u>>, f>>)
  \/ Fresh /\ \/ Do("spanParts", <<>>) \/ Ask("totals", <<>>) \/ Do("plus", <<>>) \/ Do("abs", <<>>)
              \/ \E h \in How : Do("neg", <<<<h>>>>)
              \/ \E w \in Spans, h \in How : Do("addT", <<<<h>>, w>>) \/ Do("subT", <<<<h>>, w>>) \/ Ask("ratio", <<<<h>>, w>>)
              \/ \E w \in Spans : Do("cmpSpan", <<w>>)
              \/ \E f \in Doubles : Do("mul", <<<<2>>, f>>) \/ Do("div", <<<<1>>, f>>)
TextNext ==
  \/ st.x = <<>> /\ NoDate /\ NoSpan /\ \E s \in Starts \cup {Null} : Do("text", <<s>>)
  \/ st.x = <<>> /\ NoDate /\ (PickSpan \/ PickDate)
  \/ st.x = <<>> /\ ~NoSpan /\ Do("spanText", <<>>)
  \/ st.x = <<>> /\ ~NoDate /\ Do("dateText", <<>>)
  \/ st.x # Null /\ NoDate /\ NoSpan /\ (st.x = <<>> => Starts = {}) /\ Len(st.x) < MaxLen /\ \E c \in Alphabet : Do("append", <<<<c>>>>)
  \/ NoDate /\ (Do("parse", <<>>) \/ Do("tryParse", <<>>))
ZoneNext ==
  \/ NoDate /\ st.z = 0 /\ \E z \in Zones : Do("zone", <<<<z>>>>)
  \/ PickDate
  \/ Fresh /\ st.z < 10000 /\ ((\E h \in 0..2 : Do("toLocal", <<<<h>>>>)) \/ Do("toUniversal", <<>>) \/ Ask("now", <<>>))
  \/ Fresh /\ Do("isDst", <<>>)
Next == CASE Family = "calendar" -> CalendarNext [] Family = "dates" -> DateNext [] Family = "spans" -> SpanNext
          [] Family = "text" -> TextNext [] Family = "zones" -> ZoneNext
Spec == Init /\ [][Next]_st

(* laws *)
Result(op, s, a) == { o.st : o \in TimeSteps(op, s, a) }
PartsRecombine ==                                  \* a date is what its components say
  LET p == Split(st.d)  c == DateOf(p.days) IN
  /\ ValidDate(c[1], c[2], c[3]) /\ DayNumber(c[1], c[2], c[3]) = p.days
  /\ Add(DateTicks(c[1], c[2], c[3], p.h, p.mi, p.s, p.ms), ToWord(p.ticks, 8)) = st.d
Ordered == \A w \in Dates : CmpU(st.d, w) < 0 => Split(st.d).days <= Split(w).days
DateInRange == InRange(st.d)
ThereAndBack == LET w == Sum(st.d, st.t) IN (Fits64(w) /\ InRange(Low8(w))) => Diff(Low8(w), st.t) = Low8(st.d) \o <<0>>
MonthsUndo == \A k \in Counts : (k >= -120000 /\ k <= 120000) => \A o \in MonthShift(st, k) : o.r.k = "ok" =>
   LET day == DateOf(Split(st.d).days)[3]  new == DateOf(Split(o.st.d).days)[3] IN
   new <= day /\ (day <= 28 => new = day /\ \A b \in MonthShift(o.st, -k) : b.st.d = st.d)
SpanTextFaithful == ReadSpan(SpanText(st.t)) = st.t
Trying == (st.x # Null) => \A p \in ParseSpan(st), q \in TryParse(st) :
   (p.r.k = "ok") = (q.r.v = <<<<1>>>>) /\ (p.r.k = "ok" => p.st.t = q.st.t)
MinusNegates == (st.x # Null /\ Strip(st.x) # <<>> /\ Strip(st.x)[1] # 45) =>
   LET v == ReadSpan(st.x) IN v # Bad => ReadSpan(<<45>> \o Strip(st.x)) = Neg(v)
ZoneUndone == (st.z < 10000) => LET w == Sum(st.d, Offset(st.z, st.d)) IN
   InRange(Low8(w)) => Diff(Low8(w), Offset(st.z, st.d)) = st.d \o <<0>>
NegateTwice == \A h \in How : st.t # Lowest => Neg(Neg(st.t)) = st.t
TotalsSane == LET x == Totals(st.t) IN \A u \in 1..5 : IsZero(st.t) \/ Negative(x[u]) = Negative(st.t)
ASSUME YearLengths == \A y \in 1..9999 : YearStart(y + 1) - YearStart(y) = (IF Leap(y) THEN 366 ELSE 365)
                                         /\ MonthStart(y, 12) + 31 = YearStart(y + 1) - YearStart(y)
ASSUME Extent == DayNumber(9999, 12, 31) = LastDay /\ Add(Sub(DayTicks(LastDay), ToWord(1, 8)), DayTicks(1)) = MaxTicks
ASSUME Inverse == \A y \in Years : YearOk(y) => \A m \in 1..12 : \A d \in {1, 28, MonthLength(y, m)} :
                    LET c == DateOf(DayNumber(y, m, d)) IN <<c[1], c[2], c[3]>> = <<y, m, d>>
ASSUME Epoch == DayNumber(1970, 1, 1) = 719162 /\ WeekDay(719162) = 4 /\ DayNumber(2000, 2, 29) = 730178
=============================================================================
