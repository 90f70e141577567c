------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar by its definition: the year's length from the leap rule, a date's day number by
   adding up whole years and months, and the date of a day number as the only one with that number.                *)
EXTENDS Integers, Sequences

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLength(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                       [] m \in {4, 6, 9, 11} -> 30
                       [] OTHER -> 31
LeapsBefore(y) == (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400      \* leap years among 1 .. y-1
YearStart(y) == 365 * (y - 1) + LeapsBefore(y)                          \* day number of January 1st; day 0 is 0001-01-01
RECURSIVE MonthStart(_, _)
MonthStart(y, m) == IF m = 1 THEN 0 ELSE MonthStart(y, m - 1) + MonthLength(y, m - 1)
DayNumber(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1
ValidDate(y, m, d) == y >= 1 /\ y <= 9999 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= MonthLength(y, m)
LastDay == 3652058
YearOf(n) == LET guess == n \div 366 + 1
             IN CHOOSE y \in guess..(guess + 30) : YearStart(y) <= n /\ n < YearStart(y + 1)
MonthOf(y, doy) == CHOOSE m \in 1..12 : MonthStart(y, m) < doy /\ doy <= MonthStart(y, m) + MonthLength(y, m)
(* <<year, month, day, day of the year>> of a day number *)
DateOf(n) == LET y == YearOf(n)  doy == n - YearStart(y) + 1  m == MonthOf(y, doy)
             IN <<y, m, doy - MonthStart(y, m), doy>>
WeekDay(n) == (n + 1) % 7                                               \* 0001-01-01 was a Monday
=============================================================================
