------------------------------- MODULE Faults -------------------------------
(* Exceptions: what they carry, who catches them, what unwinding does to them, and what the library's failures are
   reported with.  The state: the sequence x of exceptions made so far, each [c |-> class, m |-> message,
   i |-> index of its inner exception or 0], and the message d[c] a class gives itself once that has been seen (the
   wording is left open).  An exception never changes after it has been made.                                        *)
EXTENDS Events

Top == 0                                             \* Exception
Index == 1
Argument == 2
ArgNull == 3
Rank == 4
ArgRange == 5
NotDone == 6
Cast == 7
Operation == 8
Format == 9
Arithmetic == 10
Overflow == 11
MinMax == 12
ByZero == 13
User == 14                                           \* a program's own class, derived from Exception
UserArgument == 15                                   \* ... and from the class for bad arguments
Classes == 0..15
Parent(c) == CASE c \in {ArgNull, ArgRange, MinMax, UserArgument} -> Argument
               [] c \in {Overflow, ByZero} -> Arithmetic
               [] OTHER -> Top
RECURSIVE Is(_, _)
Is(c, h) == c = h \/ (c # Top /\ Is(Parent(c), h))

(* what the failure of an operation of the library is reported with: a handler for this class catches it (the
   operations are those of driver/faults.cpp, in the same order)                                                     *)
Provoked == <<
  Index, Index, Index, Index, Index, Index, Index, Index, Index, Index,
  Index, Index, Index, Index, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull,
  ArgNull, ArgNull, Rank, Rank, Rank, Argument, Argument, Argument, Argument, ArgRange,
  ArgRange, ArgRange, Overflow, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull,
  ArgNull, ArgNull, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange,
  Argument, Argument, Argument, Argument, Argument, Argument, Argument, Argument, Argument, Format,
  ArgNull, Format, ArgNull, Format, ArgNull, Format, ArgNull, Format, ArgNull, Format,
  ArgNull, Format, ArgNull, Format, ArgNull, Format, ArgNull, Format, ArgNull, Format,
  ArgNull, Format, Overflow, Overflow, Overflow, Overflow, Overflow, Overflow, Overflow, Overflow,
  ArgNull, Format, Cast, Cast, Cast, Cast, Cast, Cast, Cast, Argument,
  Argument, Argument, Argument, Argument, ByZero, ByZero, Arithmetic, Arithmetic, Arithmetic, Argument,
  Argument, Argument, Argument, Argument, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange,
  ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange,
  Overflow, Overflow, Overflow, Overflow, Overflow, Overflow, Argument, Argument, Argument, ArgRange,
  ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange, ArgRange,
  ArgRange, ArgRange, ArgRange, ArgRange, Index, Index, ArgNull, ArgNull, ArgNull, ArgNull,
  ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, ArgNull, Argument, Argument, Argument,
  Argument, Argument, Index, Argument, Argument, Argument, Argument, Argument, Argument, Argument,
  Argument, Argument, Argument, Argument, Argument, Argument, Argument, Argument, Argument, Operation,
  Operation, ArgNull, ArgNull, ArgNull, ArgRange, ArgRange, ArgRange >>

FaultInit == [x |-> <<>>, d |-> [c \in Classes |-> Null]]
RECURSIVE Base(_, _)
Base(x, i) == IF x[i].i = 0 THEN i ELSE Base(x, x[i].i)
Seen(x, i) == <<x[i].c, x[i].i, Base(x, i)>>
Observe(st) == [k \in 1..2 * Len(st.x) |-> IF k % 2 = 1 THEN Seen(st.x, (k + 1) \div 2) ELSE st.x[k \div 2].m]
Make(st, c, m, i) == [st EXCEPT !.x = Append(@, [c |-> c, m |-> m, i |-> i])]

(* unwinding through frames <<h, what>>, innermost first: a frame catches what is of class h and then swallows it (0),
   throws it again (1) or throws a new exception around it (2)                                                        *)
Around == <<119>>
RECURSIVE Unwind(_, _, _, _)
Unwind(st, f, n, cur) ==
  IF 2 * n > Len(f) THEN [st |-> st, at |-> 0, cur |-> cur]
  ELSE IF ~Is(st.x[cur].c, f[2 * n - 1]) THEN Unwind(st, f, n + 1, cur)
  ELSE CASE f[2 * n] = 0 -> [st |-> st, at |-> n, cur |-> cur]
         [] f[2 * n] = 1 -> Unwind(st, f, n + 1, cur)
         [] f[2 * n] = 2 -> Unwind(Make(st, Top, Around, cur), f, n + 1, Len(st.x) + 1)

(* steps whose message the specification knows *)
FaultSteps(op, st, a) ==
  CASE op = "say"    -> { [st |-> Make(st, a[1][1], a[2], 0), r |-> Ok(<<>>)] }
    [] op = "wrap"   -> { [st |-> Make(st, a[1][1], a[2], a[1][2]), r |-> Ok(<<>>)] }
    [] op = "caught" -> { [st |-> st, r |-> Ok(<<[h \in 1..16 |-> Bool(Is(st.x[a[1][1]].c, h - 1))]>>)] }
    [] op = "unwind" -> { LET u == Unwind(st, a[2], 1, a[1][1]) IN [st |-> u.st, r |-> Ok(<<<<u.at, u.cur>>>>)] }
    [] OTHER -> {}
FaultApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in FaultSteps(op, st, a) }
(* steps that add an exception of class c, whose message m is open (but is the same for every new one of a class) *)
Added(st, op, c, m) == LET n == Make(st, c, m, 0) IN IF op = "make" THEN [n EXCEPT !.d[c] = m] ELSE n
Acceptable(st, op, a, c, m) ==
  IF op = "make" THEN c = a[1][1] /\ st.d[c] \in {Null, m} /\ m # <<>> /\ (m = Null => c \in {Top, User})
  ELSE Is(c, Provoked[a[1][1]]) /\ m # <<>> /\ m # Null
FaultExplain(st, e) ==
  IF e.op \in {"make", "provoke"} THEN
    IF e.r = Ok(<<>>) /\ Len(e.s) = 2 * Len(st.x) + 2
    THEN LET m == e.s[Len(e.s)]
             c == e.s[Len(e.s) - 1][1]
             n == Added(st, e.op, c, m) IN
         IF c \in Classes /\ Acceptable(st, e.op, e.a, c, m) /\ e.s = Observe(n) THEN { n } ELSE {}
    ELSE {}
  ELSE Explained(FaultApply(e.op, st, e.a), e)
=============================================================================
