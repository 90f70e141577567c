------------------------------ MODULE FaultsMC ------------------------------
EXTENDS Faults, MCEmit
CONSTANTS Made, Said, Failing, Messages, Frames, MaxLen
VARIABLE st
Init == st = FaultInit /\ EmitInit(st)
Do(op, a) == \E o \in FaultApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
New(op, a, c) == LET o == [st |-> Added(st, op, c, <<63>>)] IN st' = o.st /\ Emit(st, op, a, o)
Room == Len(st.x) < MaxLen
MakeA    == Room /\ \E c \in Made : New("make", <<<<c>>>>, c)
ProvokeA == Room /\ \E k \in Failing : New("provoke", <<<<k, 0>>>>, Provoked[k])
SayA     == Room /\ \E c \in Said : \E m \in Messages : Do("say", <<<<c>>, m>>)
WrapA    == Room /\ \E c \in Said : \E m \in Messages : \E i \in 0..Len(st.x) : Do("wrap", <<<<c, i>>, m>>)
CaughtA  == \E i \in 1..Len(st.x) : Do("caught", <<<<i>>>>)
UnwindA  == Room /\ \E i \in 1..Len(st.x) : \E f \in Frames : Do("unwind", <<<<i>>, f>>)
Next == MakeA \/ ProvokeA \/ SayA \/ WrapA \/ CaughtA \/ UnwindA
Spec == Init /\ [][Next]_st

X == 1..Len(st.x)
(* the base of an exception is without an inner one, is its own base, and is the base of everything in the chain *)
Innermost == \A i \in X : LET b == Base(st.x, i) IN
  /\ st.x[b].i = 0 /\ Base(st.x, b) = b /\ (st.x[i].i # 0 => Base(st.x, st.x[i].i) = b)
Older == \A i \in X : st.x[i].i < i
(* a handler for everything catches everything, one for a class catches that class, and a class caught by one handler
   is caught by every handler that catches the handler's class                                                         *)
Hierarchy == \A c, h \in Classes :
  /\ Is(c, Top) /\ Is(c, c)
  /\ (Is(c, h) /\ Is(h, c)) => c = h
  /\ \A g \in Classes : (Is(c, h) /\ Is(h, g)) => Is(c, g)
(* exceptions do not change, and unwinding keeps the first cause: whatever comes out has the same base as what went in *)
Unchanging == [][Len(st'.x) >= Len(st.x) /\ SubSeq(st'.x, 1, Len(st.x)) = st.x]_st
Cause == \A i \in X : \A f \in Frames :
  LET u == Unwind(st, f, 1, i) IN
    /\ Base(u.st.x, u.cur) = Base(st.x, i)
    /\ u.at = 0 \/ (f[2 * u.at] = 0 /\ Is(u.st.x[u.cur].c, f[2 * u.at - 1]))
=============================================================================
