-------------------------------- MODULE Host --------------------------------
(* The host side of a translated program: TranslatorSupport.Run gives RunCode a fresh memory pool, stops at the first
   exception, reports its message as the last line of output and returns normally; platform data exposed through
   DataAccess is shared, not copied, and survives from one run to the next.
   A program is a sequence of instructions:
     <<0>> \o text   Send(text)              <<1, n>>     allocate n bytes (result: offset or -1)
     <<2, 0>> \o msg throw Exception(msg)    <<2, k>>     throw exception class k
     <<3>>           Send(null)              <<4, i, v>>  ArrayData[i] = v
     <<5, i>>        read ArrayData[i]       <<6, i>>     read ArrayData[i] through a checked access, i may be outside
     <<7>>           shape of ArrayData      <<8, i>>     read ArrayData[i] through a wrapper made and deleted before
     <<9>>           the platform's double, as its eight bytes
   and it computes, in the memory of its run, with a text t, an array of numbers x and a string builder b:
     <<10, v>>       t := text of v           <<11, c>>     t := text of a Boolean    <<12>> \o u   t := t + u
     <<13, i, n>>    t := part of t           <<14>>        Send(t)                   <<15, n>>     x := n zeros
     <<16, i, v>>    x[i] := v (boxed)        <<17, i>>     t := text of x[i]         <<18>>        b := empty
     <<19>> \o u     append u to b            <<20, i, n>>  remove from b             <<21>>        t := text of b
     <<22, c>>       t to lower, upper case   <<23, k>>     throw a new exception of class k
     <<24>>          t := text of the number t says         <<28>>        ... of the Boolean t says
     <<25, n>>       t := text of a span of n seconds       <<35, n>>     t := text of the date n days after 1/1/1
     <<26, c>>       t := the character c     <<27>>        t := ""                   <<29, i>>     insert t into b
     <<30, v>>       append number v to b     <<31>>        t := t trimmed            <<32, n>>     t := t padded to n
     <<33, n>>       t := text of n + 1/2     <<34>>        t := the characters of t, enumerated and joined again
   where the library refuses, the program ends with some message of the library's.                                  *)
EXTENDS Pool, SequencesExt
LOCAL Hp == INSTANCE StrHeap WITH NS <- 1, NA <- 1
LOCAL Nm == INSTANCE Numbers
LOCAL Tm == INSTANCE Times

CONSTANT OutsideKind          \* exception class thrown by an access outside an array

HostInit == [data |-> <<1, 2, 3, 4>>, msgs |-> <<>>]     \* msgs: what the exceptions say, once known
DataLen == 4
DoubleData == <<0, 0, 0, 0, 0, 0, 22, 64>>      \* 5.5
Inside(i) == i \in 0..(DataLen - 1)

Start(st) == [pool |-> [ready |-> TRUE, blocks |-> <<>>], data |-> st.data, reads |-> <<>>, lines |-> <<>>,
              stopped |-> FALSE, good |-> TRUE, t |-> <<>>, x |-> <<>>, b |-> <<>>]
(* messages[k + 1] is the message of exception class k; offs are the offsets the run reported, in order *)
Message(ins, messages) == IF ins[2] = 0 THEN SubSeq(ins, 3, Len(ins)) ELSE messages[ins[2]]
Stop(m, line) == [m EXCEPT !.lines = Append(@, line), !.stopped = TRUE]
NumText(v) == Nm!TextOf(8, Tm!SToWord(v, 4))
HalfText(n) == LET d == IF n < 0 THEN -(n + 1) ELSE n IN (IF n < 0 THEN <<45>> ELSE <<>>) \o NumText(d) \o <<46, 53>>
(* the program is told t: a new text, or the library's refusal *)
Told(m, t, said) == IF t = Hp!No THEN [Stop(m, said) EXCEPT !.good = said # <<>>] ELSE [m EXCEPT !.t = t]
Built(m, t, said) == IF t = Hp!No THEN [Stop(m, said) EXCEPT !.good = said # <<>>] ELSE [m EXCEPT !.b = t]
SaidBy(t, type) == LET r == Nm!Read(type, t) IN IF r[1] = "ok" THEN Nm!TextOf(type, r[2]) ELSE Hp!No
Compute(m, ins, messages, said) ==
  LET u == Tail(ins) IN
  CASE ins[1] = 10 -> [m EXCEPT !.t = NumText(u[1])]
    [] ins[1] = 11 -> [m EXCEPT !.t = IF u[1] = 0 THEN Nm!FalseText ELSE Nm!TrueText]
    [] ins[1] = 12 -> [m EXCEPT !.t = @ \o u]
    [] ins[1] = 13 -> Told(m, Hp!Part(m.t, u[1], u[2]), said)
    [] ins[1] = 14 -> [m EXCEPT !.lines = Append(@, m.t)]
    [] ins[1] = 15 -> [m EXCEPT !.x = [i \in 1..u[1] |-> 0]]
    [] ins[1] = 16 -> IF u[1] \in 0..(Len(m.x) - 1) THEN [m EXCEPT !.x[u[1] + 1] = u[2]] ELSE Told(m, Hp!No, said)
    [] ins[1] = 17 -> Told(m, IF u[1] \in 0..(Len(m.x) - 1) THEN NumText(m.x[u[1] + 1]) ELSE Hp!No, said)
    [] ins[1] = 18 -> [m EXCEPT !.b = <<>>]
    [] ins[1] = 19 -> [m EXCEPT !.b = @ \o u]
    [] ins[1] = 20 -> Built(m, IF Hp!RangeOk(Len(m.b), u[1], u[2]) THEN Hp!RemoveAt(m.b, u[1], u[2]) ELSE Hp!No, said)
    [] ins[1] = 21 -> [m EXCEPT !.t = m.b]
    [] ins[1] = 22 -> [m EXCEPT !.t = [i \in 1..Len(@) |-> IF u[1] = 0 THEN Hp!Lower(@[i]) ELSE Hp!Upper(@[i])]]
    [] ins[1] = 23 -> Stop(m, messages[u[1]])
    [] ins[1] = 24 -> Told(m, SaidBy(m.t, 8), said)
    [] ins[1] = 28 -> Told(m, SaidBy(m.t, 2), said)
    [] ins[1] = 25 -> [m EXCEPT !.t = Tm!SpanText(Tm!Weighted(u[1], Tm!UnitTicks[2]))]
    [] ins[1] = 35 -> [m EXCEPT !.t = Tm!DateText(Tm!DayTicks(u[1]))]
    [] ins[1] = 26 -> [m EXCEPT !.t = u]
    [] ins[1] = 27 -> [m EXCEPT !.t = <<>>]
    [] ins[1] = 29 -> Built(m, Hp!Inserted(m.b, u[1], m.t), said)
    [] ins[1] = 30 -> [m EXCEPT !.b = @ \o NumText(u[1])]
    [] ins[1] = 31 -> [m EXCEPT !.t = Hp!Trimmed(@, Null, 3)]
    [] ins[1] = 32 -> Told(m, Hp!Padded(m.t, u[1], 32, TRUE), said)
    [] ins[1] = 33 -> [m EXCEPT !.t = HalfText(u[1])]
    [] ins[1] = 34 -> m

Exec(m, ins, messages, reads, said) ==
  IF m.stopped \/ ~m.good THEN m
  ELSE CASE ins[1] = 0 -> [m EXCEPT !.lines = Append(@, Tail(ins))]
         [] ins[1] = 1 ->
              LET k == Len(m.reads) + 1
                  off == IF k <= Len(reads) THEN reads[k] ELSE -2
              IN IF ~Fits(m.pool, ins[2]) THEN [m EXCEPT !.reads = Append(@, -1)]
                 ELSE [m EXCEPT !.reads = Append(@, off), !.good = Placeable(m.pool, off, ins[2]),
                                !.pool.blocks = Append(@, <<off, ins[2]>>)]
         [] ins[1] = 2 -> Stop(m, Message(ins, messages))
         [] ins[1] = 3 -> [m EXCEPT !.lines = Append(@, <<>>)]
         [] ins[1] = 4 -> [m EXCEPT !.data[ins[2] + 1] = ins[3]]
         [] ins[1] \in {5, 8} -> [m EXCEPT !.reads = Append(@, m.data[ins[2] + 1])]
         [] ins[1] = 6 -> IF Inside(ins[2]) THEN [m EXCEPT !.reads = Append(@, m.data[ins[2] + 1])]
                          ELSE Stop(m, messages[OutsideKind])
         [] ins[1] = 9 -> [m EXCEPT !.reads = @ \o DoubleData]
         [] ins[1] = 7 -> [m EXCEPT !.reads = @ \o <<1, DataLen>>]
         [] OTHER -> Compute(m, ins, messages, said)

(* said: what the last line of output is, where that is left to the library *)
ExecAll(m, prog, messages, reads, said) == FoldLeft(LAMBDA n, ins : Exec(n, ins, messages, reads, said), m, prog)

(* the run returns normally, and the blocks the program allocated still hold what it wrote (no byte differs) *)
Run(st, prog, messages, reads, said) ==
  LET m == ExecAll(Start(st), prog, messages, reads, said) IN
  IF ~m.good THEN {}
  ELSE { [r |-> Ok(<< <<1, 0>>, m.reads >> \o m.lines), st |-> [st EXCEPT !.data = m.data]] }
Send(st, text) == { [r |-> Ok(<< <<1>>, <<>>, IF text = Null THEN <<>> ELSE text >>), st |-> st] }
Get(st, i) == { [r |-> IF Inside(i) THEN Ok(<<One(st.data[i + 1])>>) ELSE Throw("IndexOutOfRange"), st |-> st] }

HostSteps(op, st, a, messages, reads, said) ==
  CASE op = "run"  -> Run(st, a, messages, reads, said)
    [] op = "send" -> Send(st, a[1])
    [] op = "get"  -> Get(st, a[1][1])
    [] OTHER -> {}
HostApply(op, st, a, messages, reads, said) ==
  { [r |-> o.r, s |-> messages, st |-> [o.st EXCEPT !.msgs = messages]] : o \in HostSteps(op, st, a, messages, reads, said) }

(* an event that carries no messages (the library did not survive the operation) has no explanation; an exception keeps
   saying the same, however often it was reported *)
HostExplain(st, e) ==
  IF e.s = <<>> \/ st.msgs \notin {<<>>, e.s} THEN {}
  ELSE LET v == e.r.v IN Explained(HostApply(e.op, st, e.a, e.s, IF Len(v) >= 2 THEN v[2] ELSE <<>>, IF Len(v) >= 3 THEN v[Len(v)] ELSE <<>>), e)
=============================================================================
