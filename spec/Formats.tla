------------------------------ MODULE Formats ------------------------------
(* One text per value, within the buffer given for it.  The state: a value v = <<type>> \o its bytes (of a string, 17, or
   a string builder, 100: its characters; of a plain object, 1, or an array, 101: nothing), its text t once it has been
   asked for (Null before), and the text b of a string builder a program composes.                                   *)
EXTENDS Text
LOCAL Tm == INSTANCE Times
LOCAL Fl == INSTANCE Floats

FormatInit == [v |-> <<2, 0>>, t |-> Null, b |-> <<>>]

Texts == {17, 100}
ObjectText == <<79, 98, 106, 101, 99, 116>>
(* text of every value but a floating-point one *)
TextOf(v) ==
  CASE v[1] \in Texts -> Tail(v)
    [] v[1] \in {1, 101} -> ObjectText
    [] v[1] = 15 -> Tm!DateText(Tail(v))
    [] v[1] = 16 -> Tm!SpanText(Tail(v))
    [] OTHER -> ValueText(v)
IsText(v, t) == IF v[1] \in {12, 13} THEN Fl!TextOk(v[1], Tail(v), t) ELSE t = TextOf(v)

Observe(st) == <<st.v, st.b>>
Put(st, i, t) ==                                      \* text t into the builder at position i
  IF i < 0 \/ i > Len(st.b) THEN { [st |-> st, r |-> Reject] }
  ELSE { [st |-> [st EXCEPT !.b = SubSeq(st.b, 1, i) \o t \o SubSeq(st.b, i + 1, Len(st.b))], r |-> Ok(<<>>)] }
Bar == <<124>>
FormatSteps(op, st, a) ==
  CASE op = "let"     -> { [st |-> [st EXCEPT !.v = a[1], !.t = Null], r |-> Ok(<<>>)] }
    [] op = "text"    -> { [st |-> [st EXCEPT !.t = TextOf(st.v)], r |-> Ok(<<TextOf(st.v)>>)] }
    [] op = "into"    -> \* into a buffer of a[1][1] characters: the text and a terminating null, or nothing
         { [st |-> st, r |-> IF Len(st.t) < a[1][1] THEN Ok(<<st.t, <<0>>>>) ELSE Reject] }
    [] op = "concat"  -> { [st |-> st, r |-> Ok(<<st.t, st.t \o Bar \o st.t, st.t \o Bar \o st.t>>)] }
    [] op = "start"   -> { [st |-> [st EXCEPT !.b = a[1]], r |-> Ok(<<>>)] }
    [] op = "append"  -> Put(st, Len(st.b), st.t)      \* by whichever way the builder offers for the type
    [] op = "appendObject" -> Put(st, Len(st.b), st.t)
    [] op = "appendValue"  -> Put(st, IF a[1][1] = -1 THEN Len(st.b) ELSE a[1][1], st.t)
    [] op = "insert"  -> Put(st, a[1][1], st.t)
    [] op = "insertObject" -> Put(st, a[1][1], st.t)
    [] OTHER -> {}
FormatApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> Observe(o.st)] : o \in FormatSteps(op, st, a) }
FormatExplain(st, e) ==
  IF e.op = "text" THEN
    IF e.r.k = "ok" /\ Len(e.r.v) = 1 /\ e.s = Observe(st) /\ (IF st.t = Null THEN IsText(st.v, e.r.v[1]) ELSE e.r.v[1] = st.t)
    THEN { [st EXCEPT !.t = e.r.v[1]] } ELSE {}
  ELSE IF st.t = Null /\ e.op \notin {"let", "start"} THEN {}
  ELSE Explained(FormatApply(e.op, st, e.a), e)
=============================================================================
