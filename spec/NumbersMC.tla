----------------------------- MODULE NumbersMC -----------------------------
EXTENDS Numbers, MCEmit
CONSTANTS Alphabet, MaxLen, Types, Starts
VARIABLE st
Init == st = NumInit /\ EmitInit(st)
Do(op, a) == \E o \in NumApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
StartA  == st = <<>> /\ \E t \in Starts : Do("set", <<t>>)
NullA   == st = <<>> /\ Do("set", <<Null>>)
AppendA == st # Null /\ (st = <<>> => Starts = {}) /\ \E c \in Alphabet : Len(st) < MaxLen /\ Do("append", <<<<c>>>>)
ParseA  == \E t \in Types : Do("parse", <<<<t>>>>)
TryA    == \E t \in Types \ {2} : Do("tryParse", <<<<t>>>>)
BackA   == st = Null /\ Do("set", <<<<>>>>)
Next == StartA \/ NullA \/ AppendA \/ ParseA \/ TryA \/ BackA
Spec == Init /\ [][Next]_st
(* parsing and trying to parse agree *)
Agree == \A t \in Types \ {2} : \A p \in Parse(st, t), q \in TryParse(st, t) :
            (p.r.k = "ok") = (q.r.v[1] = <<1>>) /\ (p.r.k = "ok" => q.r.v[2] = p.r.v[1])
(* an accepted text denotes what the value's own text denotes: the parsed value is the only one of its type that does *)
Canonical == \A t \in Types \cap Ints : st # Null =>
   LET x == ReadInt(t, st) IN x[1] = "ok" =>
      LET l == Literal(st)  m == Literal(TextOf(t, x[2])) IN l.digits = m.digits /\ (l.neg = m.neg \/ l.digits = <<>>)
(* widening a type never rejects a text and never changes the value *)
Widening == \A t \in Types \cap Ints, u \in Types \cap Ints : (st # Null /\ SignedT[t] = SignedT[u] /\ t < u) =>
   LET x == ReadInt(t, st) y == ReadInt(u, st) IN x[1] = "ok" => y = <<"ok", Resize(x[2], IntWidth[u], SignedT[t])>>
(* every value of the 8-bit types, and the limits of all types, are recovered from their text *)
ASSUME RoundTrip8 == \A t \in {4, 5} : \A b \in 0..255 : ReadInt(t, TextOf(t, <<b>>)) = <<"ok", <<b>>>>
ASSUME RoundTripLimits == \A t \in Ints : \A w \in {Lowest[t], Highest[t], Neg(Highest[t]), Zero(IntWidth[t])} :
                            ReadInt(t, TextOf(t, w)) = <<"ok", w>>
=============================================================================
