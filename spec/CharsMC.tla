------------------------------ MODULE CharsMC -------------------------------
EXTENDS Chars, MCEmit
CONSTANTS Strings, Enums, Indexes, AllChars
VARIABLES st,
          seen         \* what each enumerator has yielded since it was made or set back
vars == <<st, seen>>
Init == st = CharInit /\ seen = <<<<>>, <<>>, <<>>>> /\ EmitInit(st)
Do(op, a) == \E o \in CharApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Next ==
  \/ seen' = seen /\ (\/ \E k \in 0..1 : st.s[k + 1] = <<>> /\ \E s \in Strings : Do("set", <<<<k>>, s>>)
                      \/ \E c \in AllChars : st = CharInit /\ Do("about", <<<<c>>>>)
                      \/ \E k \in 0..1, i \in Indexes, f \in Forms : st.e = CharInit.e /\ Do("at", <<<<k, i, f>>>>))
  \/ \E k \in Enums : \/ \E j \in 0..1 : st.s[j + 1] # Null /\ Do("open", <<<<k, j>>>>) /\ seen' = [seen EXCEPT ![k + 1] = <<>>]
                      \/ st.e[k + 1].on = 1 /\ Do("back", <<<<k>>>>) /\ seen' = [seen EXCEPT ![k + 1] = <<>>]
                      \/ /\ st.e[k + 1].on = 1 /\ Do("next", <<<<k>>>>)
                         /\ seen' = LET c == Current(Move(st.e[k + 1])) IN IF c[1] = 2 THEN [seen EXCEPT ![k + 1] = Append(@, c[2])] ELSE seen
Spec == Init /\ [][Next]_vars

(* every character once, in order, and nothing after the end *)
Yielded == \A k \in 1..3 : LET e == st.e[k] IN seen[k] = SubSeq(e.c, 1, Min2(e.p, Len(e.c)))
ASSUME Partition == \A c \in 0..127 : Bool(Control(c)) + Bool(Letter(c)) + Bool(Digit(c)) + Bool(Punct(c)) + Bool(c = 32) = 1
ASSUME Case == \A c \in 0..127 : ToUpper(ToLower(c)) = ToUpper(c) /\ (ToUpper(c) # c) = LowerL(c) /\ (ToLower(c) # c) = UpperL(c)
                                  /\ ~(LowerL(c) /\ UpperL(c)) /\ (Letter(c) = (LowerL(c) \/ UpperL(c))) /\ (Numeric(c) >= 0) = Digit(c)
=============================================================================
