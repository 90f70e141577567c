------------------------------ MODULE StrSearch ------------------------------
(* Searching strings.  Every call is a function of its arguments. *)
EXTENDS Text

SearchInit == 0
(* lowest and highest position k with from <= k, k + n <= to, that satisfies P; -1 if there is none *)
First(P(_), from, to) ==
  LET f[k \in from..(to + 1)] == IF k > to THEN -1 ELSE IF P(k) THEN k ELSE f[k + 1] IN IF to < from THEN -1 ELSE f[from]
Last(P(_), from, to) ==
  LET f[k \in (from - 1)..to] == IF k < from THEN -1 ELSE IF P(k) THEN k ELSE f[k - 1] IN IF to < from THEN -1 ELSE f[to]

(* forward: the range is [start, start + count); a missing count (-1 in form 1 and 2) means up to the end *)
Forward(s, n, t, set, start, count) ==
  IF ~RangeOk(Len(s), start, count) THEN {Reject}
  ELSE {Ok(<<<<First(LAMBDA k : IF set THEN s[k + 1] \in Range(t) ELSE At(s, k, t), start, start + count - n)>>>>)}
ForwardForm(s, n, t, set, p) ==      \* p = <<same, form, start, count>>
  CASE p[2] = 1 -> Forward(s, n, t, set, 0, Len(s))
    [] p[2] = 2 -> IF p[3] < 0 \/ p[3] > Len(s) THEN {Reject} ELSE Forward(s, n, t, set, p[3], Len(s) - p[3])
    [] p[2] = 3 -> Forward(s, n, t, set, p[3], p[4])

(* backward: the range is the count positions ending at start; by default all of the string *)
Backward(s, n, t, set, start0, count0) ==
  LET start == IF start0 = -1 THEN Len(s) - 1 ELSE start0
      count == IF count0 # -1 THEN count0 ELSE IF start >= Len(s) THEN Len(s) + 1 ELSE start + 1
  IN IF count - 1 > start \/ (start >= Len(s) /\ count > 0) THEN {Reject}
     ELSE IF start >= Len(s) THEN {Ok(<<<<-1>>>>), Reject}      \* nothing to search, from a position that does not exist
     ELSE IF n = 0 THEN { Ok(<<<<k>>>>) : k \in {start, start + 1} \cup (IF count = 0 THEN {-1} ELSE {}) }     \* empty pattern
     ELSE {Ok(<<<<Last(LAMBDA k : IF set THEN s[k + 1] \in Range(t) ELSE At(s, k, t), start - count + 1, start - n + 1)>>>>)}
BackwardForm(s, n, t, set, p) ==
  CASE p[2] = 1 -> Backward(s, n, t, set, -1, -1)
    [] p[2] = 2 -> Backward(s, n, t, set, p[3], -1)
    [] p[2] = 3 -> Backward(s, n, t, set, p[3], p[4])

SearchResults(op, p, s, t) ==
  CASE op = "index"     -> IF t = Null THEN {Reject} ELSE ForwardForm(s, Len(t), t, FALSE, p)
    [] op = "indexChar" -> ForwardForm(s, 1, t, FALSE, p)
    [] op = "indexAny"  -> IF t = Null THEN {Reject} ELSE ForwardForm(s, 1, t, TRUE, p)
    [] op = "last"      -> IF t = Null THEN {Reject} ELSE BackwardForm(s, Len(t), t, FALSE, p)
    [] op = "lastChar"  -> BackwardForm(s, 1, t, FALSE, p)
    [] op = "lastAny"   -> IF t = Null THEN {Reject} ELSE BackwardForm(s, 1, t, TRUE, p)
    [] op = "searchOther" -> {Reject}                  \* the characters in an array that cannot hold any, or a table
    [] op = "contains"  -> IF t = Null THEN {Reject} ELSE {Ok(<<<<Bool(First(LAMBDA k : At(s, k, t), 0, Len(s)) >= 0)>>>>)}
    [] op = "starts"    -> IF t = Null THEN {Reject} ELSE {Ok(<<<<Bool(At(s, 0, t))>>>>)}
    [] op \in {"ends", "endsChar"} -> IF t = Null THEN {Reject} ELSE {Ok(<<<<Bool(At(s, Len(s) - Len(t), t))>>>>)}
    [] OTHER -> {}
SearchApply(op, a) == { [r |-> r, st |-> 0, s |-> <<a[2], a[3]>>] : r \in SearchResults(op, a[1], a[2], a[3]) }
SearchExplain(st, e) == IF Len(e.a) # 3 THEN {} ELSE Explained(SearchApply(e.op, e.a), e)
=============================================================================
