------------------------------- MODULE BitsMC -------------------------------
EXTENDS Bits, MCEmit
CONSTANTS Alphabet, MaxLen, Nums
VARIABLE st
Init == st = BitsInit /\ EmitInit(st)
Do(op, a) == \E o \in BitsApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
Arrays == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Wordz(n) == IF n = 1 THEN {<<0>>, <<1>>} ELSE {[i \in 1..n |-> IF i = k THEN b ELSE c] : k \in 1..n, b \in Alphabet, c \in Alphabet}
UseA  == \E b \in Arrays \cup {Null} : Do("use", <<b>>)
TakeA == Len(st) <= 1 /\ \E t \in DOMAIN Width : \E w \in Wordz(Width[t]) : Do("take", <<<<t>>, w>>)
ToA   == \E t \in DOMAIN Width : \E i \in Nums : Do("to", <<<<t, i>>>>)
TextA == \E i, n \in Nums : Do("text", <<<<i, n>>>>)
CastA == \E w \in Wordz(8) : \E op \in {"doubleBits", "bitsDouble"} : st = Null /\ Do(op, <<w>>)
OrderA == st = Null /\ Do("order", <<>>)
Next == OrderA \/ UseA \/ TakeA \/ ToA \/ TextA \/ CastA
Spec == Init /\ [][Next]_st
(* converting to bytes and back is the identity, for every type of that width *)
RoundTrip == IsNull(st) \/ \A t \in DOMAIN Width : (t # 2 /\ Len(st) = Width[t]) =>
               \A o \in ToValue(st, t, 0) : o.r = Ok(<<st>>)
(* reading at i of the array is reading at 0 of its tail: no byte before or after is involved *)
Local == IsNull(st) \/ \A t \in DOMAIN Width : \A i \in 0..Len(st) :
            Inside(st, i, Width[t]) =>
              (CHOOSE o \in ToValue(st, t, i) : TRUE).r = (CHOOSE o \in ToValue(Slice(st, i, Width[t]), t, 0) : TRUE).r
(* the text determines the bytes *)
TextLen == IsNull(st) \/ (st # <<>> => Len(HexText(st)) = 3 * Len(st) - 1)
=============================================================================
