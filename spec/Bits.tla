-------------------------------- MODULE Bits --------------------------------
(* BitConverter: values as byte sequences.  The state is the byte array conversions read from (or null).          *)
EXTENDS Events, Words

(* bytes of a value in its converted form, by type code; characters count as 16 bits *)
Width == [t \in {2, 3, 6, 7, 8, 9, 10, 11, 12, 13} |->
            CASE t = 2 -> 1 [] t \in {3, 6, 7} -> 2 [] t \in {8, 9, 12} -> 4 [] OTHER -> 8]
BitsInit == Null
IsNull(st) == st = Null
(* values travel as <<bytes>>; a byte array holding the single byte -1 cannot occur, so Null is unambiguous *)
Inside(st, i, n) == i >= 0 /\ n >= 0 /\ i < Len(st) /\ n <= Len(st) - i

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
RECURSIVE HexText(_)
HexText(b) == IF b = <<>> THEN <<>>
              ELSE <<HexDigit(b[1] \div 16), HexDigit(b[1] % 16)>> \o (IF Len(b) = 1 THEN <<>> ELSE <<45>> \o HexText(Tail(b)))

Use(st, b)     == { [r |-> Ok(<<>>), st |-> b] }
GetBytes(st, t, w) == { [r |-> Ok(<<w>>), st |-> st] }
Take(st, t, w) == { [r |-> Ok(<<w>>), st |-> w] }          \* the converted bytes become the array
Truth(w) == IF IsZero(w) THEN <<0>> ELSE <<1>>
ToValue(st, t, i) ==
  { [st |-> st, r |-> IF IsNull(st) THEN Throw("ArgumentNull")
                      ELSE IF ~Inside(st, i, Width[t]) THEN Reject
                      ELSE Ok(<<IF t = 2 THEN Truth(Slice(st, i, 1)) ELSE Slice(st, i, Width[t])>>)] }
BitCast(st, w) == { [r |-> Ok(<<w>>), st |-> st] }
Text(st, i, n0) ==
  LET n == IF n0 = -1 THEN Len(st) - i ELSE n0 IN
  { [st |-> st, r |-> IF IsNull(st) THEN Throw("ArgumentNull")
                      ELSE IF i = 0 /\ n = 0 THEN Ok(<<<<>>>>)
                      ELSE IF i < 0 \/ i >= Len(st) THEN Reject
                      ELSE IF ~Inside(st, i, n) THEN Reject
                      ELSE Ok(<<HexText(Slice(st, i, n))>>)] }

Steps(op, st, a) ==
  CASE op = "use"      -> Use(st, a[1])
    [] op = "getBytes" -> GetBytes(st, a[1][1], a[2])
    [] op = "take"     -> Take(st, a[1][1], a[2])
    [] op = "to"       -> ToValue(st, a[1][1], a[1][2])
    [] op \in {"doubleBits", "bitsDouble"} -> BitCast(st, a[1])
    [] op = "text"     -> Text(st, a[1][1], a[1][2])
    [] op = "order"    -> { [r |-> Ok(<<One(1)>>), st |-> st] }     \* "little-endian", as the bytes are
    [] OTHER -> {}
BitsApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> <<o.st>>] : o \in Steps(op, st, a) }
BitsExplain(st, e) == Explained(BitsApply(e.op, st, e.a), e)
=============================================================================
