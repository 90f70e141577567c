-------------------------------- MODULE Large --------------------------------
(* Arrays, builders and strings of many thousand elements.  A content is not a sequence here but the function from
   positions to elements that the history of edits composes, so that the specification of an edit does not depend on
   the size and an observation looks at the positions it asks for:
     [k |-> "zero"]                      zeros everywhere
     [k |-> "const", v]                  v everywhere
     [k |-> "pat", seed]                 the pattern Pat(seed, position)
     [k |-> "splice", below, at, del, src, from, n]
                                         below with the del elements at `at` replaced by n elements of src from `from`
     [k |-> "map", below, at, n, x, y]   below with every x among the n elements at `at` turned into y
     [k |-> "run", x]                    x, x + 1, x + 2 ...
     [k |-> "tile", seed, m, sep]        m elements of the pattern, the sequence sep, the m elements again, sep ...
     [k |-> "case", up, below]           below with ASCII letters turned into upper or lower case
   Slots 1 and 2 are arrays seen as bytes, slot 3 a StringBuilder, slots 4 and 5 Strings, all three seen as
   characters.                                                                                                      *)
EXTENDS Events

Slots == 1..5
None == [c |-> [k |-> "zero"], n |-> 0, t |-> 0]
LargeInit == [s \in Slots |-> None]

Pat(seed, p) == 33 + ((p * 7 + (p \div 256) * 13 + (p \div 65536) * 29 + seed) % 89)
WidthOf(t) == CASE t \in {2, 4, 5} -> 1 [] t \in {6, 7} -> 2 [] t \in {3, 8, 9, 12} -> 4 [] OTHER -> 8

Upper(v) == IF v >= 97 /\ v <= 122 THEN v - 32 ELSE v
Lower(v) == IF v >= 65 /\ v <= 90 THEN v + 32 ELSE v
RECURSIVE At(_, _)
At(c, p) ==
  CASE c.k = "zero" -> 0
    [] c.k = "const" -> c.v
    [] c.k = "pat" -> Pat(c.seed, p)
    [] c.k = "splice" -> IF p < c.at THEN At(c.below, p)
                         ELSE IF p < c.at + c.n THEN At(c.src, c.from + (p - c.at))
                         ELSE At(c.below, (p - c.n) + c.del)
    [] c.k = "map" -> LET v == At(c.below, p) IN
                      IF p >= c.at /\ p < c.at + c.n /\ v = c.x THEN c.y ELSE v
    [] c.k = "run" -> c.x + p
    [] c.k = "tile" -> LET q == p % (c.m + Len(c.sep)) IN IF q < c.m THEN Pat(c.seed, q) ELSE c.sep[q - c.m + 1]
    [] c.k = "case" -> LET v == At(c.below, p) IN IF c.up THEN Upper(v) ELSE Lower(v)

Least(s) == IF s = {} THEN -1 ELSE CHOOSE p \in s : \A q \in s : p <= q
Greatest(s) == IF s = {} THEN -1 ELSE CHOOSE p \in s : \A q \in s : p >= q
(* the first, the last position in lo..hi-1 that holds x, or -1; the pattern repeats every value within 200 positions *)
RECURSIVE FirstIn(_, _, _, _), LastIn(_, _, _, _)
FirstIn(c, x, lo, hi) ==
  IF lo >= hi THEN -1 ELSE
  CASE c.k = "zero" -> IF x = 0 THEN lo ELSE -1
    [] c.k = "const" -> IF x = c.v THEN lo ELSE -1
    [] c.k = "run" -> LET p == x - c.x IN IF p >= lo /\ p < hi THEN p ELSE -1
    [] c.k = "pat" -> IF x < 33 \/ x > 121 THEN -1 ELSE Least({p \in lo..Min2(hi - 1, lo + 200) : At(c, p) = x})
    [] c.k = "tile" -> Least({p \in lo..Min2(hi - 1, lo + c.m + Len(c.sep)) : At(c, p) = x})
    [] c.k = "splice" ->
         LET a == FirstIn(c.below, x, lo, Min2(hi, c.at))
             b == FirstIn(c.src, x, c.from + Max2(lo - c.at, 0), c.from + Min2(hi - c.at, c.n))
             d == FirstIn(c.below, x, Max2(lo - c.n, c.at) + c.del, (hi - c.n) + c.del)
         IN IF a # -1 THEN a ELSE IF b # -1 THEN c.at + (b - c.from) ELSE IF d # -1 THEN (d - c.del) + c.n ELSE -1
LastIn(c, x, lo, hi) ==
  IF lo >= hi THEN -1 ELSE
  CASE c.k = "zero" -> IF x = 0 THEN hi - 1 ELSE -1
    [] c.k = "const" -> IF x = c.v THEN hi - 1 ELSE -1
    [] c.k = "run" -> LET p == x - c.x IN IF p >= lo /\ p < hi THEN p ELSE -1
    [] c.k = "pat" -> IF x < 33 \/ x > 121 THEN -1 ELSE Greatest({p \in Max2(lo, hi - 200)..(hi - 1) : At(c, p) = x})
    [] c.k = "tile" -> Greatest({p \in Max2(lo, hi - 1 - (c.m + Len(c.sep)))..(hi - 1) : At(c, p) = x})
    [] c.k = "splice" ->
         LET a == LastIn(c.below, x, lo, Min2(hi, c.at))
             b == LastIn(c.src, x, c.from + Max2(lo - c.at, 0), c.from + Min2(hi - c.at, c.n))
             d == LastIn(c.below, x, Max2(lo - c.n, c.at) + c.del, (hi - c.n) + c.del)
         IN IF d # -1 THEN (d - c.del) + c.n ELSE IF b # -1 THEN c.at + (b - c.from) ELSE a
RunAt(c, x, m, p) == \A i \in 0..(m - 1) : At(c, p + i) = x + i
(* the first, last position of the m characters x, x + 1, ... inside lo..hi-1 *)
RECURSIVE FirstRun(_, _, _, _, _), LastRun(_, _, _, _, _)
FirstRun(c, x, m, lo, hi) ==
  LET p == FirstIn(c, x, lo, (hi - m) + 1) IN IF p = -1 \/ RunAt(c, x, m, p) THEN p ELSE FirstRun(c, x, m, p + 1, hi)
LastRun(c, x, m, lo, hi) ==
  LET p == LastIn(c, x, lo, (hi - m) + 1) IN IF p = -1 \/ RunAt(c, x, m, p) THEN p ELSE LastRun(c, x, m, lo, (p + m) - 1)

Zero == [k |-> "zero"]
Const(v) == [k |-> "const", v |-> v]
Pattern(seed) == [k |-> "pat", seed |-> seed]
RunOf(x) == [k |-> "run", x |-> x]
Tile(seed, m, sep) == [k |-> "tile", seed |-> seed, m |-> m, sep |-> sep]
Splice(below, at, del, src, from, n) ==
  [k |-> "splice", below |-> below, at |-> at, del |-> del, src |-> src, from |-> from, n |-> n]

Within(n, at, len) == at >= 0 /\ len >= 0 /\ at <= n /\ len <= n - at
Done(st, s, c, n) == { [r |-> Ok(<<>>), st |-> [st EXCEPT ![s].c = c, ![s].n = n]] }
Refused(st) == { [r |-> Reject, st |-> st] }
Edit(st, s, good, c, n) == IF good THEN Done(st, s, c, n) ELSE Refused(st)

(* insertion of m elements of src at `at`, removal of m elements there *)
Ins(st, s, at, src, m) == Edit(st, s, at >= 0 /\ at <= st[s].n /\ m >= 0, Splice(st[s].c, at, 0, src, 0, m), st[s].n + m)
Rem(st, s, at, m) == Edit(st, s, Within(st[s].n, at, m), Splice(st[s].c, at, m, Zero, 0, 0), st[s].n - m)
Over(st, a, i, b, j, m) ==      \* bytes i.. of slot a, as they are now, over bytes j.. of slot b
  Edit(st, b, Within(st[a].n, i, m) /\ Within(st[b].n, j, m), Splice(st[b].c, j, m, st[a].c, i, m), st[b].n)

Answer(st, v) == { [r |-> Ok(v), st |-> st] }
Looks(c, a, from) == [i \in 1..(Len(a) - from + 1) |-> At(c, a[i + from - 1])]
(* searching: modes 0 to 2 forward for a character, a text, any of two characters, 3 to 5 the same backwards *)
Find(st, mode, x, start, count) ==
  LET c == st[4].c  n == st[4].n  w == IF mode % 3 = 1 THEN 2 ELSE 1 IN
  IF mode < 3 THEN (IF ~Within(n, start, count) THEN Refused(st) ELSE Answer(st, <<One(FirstRun(c, x, w, start, start + count))>>))
  ELSE IF start < 0 \/ start >= n \/ count < 0 \/ count > start + 1 THEN Refused(st)
  ELSE Answer(st, <<One(LastRun(c, x, w, (start - count) + 1, start + 1))>>)
(* slot 5 is slot 4 but for one edit, or the same; the first position in which they differ, or the shorter length *)
Twins(st) == st[5].c = st[4].c \/ (st[5].c.k = "splice" /\ st[5].c.below = st[4].c)
Parting(st) ==
  LET m == Min2(st[4].n, st[5].n)  d == IF st[5].c = st[4].c THEN m ELSE st[5].c.at IN
  IF d < m /\ At(st[4].c, d) = At(st[5].c, d) THEN m ELSE d
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
(* text 4 against text 5: equal, ordinal order, order, order ignoring case, does 4 start with 5 *)
Compared(st) ==
  LET d == Parting(st)  x == At(st[4].c, d)  y == At(st[5].c, d)  n == st[4].n  m == st[5].n IN
  IF d < n /\ d < m
  THEN << 0, Sign(x, y), IF Lower(x) # Lower(y) THEN Sign(Lower(x), Lower(y)) ELSE IF n # m THEN Sign(n, m) ELSE IF x = Lower(x) THEN -1 ELSE 1,
          IF Lower(x) # Lower(y) THEN Sign(Lower(x), Lower(y)) ELSE Sign(n, m), 0 >>
  ELSE << IF n = m THEN 1 ELSE 0, Sign(n, m), Sign(n, m), Sign(n, m), IF m <= n THEN 1 ELSE 0 >>
TileLen(n, m, k) == IF n = 0 THEN 0 ELSE n * m + (n - 1) * k
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
HexAt(c, i, p) == LET b == At(c, i + p \div 3) IN CASE p % 3 = 0 -> HexDigit(b \div 16) [] p % 3 = 1 -> HexDigit(b % 16) [] OTHER -> 45

Steps(op, st, a) ==
  CASE op = "arr"   -> { [r |-> Ok(<<>>), st |-> [st EXCEPT ![a[1]] = [c |-> Zero, n |-> a[3] * WidthOf(a[2]), t |-> a[2]]]] }
    [] op = "fill"  -> Done(st, a[1], Pattern(a[2]), st[a[1]].n)
    [] op = "copy"  -> LET w == WidthOf(st[a[1]].t) IN
                       IF st[a[1]].t # st[a[3]].t THEN Refused(st) ELSE Over(st, a[1], a[2] * w, a[3], a[4] * w, a[5] * w)
    [] op = "block" -> Over(st, a[1], a[2], a[3], a[4], a[5])
    [] op = "clear" -> LET w == WidthOf(st[a[1]].t) IN
                       Edit(st, a[1], Within(st[a[1]].n, a[2] * w, a[3] * w),
                            Splice(st[a[1]].c, a[2] * w, a[3] * w, Zero, 0, a[3] * w), st[a[1]].n)
    [] op = "setByte" -> Edit(st, a[1], Within(st[a[1]].n, a[2], 1), Splice(st[a[1]].c, a[2], 1, Const(a[3]), 0, 1), st[a[1]].n)
    \* all elements from raw data; one byte; one element from and to a boxed number 0..127
    [] op = "load"  -> Done(st, a[1], Pattern(a[2]), st[a[1]].n)
    [] op = "getByte" -> IF ~Within(st[a[1]].n, a[2], 1) \/ a[2] = st[a[1]].n THEN Refused(st)
                         ELSE Answer(st, <<One(At(st[a[1]].c, a[2])), One(st[a[1]].n)>>)
    [] op = "boxSet" -> LET w == WidthOf(st[a[1]].t) IN
                        Edit(st, a[1], a[2] >= 0 /\ a[2] < st[a[1]].n \div w,
                             Splice(st[a[1]].c, a[2] * w, w, Tile(0, 0, <<a[3]>> \o [i \in 1..(w - 1) |-> 0]), 0, w), st[a[1]].n)
    [] op = "boxGet" -> LET w == WidthOf(st[a[1]].t) IN
                        IF a[2] < 0 \/ a[2] >= st[a[1]].n \div w THEN Refused(st)
                        ELSE Answer(st, <<[i \in 1..w |-> At(st[a[1]].c, a[2] * w + i - 1)]>>)
    [] op = "addr"  -> { [r |-> IF a[5] < a[2] /\ a[6] < a[3] /\ a[7] < a[4] /\ a[5] >= 0 /\ a[6] >= 0 /\ a[7] >= 0
                                THEN Ok(<<One(((a[5] * a[3] + a[6]) * a[4] + a[7]) * WidthOf(a[1])), One(a[2] * a[3] * a[4])>>)
                                ELSE Reject, st |-> st] }
    [] op = "build" -> { [r |-> Ok(<<>>), st |-> [st EXCEPT ![3] = [c |-> Zero, n |-> 0, t |-> 1]]] }
    [] op = "app"   -> Ins(st, 3, st[3].n, Pattern(a[1]), a[2])
    [] op = "rep"   -> Ins(st, 3, st[3].n, Const(a[1]), a[2])
    [] op = "ins"   -> Ins(st, 3, a[1], Pattern(a[2]), a[3])
    [] op = "rem"   -> Rem(st, 3, a[1], a[2])
    [] op = "len"   -> IF a[1] < 0 THEN Refused(st)
                       ELSE IF a[1] <= st[3].n THEN Rem(st, 3, a[1], st[3].n - a[1])
                       ELSE Ins(st, 3, st[3].n, Zero, a[1] - st[3].n)
    [] op = "map"   -> Edit(st, 3, Within(st[3].n, a[1], a[2]),
                            [k |-> "map", below |-> st[3].c, at |-> a[1], n |-> a[2], x |-> a[3], y |-> a[4]], st[3].n)
    \* capacity: never below the length, at least what was asked for, and no change of the content
    [] op = "ensure" -> { [r |-> Ok(<<One(1)>>), st |-> st] }
    [] op = "cap"   -> IF a[1] < st[3].n THEN Refused(st) ELSE { [r |-> Ok(<<One(1)>>), st |-> st] }
    [] op = "str"   -> { [r |-> Ok(<<>>), st |-> [st EXCEPT ![4] = [c |-> st[3].c, n |-> st[3].n, t |-> 1]]] }
    [] op = "cut"   -> Edit(st, 4, Within(st[3].n, a[1], a[2]), Splice(Zero, 0, 0, st[3].c, a[1], a[2]), a[2])
    [] op = "sub"   -> Edit(st, 4, Within(st[4].n, a[1], a[2]), Splice(Zero, 0, 0, st[4].c, a[1], a[2]), a[2])
    [] op = "sins"  -> Ins(st, 4, a[1], Pattern(a[2]), a[3])
    [] op = "srem"  -> Rem(st, 4, a[1], a[2])
    [] op = "scat"  -> Ins(st, 4, st[4].n, st[3].c, st[3].n)
    [] op = "pad"   -> LET m == a[2] - st[4].n IN
                       IF m <= 0 THEN { [r |-> Ok(<<>>), st |-> st] } ELSE Ins(st, 4, IF a[1] = 1 THEN 0 ELSE st[4].n, Const(a[3]), m)
    [] op = "mark"  -> Ins(st, 4, a[1], RunOf(a[2]), a[3])
    [] op = "case"  -> Done(st, 4, [k |-> "case", up |-> a[1] = 1, below |-> st[4].c], st[4].n)
    [] op = "smap"  -> Done(st, 4, [k |-> "map", below |-> st[4].c, at |-> 0, n |-> st[4].n, x |-> a[1], y |-> a[2]], st[4].n)
    \* blanks put around the text and trimmed off again: on both sides, at the start, at the end
    [] op = "trim"  -> Ins(st, 4, IF a[1] = 3 THEN 0 ELSE st[4].n, Const(32),
                           CASE a[1] = 1 \/ st[4].n = 0 -> 0 [] a[1] = 2 -> a[3] [] OTHER -> a[2])
    [] op = "many"  -> LET sep == CASE a[1] = 0 -> <<>> [] a[1] = 1 -> <<a[5]>> [] OTHER -> <<a[5], a[5]>> IN
                       Done(st, 4, Tile(a[4], a[3], sep), TileLen(a[2], a[3], Len(sep)))
    [] op = "tile"  -> Done(st, 3, Tile(a[3], a[2], <<a[4]>>), TileLen(a[1], a[2], 1))
    \* every separator of the tiles in slot a[1] replaced by another text
    [] op = "retile" -> LET o == st[a[1]]  new == SubSeq(a, 3, Len(a))
                            items == (o.n + Len(o.c.sep)) \div (o.c.m + Len(o.c.sep)) IN
                        Done(st, a[1], [o.c EXCEPT !.sep = new], TileLen(items, o.c.m, Len(new)))
    \* a[1] characters, each to be replaced by a[2] others: together more than a builder can have
    [] op = "flood" -> IF a[2] = 0 \/ a[1] <= 2147483647 \div a[2] THEN {}
                       ELSE { [r |-> Reject, st |-> [st EXCEPT ![3] = [c |-> Const(120), n |-> a[1], t |-> 1]]] }
    [] op = "count" -> LET o == st[3] IN Answer(st, <<One(((o.n + 1) \div (o.c.m + 1)) - 1)>>)
    [] op = "find"  -> Find(st, a[1], a[2], a[3], a[4])
    \* does the text contain, start with, end with the characters x, x + 1, ...
    [] op = "has"   -> LET o == st[4]  fits == a[2] <= o.n IN
                       Answer(st, <<One(Bool(FirstRun(o.c, a[1], a[2], 0, o.n) # -1)), One(Bool(fits /\ RunAt(o.c, a[1], a[2], 0))),
                                    One(Bool(fits /\ RunAt(o.c, a[1], a[2], o.n - a[2])))>>)
    \* text 5 becomes text 4 with one character changed; longer by one; shorter by one; the same
    [] op = "twin"  -> LET o == st[4] IN
                       CASE a[1] = 0 -> Done(st, 5, Splice(o.c, a[2], 1, Const(a[3]), 0, 1), o.n)
                         [] a[1] = 1 -> Done(st, 5, Splice(o.c, o.n, 0, Const(a[3]), 0, 1), o.n + 1)
                         [] a[1] = 2 -> Done(st, 5, Splice(o.c, o.n - 1, 1, Zero, 0, 0), o.n - 1)
                         [] OTHER -> Done(st, 5, o.c, o.n)
    [] op = "cmp"   -> IF Twins(st) THEN Answer(st, <<Compared(st)>>) ELSE {}
    [] op = "walk"  -> Answer(st, <<One(st[4].n), Looks(st[4].c, a, 1)>>)
    [] op = "hex"   -> IF ~Within(st[a[1]].n, a[2], a[3]) \/ a[3] = 0 THEN Refused(st)
                       ELSE Answer(st, <<One(3 * a[3] - 1), [i \in 1..(Len(a) - 3) |-> HexAt(st[a[1]].c, a[2], a[i + 3])]>>)
    [] op = "word"  -> IF ~Within(st[a[1]].n, a[2], 8) THEN Refused(st) ELSE Answer(st, <<[i \in 1..8 |-> At(st[a[1]].c, a[2] + i - 1)]>>)
    \* into a buffer of a[2] characters more than the text has
    [] op = "fmt"   -> IF a[2] < 1 THEN Refused(st) ELSE Answer(st, <<One(st[a[1]].n), Looks(st[a[1]].c, a, 3)>>)
    \* a[1] null objects but for equal ones at a[2] and a[3]; searched from a[4] on for a[5]
    [] op = "seek"  -> IF ~Within(a[1], a[4], a[5]) THEN Refused(st)
                       ELSE Answer(st, <<One(Least({p \in {a[2], a[3]} : p >= a[4] /\ p < a[4] + a[5]})),
                                         One(LET f == {p \in a[4]..Min2((a[4] + a[5]) - 1, a[4] + 2) : p \notin {a[2], a[3]}} IN Least(f))>>)
    [] op = "peek"  -> { [r |-> Ok(<< [i \in 1..(Len(a) - 1) |-> At(st[a[1]].c, a[i + 1])] >>), st |-> st] }
    [] OTHER -> {}

Obs(st) == << [s \in Slots |-> st[s].n] >>
LargeApply(op, st, a) == { [r |-> o.r, s |-> Obs(o.st), st |-> o.st] : o \in Steps(op, st, a[1]) }
LargeExplain(st, e) == Explained(LargeApply(e.op, st, e.a), e)
=============================================================================
