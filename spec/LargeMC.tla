------------------------------- MODULE LargeMC -------------------------------
(* The composed contents of Large against contents kept as plain sequences. *)
EXTENDS Large, MCEmit, SequencesExt
CONSTANTS Types, Counts, Poses, MaxSteps, Ops
VARIABLES st, flat, k
vars == <<st, flat, k>>
RECURSIVE Searchable(_)
Searchable(c) == CASE c.k \in {"map", "case"} -> FALSE [] c.k = "splice" -> Searchable(c.below) /\ Searchable(c.src) [] OTHER -> TRUE
Init == st = LargeInit /\ flat = [s \in Slots |-> <<>>] /\ k = 0 /\ EmitInit(st)

Pats(seed, m) == [i \in 1..m |-> Pat(seed, i - 1)]
Times(v, m) == [i \in 1..m |-> v]
Cut(s, i, m) == SubSeq(s, i + 1, i + m)
Put(s, i, x, del) == SubSeq(s, 1, i) \o x \o SubSeq(s, i + del + 1, Len(s))
Joined(n, x, sep) == FoldLeft(LAMBDA acc, i : IF i = 1 THEN x ELSE acc \o sep \o x, <<>>, [i \in 1..n |-> i])
Swapped(s, x, y) == FoldLeft(LAMBDA acc, v : IF v = x THEN acc \o y ELSE acc \o <<v>>, <<>>, s)
(* what a successful operation does to the plain sequences *)
Plain(op, f, a) ==
  CASE op = "arr" -> [f EXCEPT ![a[1]] = Times(0, a[3] * WidthOf(a[2]))]
    [] op = "fill" -> [f EXCEPT ![a[1]] = Pats(a[2], Len(@))]
    [] op = "copy" -> LET w == WidthOf(st[a[1]].t) IN [f EXCEPT ![a[3]] = Put(@, a[4] * w, Cut(f[a[1]], a[2] * w, a[5] * w), a[5] * w)]
    [] op = "block" -> [f EXCEPT ![a[3]] = Put(@, a[4], Cut(f[a[1]], a[2], a[5]), a[5])]
    [] op = "clear" -> LET w == WidthOf(st[a[1]].t) IN [f EXCEPT ![a[1]] = Put(@, a[2] * w, Times(0, a[3] * w), a[3] * w)]
    [] op = "setByte" -> [f EXCEPT ![a[1]][a[2] + 1] = a[3]]
    [] op = "load" -> [f EXCEPT ![a[1]] = Pats(a[2], Len(@))]
    [] op = "boxSet" -> LET w == WidthOf(st[a[1]].t) IN [f EXCEPT ![a[1]] = Put(@, a[2] * w, <<a[3]>> \o Times(0, w - 1), w)]
    [] op = "build" -> [f EXCEPT ![3] = <<>>]
    [] op = "app" -> [f EXCEPT ![3] = @ \o Pats(a[1], a[2])]
    [] op = "rep" -> [f EXCEPT ![3] = @ \o Times(a[1], a[2])]
    [] op = "ins" -> [f EXCEPT ![3] = Put(@, a[1], Pats(a[2], a[3]), 0)]
    [] op = "rem" -> [f EXCEPT ![3] = Put(@, a[1], <<>>, a[2])]
    [] op = "len" -> [f EXCEPT ![3] = IF a[1] <= Len(@) THEN SubSeq(@, 1, a[1]) ELSE @ \o Times(0, a[1] - Len(@))]
    [] op = "map" -> [f EXCEPT ![3] = [i \in DOMAIN @ |-> IF i > a[1] /\ i <= a[1] + a[2] /\ @[i] = a[3] THEN a[4] ELSE @[i]]]
    [] op = "str" -> [f EXCEPT ![4] = f[3]]
    [] op = "cut" -> [f EXCEPT ![4] = Cut(f[3], a[1], a[2])]
    [] op = "sub" -> [f EXCEPT ![4] = Cut(@, a[1], a[2])]
    [] op = "sins" -> [f EXCEPT ![4] = Put(@, a[1], Pats(a[2], a[3]), 0)]
    [] op = "srem" -> [f EXCEPT ![4] = Put(@, a[1], <<>>, a[2])]
    [] op = "scat" -> [f EXCEPT ![4] = @ \o f[3]]
    [] op = "pad" -> IF a[2] <= Len(f[4]) THEN f ELSE
                     [f EXCEPT ![4] = IF a[1] = 1 THEN Times(a[3], a[2] - Len(@)) \o @ ELSE @ \o Times(a[3], a[2] - Len(@))]
    [] op = "mark" -> [f EXCEPT ![4] = Put(@, a[1], [i \in 1..a[3] |-> a[2] + i - 1], 0)]
    [] op = "case" -> [f EXCEPT ![4] = [i \in DOMAIN @ |-> IF a[1] = 1 THEN Upper(@[i]) ELSE Lower(@[i])]]
    [] op = "smap" -> [f EXCEPT ![4] = [i \in DOMAIN @ |-> IF @[i] = a[1] THEN a[2] ELSE @[i]]]
    [] op = "trim" -> [f EXCEPT ![4] = IF @ = <<>> THEN @ ELSE Times(32, IF a[1] = 3 THEN a[2] ELSE 0) \o @ \o Times(32, IF a[1] = 2 THEN a[3] ELSE 0)]
    [] op = "many" -> [f EXCEPT ![4] = Joined(a[2], Pats(a[4], a[3]), Times(a[5], a[1]))]
    [] op = "tile" -> [f EXCEPT ![3] = Joined(a[1], Pats(a[3], a[2]), <<a[4]>>)]
    [] op = "retile" -> [f EXCEPT ![a[1]] = Swapped(@, a[2], SubSeq(a, 3, Len(a)))]
    [] op = "twin" -> [f EXCEPT ![5] = CASE a[1] = 0 -> [f[4] EXCEPT ![a[2] + 1] = a[3]] [] a[1] = 1 -> f[4] \o <<a[3]>>
                                         [] a[1] = 2 -> SubSeq(f[4], 1, Len(f[4]) - 1) [] OTHER -> f[4]]
    [] OTHER -> f
Do(op, a) == \E o \in LargeApply(op, st, <<a>>) :
               /\ st' = o.st
               /\ flat' = IF o.r.k = "ok" THEN Plain(op, flat, a) ELSE flat
               /\ k' = k + 1
               /\ Emit(st, op, <<a>>, o)
On(op) == op \in Ops /\ k < MaxSteps
ArrS == On("arr") /\ \E s \in 1..2, t \in Types, n \in Counts : Do("arr", <<s, t, n>>)
FillA == On("fill") /\ \E s \in 1..2 : st[s].n > 0 /\ Do("fill", <<s, s>>)
CopyA == On("copy") /\ \E s, d \in 1..2, i, j \in Poses, n \in Counts : st[s].n > 0 /\ st[d].n > 0 /\ Do("copy", <<s, i, d, j, n>>)
BlockA == On("block") /\ \E s, d \in 1..2, i, j \in Poses, n \in Counts : st[s].n > 0 /\ st[d].n > 0 /\ Do("block", <<s, i, d, j, n>>)
ClearA == On("clear") /\ \E s \in 1..2, i \in Poses, n \in Counts : st[s].n > 0 /\ Do("clear", <<s, i, n>>)
SetA == On("setByte") /\ \E s \in 1..2, i \in Poses : st[s].n > 0 /\ Do("setByte", <<s, i, 200>>)
BuildA == On("app") /\ (\/ \E n \in Counts : Do("app", <<5, n>>) \/ Do("rep", <<65, n>>) \/ Do("len", <<n>>)
                        \/ \E i \in Poses, n \in Counts : Do("ins", <<i, 9, n>>) \/ Do("rem", <<i, n>>) \/ Do("map", <<i, n, 65, 38>>) \/ Do("cut", <<i, n>>)
                        \/ \E n \in Counts : Do("ensure", <<n>>)
                        \/ Do("str", <<0>>))
BoxA == On("boxSet") /\ \E i \in Poses \cup {-1} :
          st[1].n > 0 /\ (Do("boxSet", <<1, i, 65>>) \/ Do("boxGet", <<1, i>>) \/ Do("getByte", <<1, i>>) \/ Do("load", <<1, 7>>))
BaseA == On("base") /\ (Do("str", <<0>>) \/ \E n \in Counts : Do("app", <<5, n>>) \/ Do("rep", <<65, n>>))
StrA == On("sub") /\ (\/ \E i \in Poses, n \in Counts : Do("sub", <<i, n>>) \/ Do("srem", <<i, n>>) \/ Do("sins", <<i, 3, n>>)
                      \/ \E x \in 0..1, n \in Counts : Do("pad", <<x, n, 66>>)
                      \/ Do("scat", <<0>>))
MarkA == On("mark") /\ \E i \in Poses, x \in {200, 300} : i <= st[4].n /\ Do("mark", <<i, x, 2>>)
FindA == On("find") /\ Searchable(st[4].c) /\
           (\/ \E m \in 0..5, x \in {200, 300}, i \in Poses, n \in Counts : Do("find", <<m, x, i, n>>)
            \/ \E x \in {200, 300, Pat(5, 0)}, n \in 1..2 : Do("has", <<x, n>>))
CaseA == On("case") /\ (\E u \in 0..1 : Do("case", <<u>>)) /\ st[4].c.k # "case"
ManyA == On("many") /\ (
  \/ \E kind \in 0..2, i, n \in Counts : n > 0 /\ Do("many", <<kind, i, n, 3, 200>>)
  \/ \E i, n \in Counts : i > 0 /\ n > 0 /\ Do("tile", <<i, n, 3, 200>>)
  \/ \E s \in 3..4, new \in {<<>>, <<201>>, <<201, 202, 203>>} : st[s].c.k = "tile" /\ st[s].n > 0 /\ st[s].c.sep = <<200>> /\ Do("retile", <<s, 200>> \o new)
  \/ (st[3].c.k = "tile" /\ st[3].n > 0 /\ st[3].c.sep = <<200>> /\ Do("count", <<200>>)))
TwinA == On("twin") /\ (
  \/ \E i \in Poses, x \in {34, 65, 97, 300} : i < st[4].n /\ Do("twin", <<0, i, x>>)
  \/ Do("twin", <<1, 0, 65>>)
  \/ (st[4].n > 0 /\ Do("twin", <<2, 0, 0>>))
  \/ Do("twin", <<3, 0, 0>>)
  \/ Do("cmp", <<0>>))
MapA == On("smap") /\ (
  \/ \E x, y \in {200, 201, Pat(5, 1)} : Do("smap", <<x, y>>)
  \/ \E m \in 1..3, x, y \in 0..1 : Do("trim", <<m, x, y>>))
WalkA == On("walk") /\ st[4].n > 0 /\ Do("walk", <<0, st[4].n - 1>>)
HexA == /\ On("hex")
        /\ st[1].t = 5
        /\ \E i \in Poses, n \in Counts :
             IF n = 0 THEN Do("word", <<1, i>>)
             ELSE Do("hex", <<1, i, n>> \o (IF Within(st[1].n, i, n) THEN <<0, 3 * n - 2>> ELSE <<>>))
FmtA == On("fmt") /\ \E s \in 3..4, m \in 1..2 : st[s].n > 0 /\ Do("fmt", <<s, m, 0, st[s].n - 1>>)
SeekA == On("seek") /\ \E n \in Counts, i, j \in Poses, b \in Poses, m \in Counts : i < n /\ j < n /\ Do("seek", <<n, i, j, b, m>>)
PeekA == On("peek") /\ \E s \in Slots : st[s].n > 0 /\ Do("peek", <<s, 0, st[s].n - 1, st[s].n \div 2>>)
Next == ArrS \/ FillA \/ CopyA \/ BlockA \/ ClearA \/ SetA \/ BuildA \/ StrA \/ PeekA
        \/ BoxA \/ BaseA \/ MarkA \/ FindA \/ CaseA \/ ManyA \/ TwinA \/ MapA \/ WalkA \/ HexA \/ FmtA \/ SeekA
Spec == Init /\ [][Next]_vars
Agree == \A s \in Slots : Len(flat[s]) = st[s].n /\ \A p \in 1..st[s].n : flat[s][p] = At(st[s].c, p - 1)
(* what searching the composed content finds is what looking at every position finds *)
Finds == \A s \in 3..4 : Searchable(st[s].c) =>
           \A x \in {200, 300, Pat(3, 1)}, lo \in {0, 1, 3} : \A hi \in {st[s].n, st[s].n - 1, 4, lo + 2} : (lo <= hi /\ hi <= st[s].n) =>
             LET all == {p \in lo..(hi - 1) : flat[s][p + 1] = x}
                 runs == {p \in lo..(hi - 2) : flat[s][p + 1] = x /\ flat[s][p + 2] = x + 1}
             IN /\ FirstIn(st[s].c, x, lo, hi) = Least(all) /\ LastIn(st[s].c, x, lo, hi) = Greatest(all)
                /\ FirstRun(st[s].c, x, 2, lo, hi) = Least(runs) /\ LastRun(st[s].c, x, 2, lo, hi) = Greatest(runs)
(* where two related texts part *)
Parts == Twins(st) =>
           Parting(st) = LET m == Min2(st[4].n, st[5].n)
                             d == {p \in 0..(m - 1) : flat[4][p + 1] # flat[5][p + 1]} IN IF d = {} THEN m ELSE Least(d)
=============================================================================
