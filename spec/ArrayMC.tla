------------------------------- MODULE ArrayMC -------------------------------
EXTENDS ArrayMem, MCEmit
CONSTANTS Group,            \* which operations the model explores: "geometry", "block", "boxed", "raw", "search"
          Shapes,           \* set of <<type, <<d1, d2, d3>>>>
          Wraps,            \* set of <<type, dims, ext, offset>>
          Values,           \* set of <<type, bytes>>: written into arrays
          Boxes,            \* boxed values for setValue
          Idx, Nums         \* index values, and counts / offsets
VARIABLE st
Init == st = ArrInit /\ EmitInit(st)
Do(op, a) == \E o \in ArrApply(op, st, a) : st' = o.st /\ Emit(st, op, a, o)
H == {h \in 1..NH : Exists(st, h)}
Tuples == {<<i, j, k>> : i, j, k \in Idx}
Defined(t) == t
Cells(x) == {w \in Values : w[1] = x.type}

NewA    == \E h \in 1..NH : h \notin H /\ \E s \in Shapes : Do("new", <<<<h, s[1]>>, s[2]>>)
WrapA   == \E h \in 1..NH : h \notin H /\ \E w \in Wraps : Do("wrap", <<<<h, w[1], w[3], w[4]>>, w[2]>>)
DeleteA == \E h \in H : Do("delete", <<<<h>>>>)
PokeA   == \E h \in H : \E t \in Tuples : \E v \in Cells(st.arr[h]) : Do("poke", <<<<h>>, t, v[2]>>)
PeekA   == \E h \in H : \E t \in Tuples : Do("peek", <<<<h>>, t>>)
ShapeA  == \E h \in H : Do("shape", <<<<h>>>>)
DimA    == \E h \in H : \E k \in -1..3 : Do("dim", <<<<h, k>>>>)
InitA   == \E h \in H : ArrayLen(st.arr[h]) > 0 /\ IsZero(st.mem[st.arr[h].blk]) /\
             Do("init", <<<<h>>, [i \in 1..Bytes(st, st.arr[h]) |-> i]>>)
CopyA   == \E hs, hd \in 0..NH : \E si, di, n \in Nums : Do("copy", <<<<hs, si, hd, di, n>>>>)
Copy3A  == \E hs, hd \in 0..NH : \E n \in Nums : Do("copy3", <<<<hs, hd, n>>>>)
CopyToA == \E hs \in H : \E hd \in 0..NH : \E i \in Nums : Do("copyTo", <<<<hs, hd, i>>>>)
ClearA  == \E h \in 0..NH : \E i, n \in Nums : Do("clear", <<<<h, i, n>>>>)
IndexOfA == \E h \in 0..NH : \E id \in 0..Len(Objects) : \E i, n \in Nums : Do("indexOf", <<<<h, id, i, n>>>>)
(* a box stored as a reference becomes an element no test can name: reference arrays get the named objects only *)
SetA    == \E h \in H : \E t \in Tuples : \E v \in Boxes :
             (st.arr[h].type = ObjectT => v = Null \/ IsObj(v)) /\ Do("setValue", <<<<h>>, v, t>>)
GetA    == \E h \in H : \E t \in Tuples : Do("getValue", <<<<h>>, t>>)
BlockA  == \E hs, hd \in 0..NH : \E so, do, n \in Nums : Do("blockCopy", <<<<hs, so, hd, do, n>>>>)
ByteA   == \E h \in 0..NH : Do("byteLength", <<<<h>>>>)
GetByteA == \E h \in 0..NH : \E i \in Nums : Do("getByte", <<<<h, i>>>>)
SetByteA == \E h \in 0..NH : \E i \in Nums : Do("setByte", <<<<h, i, 9>>>>)

Next == \/ NewA \/ WrapA \/ DeleteA
        \/ Group = "geometry" /\ (PokeA \/ PeekA \/ ShapeA \/ DimA)
        \/ Group = "block" /\ (InitA \/ CopyA \/ Copy3A \/ CopyToA \/ ClearA)
        \/ Group = "search" /\ (PokeA \/ IndexOfA)
        \/ Group = "boxed" /\ (SetA \/ GetA)
        \/ Group = "raw" /\ (InitA \/ BlockA \/ ByteA \/ GetByteA \/ SetByteA)
Spec == Init /\ [][Next]_st

(* every array has exactly the memory of its elements *)
MemoryFits == \A h \in 1..NH : LET x == st.arr[h] IN
  IF x.type = 0 THEN st.mem[h] = <<>>
  ELSE IF x.blk = h THEN Len(st.mem[h]) = Bytes(st, x)
  ELSE st.mem[h] = <<>> /\ x.off + Bytes(st, x) <= ExtLen
(* index tuples and element numbers correspond one to one, row-major *)
RowMajor == \A h \in H :
  LET x == st.arr[h]
      inside == {t \in {<<i, j, k>> : i \in -1..3, j \in -1..3, k \in -1..3} : Flat(x, t) # -1}
      before(s, t) == \/ s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2]) \/ (s[1] = t[1] /\ s[2] = t[2] /\ s[3] < t[3])
  IN /\ {Flat(x, t) : t \in inside} = 0..(ArrayLen(x) - 1)
     /\ \A s, t \in inside : s # t => (Flat(x, s) < Flat(x, t) <=> before(s, t))
(* a step changes the memory of at most one block, apart from creating and destroying arrays *)
OneBlock == [][(st'.arr = st.arr) => Cardinality({b \in DOMAIN st.mem : st'.mem[b] # st.mem[b]}) <= 1]_st
(* writing an element changes that element alone *)
OneCell == [][(st'.arr = st.arr /\ Group \in {"geometry", "boxed"}) =>
     \A h \in 1..NH : LET x == st.arr[h] IN x.type # 0 /\ x.blk = h =>
        Cardinality({k \in 0..(ArrayLen(x) - 1) : Cell(st, x, k) # Cell(st', x, k)}) <= 1]_st
(* destroying a wrapper leaves the wrapped memory alone *)
ExternalSurvives == [][\A h \in 1..NH : st.arr[h].type # 0 /\ st'.arr[h].type = 0 =>
                         \A b \in (NH+1)..(NH+NE) : st'.mem[b] = st.mem[b]]_st
(* laws of the functional core, checked in every state *)
CopyLaws == \A h \in H : LET x == st.arr[h] IN
   (Len(x.dims) = 1) =>
   \A i, j, n \in 0..3 : \A o \in CopyRange(st, h, i, h, j, n) :
      /\ (o.r.k = "ok") = (i + n <= ArrayLen(x) /\ j + n <= ArrayLen(x))
      /\ o.r.k = "ok" => \A k \in 0..(ArrayLen(x) - 1) :
           Cell(o.st, x, k) = IF k \in j..(j + n - 1) THEN Cell(st, x, i + k - j) ELSE Cell(st, x, k)
=============================================================================
