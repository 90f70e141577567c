------------------------------ MODULE ArrayMem ------------------------------
(* Arrays (Array, Buffer): handles 1..NH name arrays, each with an element type, one to three dimensions and a place in
   a block of memory.  Blocks 1..NH belong to the array of that handle; blocks NH+1..NH+NE are external memory that
   arrays can be wrapped around.  Primitive elements occupy Size[type] bytes; object and string elements one cell that
   holds the identity of the object (0 = null).                                                                    *)
EXTENDS Events, Words

CONSTANTS NH, NE, ExtLen,
          Objects          \* sequence of <<type, equality class>>: the objects an object array can hold

Size == <<1, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 1, 8, 8, 1>>        \* by type code; references are one cell
ByteSize == <<8, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 8, 8, 8>>    \* what they occupy in memory
ObjectT == 1   BooleanT == 2   CharT == 3   SingleT == 12   DoubleT == 13   DateTimeT == 15   TimeSpanT == 16   StringT == 17
IntegerTypes == 4..11
References == {ObjectT, StringT}
SignedTypes == {4, 6, 8, 10}

None == [type |-> 0, dims |-> <<>>, blk |-> 0, off |-> 0]
ArrInit == [arr |-> [h \in 1..NH |-> None],
            mem |-> [b \in 1..(NH + NE) |-> IF b <= NH THEN <<>> ELSE Zero(ExtLen)]]

Dims(d) == IF d[2] = -1 THEN <<d[1]>> ELSE IF d[3] = -1 THEN <<d[1], d[2]>> ELSE d
MaxInt == 2147483647
(* number of elements, provided their bytes can be counted in 31 bits; -1 otherwise *)
Count(type, dims) ==
  LET lim == MaxInt \div ByteSize[type]
      f[i \in 0..Len(dims)] ==
         IF i = 0 THEN 1
         ELSE IF f[i-1] = -1 THEN -1
         ELSE IF f[i-1] = 0 \/ dims[i] = 0 THEN 0
         ELSE IF dims[i] > lim \div f[i-1] THEN -1
         ELSE f[i-1] * dims[i]
      prefixZero == \E i \in 1..Len(dims) : dims[i] = 0
  IN IF \E i \in 1..Len(dims) : dims[i] < 0 THEN -1 ELSE f[Len(dims)]
(* an empty array whose other dimensions alone would be unrepresentable may be accepted or refused *)
Doubtful(type, dims) == Count(type, dims) = 0 /\ \E i \in 1..Len(dims) : dims[i] > 32767

ArrayLen(x) == Count(x.type, x.dims)
(* zero based element number of an index tuple <<i1, i2, i3>> (-1 = not given), or -1 *)
Flat(x, idx) ==
  LET n == Len(x.dims) IN
  IF (\E k \in 1..n : idx[k] < 0 \/ idx[k] >= x.dims[k]) \/ (\E k \in (n+1)..3 : idx[k] # -1) THEN -1
  ELSE CASE n = 1 -> idx[1]
         [] n = 2 -> idx[1] * x.dims[2] + idx[2]
         [] n = 3 -> (idx[1] * x.dims[2] + idx[2]) * x.dims[3] + idx[3]

Bytes(st, x) == ArrayLen(x) * Size[x.type]
Read(st, x, from, n) == SubSeq(st.mem[x.blk], x.off + from + 1, x.off + from + n)
Write(st, x, from, w) ==
  [st EXCEPT !.mem[x.blk] = [i \in 1..Len(@) |-> LET k == i - x.off - from IN IF k \in 1..Len(w) THEN w[k] ELSE @[i]]]
Cell(st, x, k) == Read(st, x, k * Size[x.type], Size[x.type])
SetCell(st, x, k, w) == Write(st, x, k * Size[x.type], w)

Exists(st, h) == h > 0 /\ st.arr[h].type # 0
Fail(st, x) == { [r |-> Throw(x), st |-> st] }
Refuse(st) == { [r |-> Reject, st |-> st] }
Good(st, v) == { [r |-> Ok(v), st |-> st] }

(* ------------------------------------------------------------ geometry *)
New(st, h, type, d) ==
  LET dims == Dims(d)  n == Count(type, dims) IN
  (IF n = -1 THEN {} ELSE
    { [r |-> Ok(<<>>), st |-> [st EXCEPT !.arr[h] = [type |-> type, dims |-> dims, blk |-> h, off |-> 0],
                                         !.mem[h] = Zero(n * Size[type])]] })
  \cup (IF n = -1 \/ Doubtful(type, dims) THEN
    { [r |-> Throw("Overflow"), st |-> [st EXCEPT !.arr[h] = None, !.mem[h] = <<>>]] } ELSE {})
Wrap(st, h, type, d, b, off) ==
  LET dims == Dims(d)  n == Count(type, dims) IN
  (IF n = -1 THEN {} ELSE
    { [r |-> Ok(<<>>), st |-> [st EXCEPT !.arr[h] = [type |-> type, dims |-> dims, blk |-> NH + b, off |-> off],
                                         !.mem[h] = <<>>]] })
  \cup (IF n = -1 \/ Doubtful(type, dims) THEN
    { [r |-> Throw("Overflow"), st |-> [st EXCEPT !.arr[h] = None, !.mem[h] = <<>>]] } ELSE {})
Delete(st, h) == { [r |-> Ok(<<>>), st |-> [st EXCEPT !.arr[h] = None, !.mem[h] = <<>>]] }
Poke(st, h, idx, w) ==
  LET x == st.arr[h]  k == Flat(x, idx) IN
  IF k = -1 THEN Fail(st, "IndexOutOfRange")
  ELSE { [r |-> Ok(<<>>), st |-> SetCell(st, x, k, w)] }
Peek(st, h, idx) ==
  LET x == st.arr[h]  k == Flat(x, idx) IN
  IF k = -1 THEN Fail(st, "IndexOutOfRange") ELSE Good(st, <<Cell(st, x, k)>>)
Lengths(st, h) ==       \* rank, length, element type, is the object itself of object type
  LET x == st.arr[h] IN Good(st, << <<Len(x.dims), ArrayLen(x), x.type, 1>> >>)
Dimension(st, h, k) ==  \* length, lower and upper bound of a dimension
  LET x == st.arr[h] IN
  IF k < 0 \/ k >= Len(x.dims) THEN Fail(st, "IndexOutOfRange")
  ELSE Good(st, << <<x.dims[k+1], 0, x.dims[k+1] - 1>> >>)
Init0(st, h, w) == LET x == st.arr[h] IN { [r |-> Ok(<<>>), st |-> Write(st, x, 0, w)] }
ExtWrite(st, b, from, w) ==
  { [r |-> Ok(<<>>), st |-> Write(st, [blk |-> NH + b, off |-> 0], from, w)] }

(* ------------------------------------------------------- block operations *)
InRange(n, from, count) == from >= 0 /\ count >= 0 /\ from <= n /\ count <= n - from
CopyRange(st, hs, si, hd, di, n) ==
  IF ~Exists(st, hs) \/ ~Exists(st, hd) THEN Refuse(st)
  ELSE LET s == st.arr[hs]  d == st.arr[hd]  z == Size[s.type] IN
       IF ~InRange(ArrayLen(s), si, n) \/ ~InRange(ArrayLen(d), di, n) \/ Len(s.dims) # Len(d.dims) \/ s.type # d.type
       THEN Refuse(st)
       ELSE { [r |-> Ok(<<>>), st |-> Write(st, d, di * z, Read(st, s, si * z, n * z))] }
CopyTo(st, hs, hd, i) ==
  IF ~Exists(st, hd) \/ Len(st.arr[hd].dims) # 1 THEN Refuse(st)
  ELSE CopyRange(st, hs, 0, hd, i, ArrayLen(st.arr[hs]))
Clear(st, h, i, n) ==
  IF ~Exists(st, h) THEN Refuse(st)
  ELSE LET x == st.arr[h] IN
       IF Len(x.dims) # 1 \/ ~InRange(ArrayLen(x), i, n) THEN Refuse(st)
       ELSE { [r |-> Ok(<<>>), st |-> Write(st, x, i * Size[x.type], Zero(n * Size[x.type]))] }
SameObject(a, b) == IF a = 0 \/ b = 0 THEN a = b ELSE Objects[a][2] = Objects[b][2]
Find(st, h, id, from, count) ==
  LET x == st.arr[h]
      hit == {k \in from..(from + count - 1) : SameObject(Cell(st, x, k)[1], id)}
  IN Good(st, << <<IF hit = {} THEN -1 ELSE CHOOSE k \in hit : \A j \in hit : k <= j>> >>)
IndexOf(st, h, id, from, count) ==
  IF ~Exists(st, h) THEN Refuse(st)
  ELSE LET x == st.arr[h]  n == ArrayLen(x)
           rest == count < 0     \* -1: up to the end
       IN IF Len(x.dims) # 1 \/ x.type \notin References THEN Refuse(st)
          ELSE IF ~InRange(n, from, IF rest THEN 0 ELSE count) THEN Refuse(st)
          ELSE Find(st, h, id, from, IF rest THEN n - from ELSE count)
               \cup (IF count < -1 THEN Refuse(st) ELSE {})

(* ----------------------------------------------------------- boxed access *)
(* a boxed value is <<type>> \o bytes, an object <<-2, id>> *)
IsObj(v) == v[1] = -2
CanConvert(from, to) ==
  \/ from = to
  \/ to = BooleanT /\ from \in IntegerTypes
  \/ to = CharT /\ from \in IntegerTypes
  \/ to \in IntegerTypes /\ from \in IntegerTypes \cup {BooleanT, CharT}
  \/ to \in {SingleT, DoubleT} /\ from \in IntegerTypes \cup {CharT}
Convert(from, w, to) ==
  IF from = to THEN w
  ELSE CASE to = BooleanT -> <<Bool(~IsZero(w))>>
         [] to = SingleT  -> SingleOf(w, from \in SignedTypes)
         [] to = DoubleT  -> DoubleOf(w, from \in SignedTypes)
         [] OTHER -> Resize(w, Size[to], from \in SignedTypes)
Accepts(x, v) == CASE x.type = ObjectT -> IsObj(v)
                   [] x.type = StringT -> IsObj(v) /\ Objects[v[2]][1] = StringT
                   [] OTHER -> ~IsObj(v) /\ CanConvert(v[1], x.type)
SetValue(st, h, v, idx) ==
  LET x == st.arr[h]  k == Flat(x, idx)  faults == {i \in 1..3 : (i = 1 /\ v = Null) \/ (i = 2 /\ k = -1) \/ (i = 3 /\ v # Null /\ ~Accepts(x, v))}
  IN IF Cardinality(faults) > 1 THEN Refuse(st)
     ELSE IF v = Null THEN Fail(st, "ArgumentNull")
     ELSE IF k = -1 THEN Fail(st, "IndexOutOfRange")
     ELSE IF ~Accepts(x, v) THEN Fail(st, "InvalidCast")
     ELSE { [r |-> Ok(<<>>), st |-> SetCell(st, x, k, IF x.type \in References THEN <<v[2]>> ELSE Convert(v[1], Tail(v), x.type))] }
GetValue(st, h, idx) ==
  LET x == st.arr[h]  k == Flat(x, idx) IN
  IF k = -1 THEN Fail(st, "IndexOutOfRange")
  ELSE Good(st, << IF x.type \in References THEN <<-2>> \o Cell(st, x, k) ELSE <<x.type>> \o Cell(st, x, k) >>)
(* index array: 1..3 indexes *)
Three(ix) == [i \in 1..3 |-> IF i <= Len(ix) THEN ix[i] ELSE -1]

(* ------------------------------------------------------------- raw bytes *)
Raw(x) == x.type \notin References /\ Len(x.dims) = 1
BlockCopy(st, hs, so, hd, do, n) ==
  IF ~Exists(st, hs) \/ ~Exists(st, hd) THEN Refuse(st)
  ELSE LET s == st.arr[hs]  d == st.arr[hd] IN
       IF ~Raw(s) \/ ~Raw(d) THEN Refuse(st)
       ELSE IF ~InRange(Bytes(st, s), so, n) \/ ~InRange(Bytes(st, d), do, n) THEN Refuse(st)
       ELSE { [r |-> Ok(<<>>), st |-> Write(st, d, do, Read(st, s, so, n))] }
ByteLength(st, h) ==
  IF ~Exists(st, h) THEN Refuse(st)
  ELSE IF ~Raw(st.arr[h]) THEN Refuse(st)
  ELSE Good(st, << <<Bytes(st, st.arr[h])>> >>)
GetByte(st, h, i) ==
  IF ~Exists(st, h) THEN Refuse(st)
  ELSE LET x == st.arr[h] IN
       IF ~Raw(x) \/ ~InRange(Bytes(st, x), i, 1) THEN Refuse(st) ELSE Good(st, <<Read(st, x, i, 1)>>)
SetByte(st, h, i, v) ==
  IF ~Exists(st, h) THEN Refuse(st)
  ELSE LET x == st.arr[h] IN
       IF ~Raw(x) \/ ~InRange(Bytes(st, x), i, 1) THEN Refuse(st)
       ELSE { [r |-> Ok(<<>>), st |-> Write(st, x, i, <<v>>)] }

Steps(op, st, a) ==
  CASE op = "new"    -> New(st, a[1][1], a[1][2], a[2])
    [] op = "wrap"   -> Wrap(st, a[1][1], a[1][2], a[2], a[1][3], a[1][4])
    [] op = "delete" -> Delete(st, a[1][1])
    [] op = "poke"   -> Poke(st, a[1][1], a[2], a[3])
    [] op = "peek"   -> Peek(st, a[1][1], a[2])
    [] op = "shape"  -> Lengths(st, a[1][1])
    [] op = "dim"    -> Dimension(st, a[1][1], a[1][2])
    [] op = "init"   -> Init0(st, a[1][1], a[2])
    [] op = "ext"    -> ExtWrite(st, a[1][1], a[1][2], a[2])
    [] op \in {"copy", "ccopy"} -> CopyRange(st, a[1][1], a[1][2], a[1][3], a[1][4], a[1][5])
    [] op = "copy3"  -> CopyRange(st, a[1][1], 0, a[1][2], 0, a[1][3])
    [] op = "copyTo" -> CopyTo(st, a[1][1], a[1][2], a[1][3])
    [] op = "clear"  -> Clear(st, a[1][1], a[1][2], a[1][3])
    [] op = "indexOf" -> IndexOf(st, a[1][1], a[1][2], a[1][3], a[1][4])
    [] op = "setValue" -> SetValue(st, a[1][1], a[2], a[3])
    [] op = "getValue" -> GetValue(st, a[1][1], a[2])
    [] op = "setValueAt" -> IF a[3] = Null \/ Len(a[3]) > 3 THEN Refuse(st) ELSE SetValue(st, a[1][1], a[2], Three(a[3]))
    [] op = "getValueAt" -> IF a[2] = Null THEN Fail(st, "ArgumentNull") ELSE IF Len(a[2]) > 3 THEN Refuse(st) ELSE GetValue(st, a[1][1], Three(a[2]))
    [] op = "blockCopy" -> BlockCopy(st, a[1][1], a[1][2], a[1][3], a[1][4], a[1][5])
    [] op = "byteLength" -> ByteLength(st, a[1][1])
    [] op = "getByte" -> GetByte(st, a[1][1], a[1][2])
    [] op = "setByte" -> SetByte(st, a[1][1], a[1][2], a[1][3])
    [] OTHER -> {}

(* after every operation all memory is observed *)
ArrApply(op, st, a) == { [r |-> o.r, st |-> o.st, s |-> o.st.mem] : o \in Steps(op, st, a) }
ArrExplain(st, e) == Explained(ArrApply(e.op, st, e.a), e)
=============================================================================
