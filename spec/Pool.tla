-------------------------------- MODULE Pool --------------------------------
(* The memory every translated program lives in (PlatformSupport): operator new hands out zero-filled, 8-aligned,
   pairwise disjoint blocks of a fixed pool; delete gives nothing back; PlatformSetup recycles the whole pool.
   Before the first PlatformSetup memory comes from the heap.  Offsets are relative to the first block after setup. *)
EXTENDS Events

CONSTANT PoolSize

Aligned(n) == ((n + 7) \div 8) * 8

Heap == [ready |-> FALSE, blocks |-> <<>>]
PoolInit == Heap

Used(st) == LET f[i \in 0..Len(st.blocks)] == IF i = 0 THEN 0 ELSE f[i-1] + Aligned(st.blocks[i][2]) IN f[Len(st.blocks)]
Remaining(st) == PoolSize - Used(st)

(* sizes arrive as <<hi, lo>> = hi * 2^20 + lo, so that sizes beyond any pool can be asked for *)
Size(a) == IF a[1] > 0 THEN PoolSize + 1 ELSE a[2]
Fits(st, n) == Aligned(n) <= Remaining(st)

Disjoint(b, c) == b[2] = 0 \/ c[2] = 0 \/ b[1] + b[2] <= c[1] \/ c[1] + c[2] <= b[1]
Span(blocks) == IF blocks = {} THEN 0
                ELSE LET lo == CHOOSE m \in {b[1] : b \in blocks} : \A b \in blocks : m <= b[1]
                         hi == CHOOSE m \in {b[1] + b[2] : b \in blocks} : \A b \in blocks : m >= b[1] + b[2]
                     IN hi - lo
Placeable(st, off, n) ==
  /\ off % 8 = 0
  /\ st.blocks = <<>> => off = 0
  /\ \A b \in Range(st.blocks) : Disjoint(<<off, n>>, b)
  /\ Span(Range(st.blocks) \cup {<<off, n>>}) <= PoolSize

(* result of an allocation: offset (-1 = null), address is 8-aligned, block is all zero *)
Allocate(st, n, offsets) ==
  IF ~st.ready THEN { [r |-> Ok(<<<<0, 1, 1>>>>), st |-> st] }
  ELSE IF ~Fits(st, n) THEN { [r |-> Ok(<<<<-1, 0, 0>>>>), st |-> st] }
  ELSE { [r |-> Ok(<<<<off, 1, 1>>>>), st |-> [st EXCEPT !.blocks = Append(@, <<off, n>>)]]
         : off \in {o \in offsets : Placeable(st, o, n)} }
Setup(st)  == { [r |-> Ok(<<>>), st |-> [ready |-> TRUE, blocks |-> <<>>]] }
(* delete of the k-th block handed out since the last setup (or of a heap block); null may be deleted too *)
Release(st) == { [r |-> Ok(<<>>), st |-> st] }

Steps(op, st, a, offsets) ==
  CASE op = "setup"  -> Setup(st)
    [] op \in {"alloc", "allocArr"} -> Allocate(st, Size(a[1]), offsets)
    [] op \in {"free", "freeArr"}  -> Release(st)
    [] OTHER -> {}
(* the observation after every step: number of bytes of live blocks that lost the pattern written into them *)
Apply(op, st, a, offsets) == { [r |-> o.r, st |-> o.st, s |-> <<<<0>>>>] : o \in Steps(op, st, a, offsets) }

PoolExplain(st, e) ==
  Explained(Apply(e.op, st, e.a, IF e.r.v = <<>> THEN {} ELSE {e.r.v[1][1]}), e)

------------------------------------------------------------------------------
(* what the statement promises, as invariants of the state *)
BlocksDisjoint(st) == \A i, j \in DOMAIN st.blocks : i # j => Disjoint(st.blocks[i], st.blocks[j])
BlocksAligned(st)  == \A b \in Range(st.blocks) : b[1] % 8 = 0
NeverOversold(st)  == Used(st) <= PoolSize
=============================================================================
