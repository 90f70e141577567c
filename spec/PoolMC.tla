------------------------------- MODULE PoolMC -------------------------------
EXTENDS Pool, MCEmit
CONSTANTS Sizes, MaxBlocks
VARIABLE st

Offsets == {8 * k : k \in 0..(PoolSize \div 8)}
(* the implementation is free to choose the place; the model used to generate tests bumps upwards *)
Bumped(s) == \A i \in DOMAIN s.blocks :
               s.blocks[i][1] = (IF i = 1 THEN 0 ELSE s.blocks[i-1][1] + Aligned(s.blocks[i-1][2]))

Init == st = PoolInit /\ EmitInit(st)
Do(op, a) == \E o \in Apply(op, st, a, Offsets) :
               /\ st' = o.st
               /\ (st.ready \/ op = "setup") /\ Bumped(st) /\ Bumped(o.st) => Emit(st, op, a, o)
SetupA   == Do("setup", <<>>)
AllocA   == \E n \in Sizes : Do("alloc", <<<<0, n>>>>)
AllocHuge == \E hi \in {1, 4096, 16777216} : Do("alloc", <<<<hi, 0>>>>)
FreeA    == \E k \in 1..Len(st.blocks) : Do("free", <<<<k - 1>>>>)
Next == SetupA \/ AllocA \/ AllocHuge \/ FreeA
Spec == Init /\ [][Next]_st

Bound == Len(st.blocks) <= MaxBlocks
InvDisjoint == BlocksDisjoint(st)
InvAligned == BlocksAligned(st)
InvNotOversold == NeverOversold(st)
(* fitting requests can always be served in the exact-fit sense: a bump allocator never strands space *)
InvServable == st.ready /\ Bumped(st)
               => \A n \in Sizes : Fits(st, n) => Placeable(st, Used(st), n)
NothingTakenBack == [][st.ready => \/ st'.blocks = <<>>
                                   \/ SubSeq(st'.blocks, 1, Len(st.blocks)) = st.blocks]_st
=============================================================================
