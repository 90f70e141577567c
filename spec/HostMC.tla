------------------------------- MODULE HostMC -------------------------------
(* Every program of at most MaxLen instructions over a small instruction set, run one after another. *)
EXTENDS Host, MCEmit
CONSTANTS MaxLen, Instructions
VARIABLE st

Said == <<63>>
Messages == [k \in 1..15 |-> <<70 + k>>]
(* wrapper objects live in the same pool, so a program allocates its raw blocks before it makes any *)
WellFormed(p) == /\ \A i, j \in DOMAIN p : (i < j /\ p[j][1] = 1) => p[i][1] < 4
                 /\ \A j \in DOMAIN p : /\ p[j][1] \in {16, 17} => \E i \in 1..(j - 1) : p[i][1] = 15
                                        /\ p[j][1] \in {19, 20, 21, 29, 30} => \E i \in 1..(j - 1) : p[i][1] = 18
Programs == {p \in UNION {[1..n -> Instructions] : n \in 0..MaxLen} : WellFormed(p)}
(* the reads a bump allocator would report *)
RECURSIVE Guess(_, _, _)
Guess(m, prog, acc) ==
  IF prog = <<>> THEN acc
  ELSE LET ins == Head(prog)
           r == IF ins[1] = 1 THEN Append(m.reads, IF Fits(m.pool, ins[2]) THEN Used(m.pool) ELSE -1) ELSE m.reads
           n == Exec(m, ins, Messages, r, Said)
       IN Guess(n, Tail(prog), n.reads)
Init == st = HostInit /\ EmitInit(st)
RunA == \E p \in Programs :
          \E o \in HostApply("run", st, p, Messages, Guess(Start(st), p, <<>>), Said) :
            /\ st' = o.st
            /\ Emit(st, "run", p, o)
SendA == \E t \in {<<>>, <<65>>, Null} : \E o \in HostApply("send", st, <<t>>, Messages, <<>>, <<>>) :
            st' = o.st /\ Emit(st, "send", <<t>>, o)
GetA == \E i \in -1..4 : \E o \in HostApply("get", st, <<<<i>>>>, Messages, <<>>, <<>>) :
            st' = o.st /\ Emit(st, "get", <<<<i>>>>, o)
Next == RunA \/ SendA \/ GetA
Spec == Init /\ [][Next]_st
DataKept == Len(st.data) = DataLen
Thrown(p) == LET m == ExecAll(Start(st), p, Messages, Guess(Start(st), p, <<>>), Said) IN m.stopped
(* an exception ends the program and its message is the last line of output; nothing after it happens *)
ExceptionIsReported ==
  \A p \in Programs : \A o \in Run(st, p, Messages, Guess(Start(st), p, <<>>), Said) :
     Thrown(p) => /\ Len(o.r.v) > 2
                  /\ \E k \in 1..Len(p) : /\ p[k][1] \in {2, 6, 13, 16, 17, 20, 23, 24, 28, 29}
                                          /\ o = CHOOSE q \in Run(st, SubSeq(p, 1, k), Messages, o.r.v[2], Said) : TRUE
NormalReturn == \A p \in Programs : \A o \in Run(st, p, Messages, Guess(Start(st), p, <<>>), Said) : o.r.v[1] = <<1, 0>>
=============================================================================
