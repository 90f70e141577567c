------------------------------- MODULE Events -------------------------------
(* Vocabulary shared by the specifications.  A call is <<op, args>> with args a sequence of integer sequences; an
   outcome of a call in a state is [r |-> result, s |-> observation, st |-> next state].                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == <<-1>>                                  \* a null reference, as argument or result

Ok(v)     == [k |-> "ok", x |-> "", v |-> v]
Throw(x)  == [k |-> "throw", x |-> x, v |-> <<>>]
Reject    == Throw("*")                         \* some library exception; which one is left open

Bool(b) == IF b THEN 1 ELSE 0
One(n) == <<n>>                                 \* a group holding one integer

ResultMatches(spec, seen) ==
  /\ seen.k = spec.k
  /\ spec.k = "ok" => seen.v = spec.v
  /\ spec.k = "throw" => spec.x = "*" \/ seen.x = spec.x

(* The states an event leads to, given the set of outcomes the specification allows for its call. *)
Explained(outcomes, e) ==
  { o.st : o \in { p \in outcomes : ResultMatches(p.r, e.r) /\ p.s = e.s } }

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Range(s) == { s[i] : i \in DOMAIN s }
Rep(x, n) == [i \in 1..n |-> x]
Slice(s, from, len) == SubSeq(s, from + 1, from + len)      \* zero based, length
=============================================================================
