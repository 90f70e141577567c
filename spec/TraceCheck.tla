----------------------------- MODULE TraceCheck -----------------------------
(* Conformance of recorded behaviour.  The driver performs operations on the real library and records one event
   per operation; this module replays the recorded events against a specification.  Explain(st, e) is the set of
   specification states reachable from st by a step that explains event e completely: operation, arguments, result
   and observed state.  An event without explanation is rejected; the rest of its session is skipped, because the
   state of the implementation is then unknown, and the check resumes at the next "reset" event.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Initial,           \* specification state after a "reset" event
          Explain(_, _)      \* (state, event) -> set of successor states

VARIABLES at,                \* index of the next event
          state,             \* specification state
          live               \* FALSE from a rejected event to the next reset

Trace == ndJsonDeserialize(IOEnv.TRACE)

TInit == at = 1 /\ state = Initial /\ live = TRUE

Finished == at > Len(Trace)

TNext ==
  /\ ~Finished
  /\ at' = at + 1
  /\ LET e == Trace[at] IN
       IF e.op = "reset" THEN state' = Initial /\ live' = TRUE
       ELSE IF ~live THEN UNCHANGED <<state, live>>
       ELSE LET next == Explain(state, e) IN
            IF next = {} THEN /\ PrintT(<<"REJECT", at>>)
                              /\ live' = FALSE /\ state' = state
            ELSE live' = TRUE /\ state' \in next
  /\ (at = Len(Trace) => PrintT(<<"DONE", at>>))

TSpec == TInit /\ [][TNext]_<<at, state, live>>
=============================================================================
