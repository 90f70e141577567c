------------------------------- MODULE MCEmit -------------------------------
(* Prints every transition TLC takes, so that the explored behaviours can be replayed in the real library. *)
EXTENDS Sequences, TLC, Json, IOUtils
Emitting == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
Emit(from, op, a, o) ==
  Emitting => PrintT("@T " \o ToJson(<<from>>) \o "@" \o op \o "@" \o ToJson(a) \o "@" \o ToJson(<<o.st>>))
EmitInit(st) == Emitting => PrintT("@I " \o ToJson(<<st>>))
=============================================================================
