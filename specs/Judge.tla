------------------------------- MODULE Judge -------------------------------
(* Traces recorded from the implementation, judged event by event.  The module that extends this one defines
   Clause(ev): "ok" or the name of the clause of the specification that the event breaks. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
=============================================================================
