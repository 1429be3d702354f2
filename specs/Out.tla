------------------------------- MODULE Out -------------------------------
(* How the specifications hand values to the conformance harness: one JSON  *)
(* document per line.  Emit is TRUE, so it can stand in any formula.        *)
EXTENDS Integers, Sequences, TLC, Json, CSV

Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, "out.ndjson")
EmitTo(n, x) == CSVWrite("%1$s", <<ToJson(x)>>, "out" \o ToString(n) \o ".ndjson")
Data == JsonDeserialize("data.json")
===========================================================================
