---------------------------- MODULE MCCallsPlay ----------------------------
(* MCCalls over the harness's own alphabet of calls, to be played.          *)
EXTENDS MCCalls, IOUtils
Alphabet == JsonDeserialize(IOEnv.CALLS)
GA == Alphabet.groups
OA == Alphabet.options
=============================================================================
