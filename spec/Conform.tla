------------------------------- MODULE Conform -------------------------------
(* Runs the Oracle over the recorded calls in the file named by RECS. The     *)
(* behaviours step through the records, in W shards; a record that does not   *)
(* conform is printed and passed.                                             *)
EXTENDS Oracle, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 8

VARIABLES w, i

Init == w \in 1..W /\ i = w
Next == /\ i <= N
        /\ i' = i + W
        /\ w' = w
        /\ IF Conforms(Recs[i]) THEN TRUE ELSE PrintT(<<"NONCONFORMING", Recs[i].i>>)
Spec == Init /\ [][Next]_<<w, i>>
=============================================================================
