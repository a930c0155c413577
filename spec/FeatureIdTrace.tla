--------------------------- MODULE FeatureIdTrace ---------------------------
(* Checks recorded answers against the laws of FeatureId. *)
EXTENDS FeatureId, IOUtils
VARIABLE i
Rec == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ i = 1
TraceNext == /\ i <= Len(Rec) /\ i' = i + 1
             /\ Rec[i].ok
             /\ Answer([seed |-> Rec[i].seed, bits |-> Rec[i].bits, ns |-> Rec[i].ns, id |-> Rec[i].id, fmt |-> Rec[i].fmt],
                       Rec[i].h, Rec[i].x)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, i>>
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1]))
=============================================================================
