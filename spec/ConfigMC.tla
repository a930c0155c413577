------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config, Json
SmallOpts == {0, 1, 2} \X {1, 2}
\* every way of writing and leaving out the options of the global section and one layer
WideOpts == ({0} \X (1..4)) \cup ({1} \X (1..6))
Say == spoilt \/ cut <= layers \/ PrintT("@@" \o ToJson([written |-> written, order |-> order, syntax |-> syntax]))
=============================================================================
