----------------------------- MODULE ProgressMC -----------------------------
(* Bounds for the exhaustive check of Progress. *)
EXTENDS Progress
MCPeriods == {<<"add", 0, 1>>, <<"add", 1, 1>>, <<"add", 2, 1>>, <<"add", 3, 1>>, <<"add", 7, 1>>, <<"mul", 3, 2>>, <<"mul", 2, 1>>,
              <<"mul", 5, 4>>, <<"mul", 1, 1>>, <<"mul", 1, 2>>, <<"mul", 3, 1>>, <<"mul", 10, 1>>}
MCFeats == {0, 2}
=============================================================================
