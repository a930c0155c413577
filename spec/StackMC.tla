------------------------------ MODULE StackMC ------------------------------
(* Every stack within the bounds, printed for conformance. *)
EXTENDS Stack, Json
Say == stack = <<>> \/ PrintT("@@" \o ToJson([glob |-> glob, stack |-> stack]))
=============================================================================
