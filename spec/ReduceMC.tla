------------------------------ MODULE ReduceMC ------------------------------
(* Bounds for the exhaustive check of Reduce. *)
EXTENDS Reduce
MCParts == {<<>>, << <<1, 2>> >>, << <<1, 2>>, <<2, -3>> >>}
MCExs == {[hs |-> h, shared |-> IF h THEN s ELSE <<>>, actions |-> a] :
             h \in BOOLEAN, s \in MCParts,
             a \in ({<<p>> : p \in MCParts} \cup {<<p, q>> : p \in MCParts, q \in MCParts} \cup {<<p, << <<3, 1>> >>, p>> : p \in MCParts})}
ASSUME Local /\ EmptyShared /\ Symmetric
MCLabs == {[a |-> a, c |-> c, pn |-> p[1], pd |-> p[2]] : a \in 0..2, c \in {-1000000, 0}, p \in {<<1, 1>>, <<1, 4>>}}
=============================================================================
