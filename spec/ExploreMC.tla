----------------------------- MODULE ExploreMC -----------------------------
(* Bounds for the exhaustive check of Explore. *)
EXTENDS Explore
MCParams == {[k |-> "greedy", e |-> e] : e \in {0, 10, 100}}
            \cup {[k |-> "softmax", m |-> m, e |-> e] : m \in {0, 1, 3}, e \in {0, 20, 90, 100}}
            \cup {[k |-> "squarecb", scale |-> s, num |-> x[1], den |-> x[2], e |-> e] :
                     s \in {1, 50}, x \in {<<0, 1>>, <<1, 2>>, <<1, 1>>}, e \in {0, 30}}
MCScores == {-4, 0, 1, 6}
QuickScores == {-4, 0, 1}
=============================================================================
