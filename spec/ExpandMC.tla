----------------------------- MODULE ExpandMC ------------------------------
(* Bounds for the exhaustive check of Expand: values are distinct primes. *)
EXTENDS Expand
F(k, vs) == [i \in 1..Len(vs) |-> <<10 * k + i, vs[i]>>]
MCExs == {<<<<"a", F(1, a)>>, <<"b", F(2, b)>>>> : a \in {<<>>, <<2>>, <<2, 3>>, <<2, 3, 5>>}, b \in {<<>>, <<7>>, <<7, 11>>}}
         \cup {<<<<"b", F(2, <<7, 11>>)>>, <<"", F(3, <<13, 17>>)>>, <<"a", F(1, <<2>>)>>>>, <<<<"c", F(4, <<2, 3>>)>>>>}
Names == {"a", "b", ""}
MCInters == {<<>>} \cup {<<<<x, y>>>> : x, y \in Names} \cup {<<<<x, y, z>>>> : x, y, z \in Names}
            \cup {<<<<"a", "b">>, <<"b", "a">>>>, <<<<"a", "a">>, <<"a", "a">>, <<"b", "", "b">>>>}
=============================================================================
