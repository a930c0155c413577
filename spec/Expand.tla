------------------------------ MODULE Expand -------------------------------
(***************************************************************************)
(* Interactions: the features a regressor works with, given an example.    *)
(* An example is a sequence of namespaces <<name, features>>, a feature is *)
(* <<index, value>>.  The expansion is a bag of terms; a term is a tuple   *)
(* of features, standing for the product of their values, and it lives at  *)
(* a weight that only the indices of its features decide.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS EXS,      \* examples
          INTERS,   \* configured interactions: sequences of pairs and triples of names
          MaxWeights  \* bound for the exhaustive check

VARIABLES inters, const, ex, terms, weights
vars == <<inters, const, ex, terms, weights>>

RECURSIVE Feats(_, _)
\* The features of a namespace of the example, in order.
Feats(e, ns) == IF e = <<>> THEN <<>> ELSE (IF e[1][1] = ns THEN e[1][2] ELSE <<>>) \o Feats(Tail(e), ns)

All(e) == {<<i, j>> : i \in 1..Len(e), j \in 1..100} \cap UNION {{<<i, j>> : j \in 1..Len(e[i][2])} : i \in 1..Len(e)}

\* Places (interaction number, then feature numbers) of the product terms.
Pairs(e, k, a, b) == {<<k, i, j>> : i \in 1..Len(Feats(e, a)), j \in 1..Len(Feats(e, b))}
Triples(e, k, a, b, c) == {<<k, i, j, m>> : i \in 1..Len(Feats(e, a)), j \in 1..Len(Feats(e, b)), m \in 1..Len(Feats(e, c))}
Places(e, is) == UNION {
   LET t == is[k] IN
   IF Len(t) = 2 THEN {p \in Pairs(e, k, t[1], t[2]) : t[1] = t[2] => p[2] <= p[3]}
   ELSE {p \in Triples(e, k, t[1], t[2], t[3]) : (t[1] = t[2] => p[2] <= p[3]) /\ (t[2] = t[3] => p[3] <= p[4])}
   : k \in 1..Len(is)}

\* The features a place combines.
Term(e, is, p) == [n \in 1..Len(p) - 1 |-> Feats(e, is[p[1]][n])[p[n + 1]]]
RECURSIVE Product(_)
Product(t) == IF t = <<>> THEN 1 ELSE t[1][2] * Product(Tail(t))
\* The weight a term lives at, whatever that is.
Key(t) == [n \in 1..Len(t) |-> t[n][1]]

Own(e) == LET s == SetToSeq(All(e)) IN [n \in 1..Len(s) |-> <<e[s[n][1]][2][s[n][2]]>>]
Products(e, is) == LET s == SetToSeq(Places(e, is)) IN [n \in 1..Len(s) |-> Term(e, is, s[n])]
\* The constant feature: a term without features, worth 1.
Expansion(e, is, c) == Own(e) \o Products(e, is) \o (IF c THEN <<<<>>>> ELSE <<>>)

Init == inters \in INTERS /\ const \in BOOLEAN /\ ex = <<>> /\ terms = <<>> /\ weights = {}

Predict(e) == ex' = e /\ terms' = Expansion(e, inters, const) /\ UNCHANGED <<inters, const, weights>>
Learn(e) == /\ ex' = e /\ terms' = Expansion(e, inters, const)
            /\ weights' = weights \cup {Key(terms'[n]) : n \in 1..Len(terms')}
            /\ UNCHANGED <<inters, const>>
Predicts == \E e \in EXS : Predict(e)
Learns == Cardinality(weights) < MaxWeights /\ \E e \in EXS : Learn(e)
Next == Predicts \/ Learns
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Laws *)
N(ns) == Len(Feats(ex, ns))
RECURSIVE SumUpto(_)
Size(t) == LET a == N(t[1]) b == N(t[2]) IN
  IF Len(t) = 2 THEN (IF t[1] = t[2] THEN (a * (a + 1)) \div 2 ELSE a * b)
  ELSE LET c == N(t[3]) IN
       IF t[1] = t[2] /\ t[2] = t[3] THEN (a * (a + 1) * (a + 2)) \div 6
       ELSE IF t[1] = t[2] THEN ((a * (a + 1)) \div 2) * c
       ELSE IF t[2] = t[3] THEN ((b * (b + 1)) \div 2) * a
       ELSE a * b * c
SumUpto(k) == IF k = 0 THEN 0 ELSE Size(inters[k]) + SumUpto(k - 1)
\* As many terms as there are combinations.
Counted == ex # <<>> => Len(terms) = Cardinality(All(ex)) + SumUpto(Len(inters)) + (IF const THEN 1 ELSE 0)

Bag(s) == [x \in {s[n] : n \in 1..Len(s)} |-> Cardinality({n \in 1..Len(s) : s[n] = x})]
Sorted(t) == [f \in {t[n] : n \in 1..Len(t)} |-> Cardinality({n \in 1..Len(t) : t[n] = f})]
Mix(s) == Bag([n \in 1..Len(s) |-> Sorted(s[n])])
Backwards(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
Turned(e) == Backwards([n \in 1..Len(e) |-> <<e[n][1], Backwards(e[n][2])>>])
\* The same combinations, in whatever order namespaces and features come.
OrderFree == ex # <<>> => Mix(Expansion(Turned(ex), inters, const)) = Mix(terms)
\* Every unordered combination once, unless a namespace comes back after another.
Once == \A k \in 1..Len(inters) :
          (Len(inters[k]) = 3 /\ inters[k][1] = inters[k][3] => inters[k][1] = inters[k][2]) =>
             LET ps == {p \in Places(ex, inters) : p[1] = k}
             IN Cardinality({Sorted(Term(ex, inters, p)) : p \in ps}) = Cardinality(ps)
\* Namespaces the example does not have contribute nothing.
Absent == \A k \in 1..Len(inters) : (\E n \in 1..Len(inters[k]) : N(inters[k][n]) = 0) => Size(inters[k]) = 0
\* Prediction uses no weight learning from the same example would not.
SameWeights == [][ (weights' # weights) => {Key(terms'[n]) : n \in 1..Len(terms')} \subseteq weights' ]_vars
=============================================================================
