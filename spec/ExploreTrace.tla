---------------------------- MODULE ExploreTrace ----------------------------
(***************************************************************************)
(* Validates probabilities real exploration stacks returned.               *)
(*  "config" par; "learn"; "decide" (scores in quarters, probabilities in  *)
(*  1/U, and, where there is no floor, how they relate to the best);       *)
(*  "law": any scores (given by rank) and probabilities, for the laws      *)
(*  only; "floor": the probability floor helper.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES par, t, scores, probs, l
PARAMS == {}
SCORES == {}
MaxActs == 0
MaxLearn == 0
P == INSTANCE Explore
tvars == <<par, t, scores, probs, l>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TraceInit == par = [k |-> "none"] /\ t = 0 /\ scores = <<>> /\ probs = <<>> /\ l = 1

TConfig == Is("config") /\ par' = Ev.par /\ t' = 0 /\ scores' = <<>> /\ probs' = <<>>
TLearn == Is("learn") /\ Ev.ok /\ P!Learn

Abs(x) == IF x < 0 THEN -x ELSE x
Tol == IF par.k = "squarecb" THEN (IF P!Exact(par.num, par.den) THEN 200 ELSE 20000) ELSE 200

Ordered == Len(Ev.order) = Len(Ev.probs) /\ \A i \in 1..Len(Ev.order) : Ev.order[i] = i - 1

\* Where no floor was applied, small probabilities are compared relative to the best: "odds" is
\* 1000 times log2 of best over this one (softmax), or 1000 over the probability (SquareCB).
Relative ==
  CASE par.k = "softmax" /\ par.e = 0 ->
         \A i \in 1..Len(Ev.scores) : LET d == par.m * (Ev.scores[i] - Ev.scores[P!Best(Ev.scores)])
                                      IN d <= 100 => Abs(Ev.odds[i] - 1000 * d) <= 5
    [] par.k = "squarecb" /\ par.e = 0 /\ P!Exact(par.num, par.den) ->
         \A i \in 1..Len(Ev.scores) : i # P!Best(Ev.scores) =>
            LET d == Ev.scores[i] - Ev.scores[P!Best(Ev.scores)]
                x == 1000 * Len(Ev.scores) + ((par.scale * P!Power(par.num, par.den)) \div 1000) * 25 * d
            IN Abs(Ev.odds[i] - x) <= 3 + x \div 20000
    [] OTHER -> TRUE

TDecide == /\ Is("decide") /\ Ev.ok /\ Ordered
           /\ P!Decide(Ev.scores)
           /\ Len(Ev.probs) = Len(Ev.scores)
           /\ \A i \in 1..Len(Ev.probs) : Abs(Ev.probs[i] - probs'[i]) <= Tol + 5 * Len(Ev.probs)
           /\ Relative

TLaw == /\ Is("law") /\ Ev.ok /\ Ordered
        /\ Len(Ev.ranks) = Len(Ev.probs)
        /\ P!Distribution(Ev.probs, 100)
        /\ P!Favours(Ev.ranks, Ev.probs, 100) = TRUE     \* evaluated at once: as a conjunct TLC would nest n^2 deep
        /\ P!Explores(Ev.probs, Ev.share, 100)
        /\ UNCHANGED <<par, t, scores, probs>>

\* support: the elements the floor applies to (the others are zero and stay so)
TFloor == /\ Is("floor") /\ Ev.ok
          /\ Len(Ev.q) = Len(Ev.p)
          /\ LET S == {i \in 1..Len(Ev.p) : Ev.zero \/ Ev.p[i] > 0}
                 p == [i \in S |-> Ev.p[i]]
                 q == [i \in S |-> Ev.q[i]]
             IN /\ \A i \in 1..Len(Ev.p) : i \notin S => Ev.q[i] = 0
                /\ S # {} => IF Ev.e = 0 THEN \A i \in S : Abs(p[i] - q[i]) <= 20
                             ELSE P!IsFloor(p, P!Frac(Ev.e, 100 * Cardinality(S)), q, 200)
          /\ UNCHANGED <<par, t, scores, probs>>

TraceNext == TConfig \/ TLearn \/ TDecide \/ TLaw \/ TFloor
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Trace)]))
=============================================================================
