------------------------------- MODULE Reduce -------------------------------
(***************************************************************************)
(* What the bandit and binary reductions ask of the regressor beneath      *)
(* them.                                                                   *)
(*                                                                         *)
(* A feature is <<identity, contribution>> (the contribution to a linear   *)
(* score, in quarters); a part is a sequence of features; an example has   *)
(* actions and possibly a shared part (a simple example: one action, no    *)
(* shared part).  A bandit label is [a, c, pn, pd]: action from 0, cost in *)
(* millionths, probability pn/pd.  Numbers asked for are pairs (rationals).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ALGOS,    \* subset of {"mtr", "ips", "binary"}
          WRAPS,    \* subset of {"none", "greedy", "softmax", "squarecb"}
          EXS,      \* examples (a set)
          LABS,     \* bandit labels
          MaxLearn

VARIABLES algo, wrap,
          events, acts,  \* bandit examples learned; actions they had
          asked          \* what the last operation asked of the regressor
vars == <<algo, wrap, events, acts, asked>>

Million == 1000000

Merged(ex, j) == ex.actions[j] \o (IF ex.hs THEN ex.shared ELSE <<>>)
Requests(ex) == [j \in 1..Len(ex.actions) |-> Merged(ex, j)]

RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Score(fs) == Sum([k \in 1..Len(fs) |-> fs[k][2]], Len(fs))

Count(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A k \in 1..Len(s) : Count(s[k], s) = Count(s[k], t)

\* The probability a label is learned with.
Prob(lab) == IF wrap = "squarecb" THEN <<1, 1>> ELSE <<lab.pn, lab.pd>>

Call(fs, y, w) == [feats |-> fs, y |-> y, w |-> w]

\* What learning an example asks for, given the counts including it.
Teach(ex, lab, ev, ac) ==
  CASE algo = "mtr" ->
         <<Call(Merged(ex, lab.a + 1), <<lab.c, 1>>, <<Prob(lab)[2] * ev, Prob(lab)[1] * ac>>)>>
    [] algo = "ips" ->
         [j \in 1..Len(ex.actions) |->
            Call(Merged(ex, j), IF j = lab.a + 1 THEN <<lab.c * Prob(lab)[2], Prob(lab)[1]>> ELSE <<0, 1>>, <<1, 1>>)]
    [] algo = "binary" -> <<Call(ex.actions[1], <<IF lab.a = 1 THEN Million ELSE -Million, 1>>, <<1, 1>>)>>

Init == /\ algo \in ALGOS
        /\ wrap \in IF algo = "binary" THEN {"none"} ELSE IF algo = "ips" THEN WRAPS \ {"squarecb"} ELSE WRAPS
        /\ events = 0 /\ acts = 0
        /\ asked = <<>>

Predict(ex) == /\ asked' = Requests(ex)
               /\ UNCHANGED <<algo, wrap, events, acts>>

Learn(ex, lab) == /\ (algo # "binary" => lab.a < Len(ex.actions))
                  /\ events' = events + 1
                  /\ acts' = acts + Len(ex.actions)
                  /\ asked' = Teach(ex, lab, events', acts')
                  /\ UNCHANGED <<algo, wrap>>

Fits(ex, lab) == IF algo = "binary" THEN ~ex.hs /\ Len(ex.actions) = 1 /\ lab.a \in {0, 1} ELSE TRUE
Predicts == \E ex \in EXS : Predict(ex)
Learns == \E ex \in EXS, lab \in LABS : events < MaxLearn /\ Fits(ex, lab) /\ Learn(ex, lab)
Next == Predicts \/ Learns
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Only(ex, j) == [ex EXCEPT !.actions = <<ex.actions[j]>>]
Bare(ex) == [ex EXCEPT !.hs = TRUE, !.shared = <<>>]

\* C11: an action's request depends on that action and the shared part only, not on its place.
Local == \A ex \in EXS : \A j \in 1..Len(ex.actions) :
            /\ Requests(Only(ex, j))[1] = Requests(ex)[j]
            /\ Requests([ex EXCEPT !.actions = Rev(@)])[Len(ex.actions) + 1 - j] = Requests(ex)[j]
\* A missing shared part is an empty one; merging is indifferent to which side is added to which.
EmptyShared == \A ex \in EXS : ~ex.hs => Requests(ex) = Requests(Bare(ex))
Symmetric == \A ex \in EXS : \A j \in 1..Len(ex.actions) :
                ex.hs => SameBag(Merged(ex, j), ex.shared \o ex.actions[j])

\* C12, C15, of the last operation.
OneMtr == [][ (algo = "mtr" /\ events' > events) => Len(asked') = 1 ]_vars
\* With the probabilities that were logged, the importance of an MTR example is 1/p times the
\* share of examples among actions, so at most 1/p.
Importance == [][ (algo = "mtr" /\ events' > events) =>
                    /\ asked'[1].w[1] > 0 /\ asked'[1].w[2] > 0
                    /\ events' <= acts' ]_vars
\* IPS teaches every action, and only the chosen one gets a cost.
IpsAll == [][ (algo = "ips" /\ events' > events) =>
                /\ Cardinality({k \in 1..Len(asked') : asked'[k].y[1] # 0}) <= 1
                /\ \A k \in 1..Len(asked') : asked'[k].w = <<1, 1>> ]_vars
\* Exploration wrappers other than SquareCB, and predictions, change nothing about learning.
Transparent == (algo # "binary" /\ wrap # "squarecb") => \A lab \in LABS : Prob(lab) = <<lab.pn, lab.pd>>
Silent == [][ (events' = events) => acts' = acts ]_vars
Signs == [][ (algo = "binary" /\ events' > events) => asked'[1].y[1] \in {Million, -Million} /\ Len(asked') = 1 ]_vars
=============================================================================
