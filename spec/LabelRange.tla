----------------------------- MODULE LabelRange -----------------------------
(***************************************************************************)
(* What the regressor's predictions may be, whatever its bets are: its raw *)
(* sum of bets may be anything, even no number at all.                     *)
(* Labels are given by rank; Zero is the rank of label 0.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,       \* labels have ranks 0..N-1
          Zero, MaxOps

Ranks == 0..(N - 1)
NaN == 100000     \* not a number
\* Sums of bets lie at (2r) or between (2r + 1) labels, below all or above all of them.
Raws == ((-1)..(2 * N - 1)) \cup {NaN}

VARIABLES link,     \* "identity", "logistic"
          lo, hi,   \* smallest and largest label learned, and 0
          seen,     \* labels learned
          saved,    \* a saved model: <<link, lo, hi, seen>>
          pred,     \* the last prediction: a position as in Raws, or a position in the unit interval
          ops
vars == <<link, lo, hi, seen, saved, pred, ops>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Clamp(x) == Max(2 * lo, Min(2 * hi, x))
Number(x) == IF x = NaN THEN 2 * Zero ELSE x

\* The logistic function maps everything into (0, 1): here, into positions between 0 and 1 of a unit interval
Squash(x) == [unit |-> 1 + x + 1, of |-> 2 * N + 2]

Init == /\ link \in {"identity", "logistic"} /\ lo = Zero /\ hi = Zero /\ seen = {} /\ saved = <<>> /\ pred = <<>> /\ ops = 0
Learn(y) == /\ lo' = Min(lo, y) /\ hi' = Max(hi, y) /\ seen' = seen \cup {y} /\ UNCHANGED <<link, saved, pred>>
Answer(raw) == IF link = "identity" THEN Clamp(Number(raw)) ELSE Squash(Clamp(Number(raw)))
Predict(raw) == pred' = <<Answer(raw)>> /\ UNCHANGED <<link, lo, hi, seen, saved>>
Save == saved' = <<link, lo, hi, seen>> /\ UNCHANGED <<link, lo, hi, seen, pred>>
Load == /\ saved # <<>>
        /\ link' = saved[1] /\ lo' = saved[2] /\ hi' = saved[3] /\ seen' = saved[4]
        /\ pred' = <<>> /\ UNCHANGED saved

Learns == ops < MaxOps /\ ops' = ops + 1 /\ \E y \in Ranks : Learn(y)
Predicts == ops < MaxOps /\ ops' = ops + 1 /\ \E raw \in Raws : Predict(raw)
Saves == ops < MaxOps /\ ops' = ops + 1 /\ Save
Loads == ops < MaxOps /\ ops' = ops + 1 /\ Load
Next == Learns \/ Predicts \/ Saves \/ Loads
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
Largest(S) == CHOOSE x \in S : \A y \in S : x >= y
\* The bounds are what they say.
Bounds == lo = Smallest(seen \cup {Zero}) /\ hi = Largest(seen \cup {Zero})
Within(p) == IF link = "identity" THEN p >= 2 * Smallest(seen \cup {Zero}) /\ p <= 2 * Largest(seen \cup {Zero})
                                  ELSE p.unit > 0 /\ p.unit < p.of
\* (a prediction was made under the bounds of its time)
InRange == [][Predicts => Within(pred'[1])]_vars
\* Nothing but loading narrows the bounds.
Widens == [][Loads \/ (lo' <= lo /\ hi' >= hi)]_vars
Untaught == (seen = {} /\ link = "identity" /\ pred # <<>> /\ saved = <<>>) => pred[1] = 2 * Zero
=============================================================================
