------------------------------ MODULE Explore ------------------------------
(***************************************************************************)
(* Exploration: from the scores of n actions (lower is better) to          *)
(* probabilities, by epsilon-greedy, softmax and SquareCB, and the         *)
(* probability floor.                                                      *)
(*                                                                         *)
(* Scores are integers, in quarters.  Probabilities are fixed-point, in    *)
(* units of 1/U.  Percentages e stand for e/100.  Softmax: lambda =        *)
(* 4 ln(2) m for an integer m, so that a score worse by d quarters weighs  *)
(* 2^(-m d).  SquareCB: gamma = scale * t^(num/den) after t examples.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

CONSTANTS PARAMS,   \* parameter records (below)
          SCORES,   \* scores (integers)
          MaxActs, MaxLearn

VARIABLES par,      \* [k |-> "greedy", e], [k |-> "softmax", m, e] or [k |-> "squarecb", scale, num, den, e]
          t,        \* examples learned
          scores, probs
vars == <<par, t, scores, probs>>

U == 100000000

\* floor(num * U / den) for 0 <= num <= den < 2*10^8, digit by digit
RECURSIVE Digits(_, _, _, _)
Digits(r, den, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % den, den, k - 1, acc * 10 + (r * 10) \div den)
Frac(num, den) == (num \div den) * U + Digits(num % den, den, 8, 0)

Plus(a, b) == a + b
Sum(f, S) == FoldFunctionOnSet(Plus, 0, f, S)
Total(p) == Sum(p, DOMAIN p)

RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= n THEN Bisect(n, mid, hi) ELSE Bisect(n, lo, mid)
ISqrt(n) == Bisect(n, 0, 46341)

Exact(num, den) == CASE den = 1 -> TRUE
                     [] den = 2 -> ISqrt(t) * ISqrt(t) = t
                     [] den = 4 -> ISqrt(t) * ISqrt(t) = t /\ ISqrt(ISqrt(t)) * ISqrt(ISqrt(t)) = ISqrt(t)

\* 10^4 times t^(num/den), and whether that is exact
Power(num, den) == CASE num = 0 -> 10000
                     [] num = 1 /\ den = 1 -> 10000 * t
                     [] num = 2 /\ den = 1 -> 10000 * t * t
                     [] num = 1 /\ den = 2 -> IF ISqrt(t) * ISqrt(t) = t THEN 10000 * ISqrt(t) ELSE ISqrt(t * 1000000) * 10 + 5
                     [] num = 1 /\ den = 4 -> IF ISqrt(t) * ISqrt(t) = t THEN (IF Exact(1, 4) THEN 10000 * ISqrt(ISqrt(t)) ELSE ISqrt(ISqrt(t) * 1000000) * 10 + 5)
                                               ELSE ISqrt(ISqrt(t * 1000000) * 1000) * 10 + 5
Best(s) == CHOOSE i \in 1..Len(s) : /\ \A j \in 1..Len(s) : s[i] <= s[j]
                                    /\ \A j \in 1..i-1 : s[j] > s[i]      \* the first of the lowest

Greedy(s, e) == LET n == Len(s) IN
  [i \in 1..n |-> Frac(e, 100 * n) + IF i = Best(s) THEN (100 - e) * (U \div 100) ELSE 0]

TopBit == 16777216   \* 2^24
RECURSIVE Halve(_, _)
Halve(x, k) == IF k = 0 \/ x = 0 THEN x ELSE Halve(x \div 2, k - 1)
Softmax(s, m) == LET w == [i \in 1..Len(s) |-> Halve(TopBit, m * (s[i] - s[Best(s)]))]
                 IN [i \in 1..Len(s) |-> Frac(w[i], Total(w))]

\* 1 / (n + gamma d/4), gamma = scale * g / 10^4
OneOver(n, scale, g, d) == IF d = 0 THEN Frac(1, n)
                           ELSE IF g * scale <= 1900000000 \div d THEN Frac(4000, 4000 * n + (scale * g * d) \div 10)
                           ELSE Frac(4, 4 * n + (((scale * g) \div 100) * d) \div 100)
SquareCb(s, scale, g) == LET n == Len(s)
                             b == Best(s)
                             others == [i \in 1..n |-> IF i = b THEN 0 ELSE OneOver(n, scale, g, s[i] - s[b])]
                         IN [others EXCEPT ![b] = U - Total(others)]

\* The floor: q is p raised to at least m by uniformly lowering the others (within tol).
IsFloor(p, m, q, tol) ==
  /\ \A i \in DOMAIN p : q[i] >= m - tol
  /\ LET up == {i \in DOMAIN p : q[i] > m + 2 * tol}
     IN \A i \in up : /\ q[i] <= p[i] + 2 * tol
                      /\ \A j \in up : (p[i] - q[i]) - (p[j] - q[j]) \in -3*tol..3*tol
                      /\ \A j \in DOMAIN p \ up : p[j] - m <= (p[i] - q[i]) + 5 * tol
  /\ Total(q) - Total(p) \in -(Cardinality(DOMAIN p) + 2) * tol..(Cardinality(DOMAIN p) + 2) * tol

Lowered(p, m, S) == (Sum(p, S) - (Total(p) - (Cardinality(DOMAIN p) - Cardinality(S)) * m)) \div Cardinality(S)
Floor(p, m) ==
  LET n == Cardinality(DOMAIN p)
      OK(S) == /\ \A i \in S : p[i] - Lowered(p, m, S) >= m
               /\ \A i \in DOMAIN p \ S : p[i] - Lowered(p, m, S) <= m
      S0 == CHOOSE S \in SUBSET DOMAIN p : S # {} /\ OK(S)
  IN IF \E S \in SUBSET DOMAIN p : S # {} /\ OK(S)
     THEN [i \in DOMAIN p |-> IF i \in S0 THEN p[i] - Lowered(p, m, S0) ELSE m]
     ELSE [i \in DOMAIN p |-> Frac(1, n)]

Share(n) == Frac(par.e, 100 * n)
\* Before the floor.
Raw(s) == CASE par.k = "greedy" -> Greedy(s, par.e)
            [] par.k = "softmax" -> Softmax(s, par.m)
            [] par.k = "squarecb" -> SquareCb(s, par.scale, Power(par.num, par.den))
Decision(s) == IF par.k = "greedy" \/ par.e = 0 THEN Raw(s) ELSE Floor(Raw(s), Share(Len(s)))

Init == par \in PARAMS /\ t = 0 /\ scores = <<>> /\ probs = <<>>

Learn == /\ t' = t + 1
         /\ UNCHANGED <<par, scores, probs>>

Decide(s) == /\ Len(s) > 0
             /\ scores' = s
             /\ probs' = Decision(s)
             /\ UNCHANGED <<par, t>>

Learns == t < MaxLearn /\ Learn
Decides == \E n \in 1..MaxActs : \E s \in [1..n -> SCORES] : Decide(s)
Next == Learns \/ Decides
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Laws (C09).  TOL: rounding of fixed-point numbers. *)
TOL == 10
Distribution(p, tol) == /\ \A i \in DOMAIN p : p[i] >= 0 /\ p[i] <= U + tol
                        /\ Total(p) \in U - tol * (2 + Cardinality(DOMAIN p))..U + tol * (2 + Cardinality(DOMAIN p))
Favours(s, p, tol) == \A i, j \in 1..Len(s) : s[i] < s[j] => p[i] + p[i] \div 50000 + tol >= p[j]
Explores(p, share, tol) == \A i \in DOMAIN p : p[i] >= share - tol
Laws == Len(scores) > 0 => /\ Len(probs) = Len(scores)
                           /\ Distribution(probs, TOL)
                           /\ Favours(scores, probs, TOL)
                           /\ Explores(probs, Share(Len(probs)), TOL)
\* The floor as computed is the floor as described.
FloorRight == [][ (t' = t /\ par.k # "greedy") => IsFloor(Raw(scores'), Share(Len(scores')), probs', TOL) ]_vars
\* Every score counts by its distance from the best only.
Shift == Len(scores) > 0 => Raw([i \in 1..Len(scores) |-> scores[i] + 3]) = Raw(scores)
\* SquareCB explores less the more was learned.
Sharper == [][ (par.k = "squarecb" /\ t' = t + 1 /\ Len(scores) > 0 /\ par.num > 0) =>
                 Raw(scores)'[Best(scores)] + TOL >= Raw(scores)[Best(scores)] ]_vars
=============================================================================
