---------------------------- MODULE Elementwise ----------------------------
(***************************************************************************)
(* Elementwise interaction: what the regressor beneath is given.           *)
(* An example maps names of namespaces to positional features, a function  *)
(* from positions to values.  "*" is the namespace of the products.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NAMES, POS, VALS, MaxOps

VARIABLES one, two, keep,   \* configuration
          own,              \* the caller's example
          given,            \* what the regressor was given last
          ops
vars == <<one, two, keep, own, given, ops>>

Has(e, n) == n \in DOMAIN e
Products(e, a, b) == IF Has(e, a) /\ Has(e, b) THEN [p \in DOMAIN e[a] \cap DOMAIN e[b] |-> e[a][p] * e[b][p]] ELSE <<>>
Without(e, S) == [n \in DOMAIN e \ S |-> e[n]]
Given(e, a, b, k) == Without(e, IF k THEN {} ELSE {a, b}) @@ ("*" :> Products(e, a, b))

\* Partial functions from S to T
Partial(S, T) == UNION {[D -> T] : D \in SUBSET S}
Examples == Partial(NAMES, Partial(POS, VALS))

Init == /\ one \in NAMES /\ two \in NAMES /\ keep \in BOOLEAN
        /\ own \in Examples /\ given = <<>> /\ ops = 0
Use(e) == /\ own' = e
          /\ given' = Given(e, one, two, keep)
          /\ UNCHANGED <<one, two, keep>>
\* Any of predict, learn, predict-then-learn.
Uses == ops < MaxOps /\ ops' = ops + 1 /\ Use(own)
Next == Uses
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Laws *)
Untouched == [][own' = own]_vars
Bare(f) == [p \in DOMAIN f |-> f[p]]
Laws == ops > 0 =>
  /\ given = Given(own, two, one, keep)                      \* order of the two does not matter
  /\ \A n \in DOMAIN own : (n \in {one, two} /\ ~keep) \/ given[n] = own[n]
  /\ ~keep => \A n \in {one, two} : n \notin DOMAIN given
  /\ DOMAIN given["*"] \subseteq UNION {DOMAIN own[n] : n \in DOMAIN own}
  /\ (one = two /\ Has(own, one)) => (DOMAIN given["*"] = DOMAIN own[one] /\ \A p \in DOMAIN given["*"] : given["*"][p] = own[one][p] * own[one][p])
  /\ (~Has(own, one) \/ ~Has(own, two)) => DOMAIN given["*"] = {}
\* Using an example twice gives the regressor the same.
Stable == [][ops > 0 => given' = given]_vars
=============================================================================
