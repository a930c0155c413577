------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* The training table: when a row is written, and what it accounts for.    *)
(* Examples are numbered from 0.  A period is additive (every A examples)  *)
(* or multiplicative (the factor A/B).  Every example brings a number of   *)
(* features; the errors and rewards a row averages are those of exactly    *)
(* the examples it accounts for, so a row is known by its prefix length.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxN,      \* examples, at most
          PERIODS,   \* set of <<kind, A, B>>
          FEATS      \* numbers of features an example may have

VARIABLES period, n, feats, due, rows, done
vars == <<period, n, feats, due, rows, done>>

Row(k, f) == [num |-> k - 1, count |-> k, feats |-> f]

\* The first example number to report at after a report on example i.
After(p, i) == IF p[1] = "add" THEN i + p[2] ELSE (i * p[2]) \div p[3]

Init == /\ period \in PERIODS
        /\ n = 0 /\ feats = 0 /\ due = 0 /\ rows = <<>> /\ done = FALSE

Step(f) == /\ ~done
           /\ n' = n + 1
           /\ feats' = feats + f
           /\ IF n >= due THEN /\ rows' = Append(rows, Row(n + 1, feats + f))
                               /\ due' = After(period, n)
                          ELSE UNCHANGED <<rows, due>>
           /\ UNCHANGED <<period, done>>

Learn == \E f \in FEATS : n < MaxN /\ Step(f)

\* The table ends with a row for everything learned, if anything was.
End == /\ ~done
       /\ rows' = IF n = 0 THEN rows ELSE Append(rows, Row(n, feats))
       /\ done' = TRUE
       /\ UNCHANGED <<period, n, feats, due>>

Next == Learn \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Reports == IF done /\ n > 0 THEN SubSeq(rows, 1, Len(rows) - 1) ELSE rows
Nums == {Reports[k].num : k \in 1..Len(Reports)}

\* Rows are in order, and the first example is always reported.
Ordered == /\ \A k \in 1..Len(Reports)-1 : Reports[k].num < Reports[k+1].num
           /\ n > 0 => Len(Reports) > 0 /\ Reports[1].num = 0
\* Additive: exactly the examples 0, p, 2p, ... (all of them for p = 0).
Additive == period[1] = "add" =>
              Nums = {i \in 0..MaxN : i < n /\ (IF period[2] = 0 THEN TRUE ELSE i % period[2] = 0)}
\* Multiplicative: the next report is on the first later example at or beyond the product.
Multiplicative == period[1] = "mul" =>
   \A k \in 1..Len(Reports)-1 :
      LET i == Reports[k].num
          j == Reports[k+1].num
      IN j = CHOOSE x \in 0..(MaxN * 20) : /\ x > i /\ x * period[3] + period[3] > i * period[2]
                                           /\ \A y \in 0..x-1 : ~(y > i /\ y * period[3] + period[3] > i * period[2])
\* No report is overdue.
Timely == period[1] = "mul" => \A k \in {Len(Reports)} \ {0} : LET i == Reports[k].num IN
             ~ \E x \in i+1..n-1 : x * period[3] + period[3] > i * period[2]
Complete == done => (n = 0 /\ rows = <<>>) \/ (n > 0 /\ rows[Len(rows)] = Row(n, feats))
\* Every row but the last is a report that was there while training went on.
Monotone == [][\E s \in {rows} : SubSeq(rows', 1, Len(s)) = s]_vars
=============================================================================
