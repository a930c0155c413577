--------------------------- MODULE ProgressTrace ---------------------------
(***************************************************************************)
(* Validates the tables real runs printed: "run" (period, table), one      *)
(* "learn" per example of the file (with its number of features), "end".   *)
(* A row of the table: num and feats (-1 if the column is not shown) and   *)
(* fits, the prefix lengths whose averages the row's other values equal.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES period, n, feats, due, rows, done, l, table
MaxN == 1000000
PERIODS == {<<"add", 1, 1>>}
FEATS == {0}
P == INSTANCE Progress
tvars == <<period, n, feats, due, rows, done, l, table>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TraceInit == P!Init /\ l = 1 /\ table = <<>>

\* Snapshot k of the table shows the first k rows.
TRun == /\ Is("run")
        /\ period' = <<Ev.kind, Ev.x, Ev.y>>
        /\ n' = 0 /\ feats' = 0 /\ due' = 0 /\ rows' = <<>> /\ done' = FALSE
        /\ table' = Ev.table
        /\ Ev.ok
        /\ \A k \in 1..Len(Ev.snaps) : Ev.snaps[k] = k
        /\ Len(Ev.snaps) = Len(Ev.table)

Shown == \A k \in Len(rows)+1..Len(rows') :
            /\ k <= Len(table)
            /\ table[k].num \in {-1, rows'[k].num}
            /\ table[k].feats \in {-1, rows'[k].feats}
            /\ \E c \in 1..Len(table[k].fits) : table[k].fits[c] = rows'[k].count

TLearn == Is("learn") /\ P!Step(Ev.f) /\ Shown /\ UNCHANGED table
TEnd == Is("end") /\ P!End /\ Shown /\ Len(rows') = Len(table) /\ UNCHANGED table

TraceNext == TRun \/ TLearn \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Trace)]))
=============================================================================
