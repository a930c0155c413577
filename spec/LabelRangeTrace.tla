-------------------------- MODULE LabelRangeTrace --------------------------
(***************************************************************************)
(* Validates predictions of real regressor stacks against LabelRange.      *)
(*  "config" link, zero: rank of 0 among the labels of the session;        *)
(*  "learn" y;  "save";  "load";                                           *)
(*  "predict" finite, floor: the largest rank whose label is at most the   *)
(*  prediction (-1: none), ceil: the smallest rank whose label is at least *)
(*  the prediction (n: none), unit: between 0 and 1;  "failed".            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES link, lo, hi, seen, saved, pred, ops, zero, l
N == 1000
MaxOps == 0
tvars == <<link, lo, hi, seen, saved, pred, ops, zero, l>>
P == INSTANCE LabelRange WITH Zero <- 0    \* (Init is the trace's own)

Events == ndJsonDeserialize(IOEnv.TRACE)
Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

TraceInit == link = "identity" /\ lo = 0 /\ hi = 0 /\ seen = {} /\ saved = <<>> /\ pred = <<>> /\ ops = 0 /\ zero = 0 /\ l = 1
TConfig == /\ Is("config") /\ link' = Ev.link /\ lo' = Ev.zero /\ hi' = Ev.zero /\ seen' = {} /\ saved' = <<>> /\ pred' = <<>>
           /\ zero' = Ev.zero /\ UNCHANGED ops
TLearn == Is("learn") /\ P!Learn(Ev.y) /\ UNCHANGED <<ops, zero>>
\* The answer is the specification's for some sum of bets.
TPredict == /\ Is("predict") /\ Ev.finite
            /\ IF link = "identity" THEN Ev.floor >= lo /\ Ev.ceil <= hi ELSE Ev.unit
            /\ pred' = <<Ev.floor>>
            /\ UNCHANGED <<link, lo, hi, seen, saved, ops, zero>>
TSave == Is("save") /\ P!Save /\ UNCHANGED <<ops, zero>>
TLoad == Is("load") /\ P!Load /\ UNCHANGED <<ops, zero>>

TraceNext == TConfig \/ TLearn \/ TPredict \/ TSave \/ TLoad
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
