---------------------------- MODULE ReduceTrace ----------------------------
(***************************************************************************)
(* Validates what real stacks asked of a recording regressor beneath them  *)
(* ("predict", "learn"), what binary stacks answered ("binary"), and that  *)
(* observations are functions of the given keys ("value").                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES algo, wrap, events, acts, asked, l, memo
ALGOS == {"mtr"}
WRAPS == {"none"}
EXS == {}
LABS == {}
MaxLearn == 0
P == INSTANCE Reduce
tvars == <<algo, wrap, events, acts, asked, l, memo>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TraceInit == algo = "mtr" /\ wrap = "none" /\ events = 0 /\ acts = 0 /\ asked = <<>> /\ l = 1 /\ memo = <<>>

TConfig == /\ Is("config")
           /\ algo' = Ev.algo /\ wrap' = Ev.wrap /\ events' = 0 /\ acts' = 0 /\ asked' = <<>>
           /\ memo' = <<>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* An observed number, in units of 1/u, against the rational q (already in those units where u = 1).
Near(obs, q, u) == LET x == (q[1] \div q[2]) * u + ((q[1] % q[2]) * u) \div q[2] IN Abs(obs - x) <= 3 + Abs(obs) \div 500000

TPredict == /\ Is("predict") /\ Ev.ok
            /\ P!Predict(Ev.ex)
            /\ Len(Ev.reqs) = Len(asked')
            /\ \A j \in 1..Len(asked') : P!SameBag(Ev.reqs[j], asked'[j])
            /\ Len(Ev.order) = Len(asked')
            /\ \A j \in 1..Len(Ev.order) : Ev.order[j] = j - 1
            /\ (Ev.scored => \A j \in 1..Len(asked') : Ev.scores[j] = P!Score(asked'[j]))
            /\ UNCHANGED memo

TLearn == /\ Is("learn") /\ Ev.ok
          /\ P!Learn(Ev.ex, Ev.lab)
          /\ (Ev.seen => /\ Len(Ev.calls) = Len(asked')
                         /\ \A j \in 1..Len(asked') :
                              /\ P!SameBag(Ev.calls[j].feats, asked'[j].feats)
                              /\ Near(Ev.calls[j].y, asked'[j].y, 1)
                              /\ Near(Ev.calls[j].w, asked'[j].w, 100000))
          /\ UNCHANGED memo

\* A binary prediction for an example whose scalar prediction has the given sign.
TBinary == /\ Is("binary") /\ Ev.ok
           /\ Ev.got = (Ev.sign > 0)
           /\ UNCHANGED <<algo, wrap, events, acts, asked, memo>>

\* What was observed under a key is always the same (0: nothing yet).
TValue == /\ Is("value") /\ Ev.ok
          /\ memo' = IF Ev.key \in DOMAIN memo THEN memo ELSE memo @@ (Ev.key :> Ev.val)
          /\ memo'[Ev.key] = Ev.val
          /\ UNCHANGED <<algo, wrap, events, acts, asked>>
\* Two computations of one quantity agree (up to rounding; the driver decides).
TSame == Is("same") /\ Ev.ok /\ UNCHANGED <<algo, wrap, events, acts, asked, memo>>

TraceNext == TConfig \/ TPredict \/ TLearn \/ TBinary \/ TValue \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Trace)]))
=============================================================================
