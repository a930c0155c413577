----------------------------- MODULE StackTrace -----------------------------
(***************************************************************************)
(* Validates creation and use of real workspaces against Stack.            *)
(*  "config" glob: a new stack begins;  "layer" kind, form: one more on    *)
(*  top;  "new" ok, label, features, prediction: what creating it gave;    *)
(*  "predict" kind, count, actions: a prediction of the workspace for an   *)
(*  example of the type it declares (scalars: count = actions = 0), and    *)
(*  entries: it names every action once;  "learn";  "failed": a crash.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES glob, stack, types, unsettled, live, l
Kinds == {}
WELL == {"bare", "empty", "some", "all"}
Events == ndJsonDeserialize(IOEnv.TRACE)
ILL == {e.form : e \in {Events[j] : j \in {j \in 1..Len(Events) : Events[j].a = "layer"}}} \ WELL
GLOBALS == {"good"}
MaxDepth == 0
MaxIll == 0
tvars == <<glob, stack, types, unsettled, live, l>>
S == INSTANCE Stack

Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

TraceInit == S!Init /\ live = FALSE /\ l = 1
TConfig == Is("config") /\ glob' = Ev.glob /\ stack' = <<>> /\ types' = S!Refused /\ unsettled' = FALSE /\ live' = FALSE
TLayer == Is("layer") /\ S!Grow(Ev.kind, Ev.form) /\ UNCHANGED live
Seen == [ok |-> Ev.ok, label |-> Ev.label, features |-> Ev.features, prediction |-> Ev.prediction]
TNew == /\ Is("new")
        /\ Seen = S!Outcome \/ (unsettled /\ Seen = S!Refused)
        /\ live' = Ev.ok
        /\ UNCHANGED <<glob, stack, types, unsettled>>
TPredict == /\ Is("predict") /\ live
            /\ Ev.kind = types.prediction
            /\ types.label = "CB" => Ev.count = Ev.actions /\ Ev.entries
            /\ UNCHANGED <<glob, stack, types, unsettled, live>>
TLearn == Is("learn") /\ live /\ UNCHANGED <<glob, stack, types, unsettled, live>>

TraceNext == TConfig \/ TLayer \/ TNew \/ TPredict \/ TLearn
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
