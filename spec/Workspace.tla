------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* The life of models in a process that uses reductionml.                  *)
(*                                                                         *)
(* A workspace is fully described by the configuration it was created with *)
(* and the sequence of examples it has learned from; predictions and saved *)
(* models are functions of that description.  Workspaces may be saved and  *)
(* restored (binary or JSON); examples are caller-owned objects that every *)
(* call hands back as it found them; containers of parsed examples are     *)
(* recycled through a pool.                                                *)
(*                                                                         *)
(* One action per public call.  The trace specification WorkspaceTrace     *)
(* reuses these actions and ties every observed result to the abstract     *)
(* state, which is what decides the properties on the implementation.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS WS,        \* workspace handles
          EX,        \* example contents
          OBJ,       \* example objects (containers) held by the caller
          CFGS,      \* configurations
          SLOTS,     \* places a saved model is kept in
          FMTS,      \* subset of {"bin", "json"}
          ACTS,      \* enabled kinds of call
          MaxHist,   \* bound on a learning history
          MaxOps,    \* bound on the number of calls
          Record     \* keep the log of calls (generation) or not (exhaustive checking)

VARIABLES ws,        \* ws[w]: description of the model behind handle w
          slot,      \* slot[s]: description saved there
          obj,       \* obj[o]: content of the example object, or "none"
          last,      \* the latest call
          log        \* all calls so far, when Record
vars == <<ws, slot, obj, last, log>>

Gone == [cfg |-> "none", hist |-> <<>>]
Model(c) == [cfg |-> c, hist |-> <<>>]
Learned(m, e) == [m EXCEPT !.hist = Append(@, e)]
Live(w) == ws[w].cfg # "none"
Holds(o) == obj[o] # "none"

NoSlot == [fmt |-> "none", model |-> Gone]
Call(r) == /\ last' = r
           /\ log' = IF Record THEN Append(log, r) ELSE log

On(a) == a \in ACTS

New(w, c) ==
  /\ ws' = [ws EXCEPT ![w] = Model(c)]
  /\ UNCHANGED <<slot, obj>>
  /\ Call([a |-> "new", w |-> w, c |-> c])

\* Parsing (or building) an example into an object.
Make(o, e) ==
  /\ obj' = [obj EXCEPT ![o] = e]
  /\ UNCHANGED <<ws, slot>>
  /\ Call([a |-> "make", o |-> o, e |-> e])

\* The container goes back to the pool; its content is gone.
Recycle(o) ==
  /\ Holds(o)
  /\ obj' = [obj EXCEPT ![o] = "none"]
  /\ UNCHANGED <<ws, slot>>
  /\ Call([a |-> "recycle", o |-> o])

Predict(w, o) ==
  /\ Live(w) /\ Holds(o)
  /\ UNCHANGED <<ws, slot, obj>>
  /\ Call([a |-> "predict", w |-> w, o |-> o])

Learn(w, o) ==
  /\ Live(w) /\ Holds(o)
  /\ ws' = [ws EXCEPT ![w] = Learned(@, obj[o])]
  /\ UNCHANGED <<slot, obj>>
  /\ Call([a |-> "learn", w |-> w, o |-> o])

PredictThenLearn(w, o) ==
  /\ Live(w) /\ Holds(o)
  /\ ws' = [ws EXCEPT ![w] = Learned(@, obj[o])]
  /\ UNCHANGED <<slot, obj>>
  /\ Call([a |-> "ptl", w |-> w, o |-> o])

Save(w, s, f) ==
  /\ Live(w)
  /\ slot' = [slot EXCEPT ![s] = [fmt |-> f, model |-> ws[w]]]
  /\ UNCHANGED <<ws, obj>>
  /\ Call([a |-> "save", w |-> w, s |-> s, f |-> f])

Load(w, s) ==
  /\ slot[s].fmt # "none"
  /\ ws' = [ws EXCEPT ![w] = slot[s].model]
  /\ UNCHANGED <<slot, obj>>
  /\ Call([a |-> "load", w |-> w, s |-> s, f |-> slot[s].fmt])

\* Looking at a whole model, or at an example object.
Dump(w) ==
  /\ Live(w)
  /\ UNCHANGED <<ws, slot, obj>>
  /\ Call([a |-> "dump", w |-> w])

Show(o) ==
  /\ Holds(o)
  /\ UNCHANGED <<ws, slot, obj>>
  /\ Call([a |-> "show", o |-> o])

\* A call that cannot be honoured (a configuration, a model or a text that is not one, things of the
\* wrong type) is refused, and it is as if it had never been made.
WHYS == {"config", "model", "text", "type"}
Refuse(y) ==
  /\ UNCHANGED <<ws, slot, obj>>
  /\ Call([a |-> "refuse", y |-> y])

Init == /\ ws = [w \in WS |-> Gone]
        /\ slot = [s \in SLOTS |-> NoSlot]
        /\ obj = [o \in OBJ |-> "none"]
        /\ last = [a |-> "init"]
        /\ log = <<>>

Room == ~Record \/ Len(log) < MaxOps
Short(w) == Len(ws[w].hist) < MaxHist

DoNew == On("new") /\ Room /\ \E w \in WS, c \in CFGS : New(w, c)
DoMake == On("make") /\ Room /\ \E o \in OBJ, e \in EX : ~Holds(o) /\ Make(o, e)
DoRecycle == On("recycle") /\ Room /\ \E o \in OBJ : Recycle(o)
DoPredict == On("predict") /\ Room /\ \E w \in WS, o \in OBJ : Predict(w, o)
DoLearn == On("learn") /\ Room /\ \E w \in WS, o \in OBJ : Short(w) /\ Learn(w, o)
DoPtl == On("ptl") /\ Room /\ \E w \in WS, o \in OBJ : Short(w) /\ PredictThenLearn(w, o)
DoSave == On("save") /\ Room /\ \E w \in WS, s \in SLOTS, f \in FMTS : Save(w, s, f)
DoLoad == On("load") /\ Room /\ \E w \in WS, s \in SLOTS : Load(w, s)
DoDump == On("dump") /\ Room /\ \E w \in WS : Dump(w)
DoShow == On("show") /\ Room /\ \E o \in OBJ : Show(o)

DoRefuse == On("refuse") /\ Room /\ \E y \in WHYS : Refuse(y)

Next == DoNew \/ DoMake \/ DoRecycle \/ DoPredict \/ DoLearn \/ DoPtl
        \/ DoSave \/ DoLoad \/ DoDump \/ DoShow \/ DoRefuse
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design, checked exhaustively within the bounds. *)

Models == [cfg : CFGS \cup {"none"}, hist : UNION {[1..n -> EX] : n \in 0..MaxHist}]
TypeOK == /\ ws \in [WS -> Models]
          /\ \A s \in SLOTS : slot[s].fmt \in FMTS \cup {"none"} /\ slot[s].model \in Models
          /\ obj \in [OBJ -> EX \cup {"none"}]

\* C01: predicting (and looking) changes nothing at all.
Silent == [][last'.a \in {"predict", "dump", "show", "refuse"} => UNCHANGED <<ws, slot, obj>>]_vars
\* C02: predict-then-learn has exactly the effect of learn.
PtlIsLearn == [][\A w \in WS, o \in OBJ :
                   last' = [a |-> "ptl", w |-> w, o |-> o] => ws'[w] = Learned(ws[w], obj[o])]_vars
\* C03: a call affects the workspace it names and no other.
Isolated == [][\A w \in WS : ws'[w] # ws[w] => last'.w = w]_vars
\* C04, C05: a saved model is the model at that moment and stays so until overwritten;
\* restoring brings exactly that model back.
SaveFaithful == [][\A s \in SLOTS : slot'[s] # slot[s] =>
                     last'.a = "save" /\ last'.s = s /\ slot'[s].model = ws[last'.w]]_vars
LoadFaithful == [][last'.a = "load" => ws'[last'.w] = slot[last'.s].model]_vars
SaveSilent == [][last'.a = "save" => UNCHANGED <<ws, obj>>]_vars
\* C06: example objects change only when the caller makes or recycles them.
ObjectsIntact == [][obj' # obj => last'.a \in {"make", "recycle"}]_vars
\* C19: making an example never depends on what the container held before.
MakeForgets == [][last'.a = "make" => obj'[last'.o] = last'.e]_vars

\* Generation of behaviours.
Emit == (Record /\ Len(log) = MaxOps) => PrintT("@@" \o ToJson(log))
=============================================================================
