--------------------------- MODULE WorkspaceTrace ---------------------------
(***************************************************************************)
(* Validates recorded calls against Workspace: every observed result must  *)
(* be a function of the abstract state it was observed in.  The trace is a *)
(* concatenation of sessions; "reset" begins a new one (and forgets what   *)
(* was observed, unless the new session is a twin of the previous one).    *)
(*                                                                         *)
(* Each event carries ok (the call returned) and r, an interned result     *)
(* (equal numbers iff bit-equal results).                                  *)
(***************************************************************************)
EXTENDS Workspace, IOUtils

VARIABLES l, memo
tvars == <<ws, slot, obj, last, log, l, memo>>

Trace == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == Init /\ l = 1 /\ memo = <<>>

ASSUME TLCSet(7, 0)
Hit == TLCSet(7, TLCGet(7) + 1)

\* The result r must equal what was observed before under the same key.
Agrees(key, r) ==
  IF key \in DOMAIN memo
  THEN memo[key] = r /\ Hit /\ UNCHANGED memo
  ELSE memo' = memo @@ (key :> r)

Ev == Trace[l]
Is(a) == l <= Len(Trace) /\ Ev.a = a /\ l' = l + 1

TReset == /\ Is("reset")
          /\ ws' = [w \in WS |-> Gone]
          /\ slot' = [s \in SLOTS |-> NoSlot]
          /\ obj' = [o \in OBJ |-> "none"]
          /\ last' = [a |-> "init"]
          /\ UNCHANGED log
          /\ memo' = IF Ev.keep THEN memo ELSE <<>>

TNew == Is("new") /\ Ev.ok /\ New(Ev.w, Ev.c)
        \* the declared types and typename follow from the configuration alone
        /\ Agrees(<<"T", Ev.c, <<>>, "">>, Ev.r)
TMake == Is("make") /\ Ev.ok /\ Make(Ev.o, Ev.e)
         /\ Agrees(<<"F", "", <<>>, Ev.e>>, Ev.r)
TRecycle == Is("recycle") /\ Ev.ok /\ Recycle(Ev.o) /\ UNCHANGED memo
TShow == Is("show") /\ Ev.ok /\ Show(Ev.o)
         /\ Agrees(<<"F", "", <<>>, obj[Ev.o]>>, Ev.r)
TPredict == Is("predict") /\ Ev.ok /\ Predict(Ev.w, Ev.o)
            /\ Agrees(<<"P", ws[Ev.w].cfg, ws[Ev.w].hist, obj[Ev.o]>>, Ev.r)
TLearn == Is("learn") /\ Ev.ok /\ Learn(Ev.w, Ev.o) /\ UNCHANGED memo
TPtl == Is("ptl") /\ Ev.ok /\ PredictThenLearn(Ev.w, Ev.o)
        /\ Agrees(<<"P", ws[Ev.w].cfg, ws[Ev.w].hist, obj[Ev.o]>>, Ev.r)
\* Models compare as saved; d is the concrete configuration (two spellings of one behaviour
\* may differ in it, as when the debug reduction is inserted).
TSave == Is("save") /\ Ev.ok /\ Save(Ev.w, Ev.s, Ev.f)
         /\ Agrees(<<Ev.f, Ev.d, ws[Ev.w].hist, "">>, Ev.r)
TLoad == Is("load") /\ Ev.ok /\ Load(Ev.w, Ev.s) /\ UNCHANGED memo
TDump == Is("dump") /\ Ev.ok /\ Dump(Ev.w)
         /\ Agrees(<<"D", Ev.d, ws[Ev.w].hist, "">>, Ev.r)

\* ok: the caller was told (an exception, an error), and the process lives.
TRefuse == Is("refuse") /\ Ev.ok /\ Refuse(Ev.y) /\ UNCHANGED memo

TraceNext == TReset \/ TNew \/ TMake \/ TRecycle \/ TShow \/ TPredict \/ TLearn \/ TPtl
             \/ TSave \/ TLoad \/ TDump \/ TRefuse
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Every behaviour of the trace specification is also one of Workspace (its invariants hold).
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1,
                                      length |-> Len(Trace), hits |-> TLCGet(7)]))
=============================================================================
