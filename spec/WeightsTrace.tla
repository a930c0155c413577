---------------------------- MODULE WeightsTrace ----------------------------
(***************************************************************************)
(* Validates real stores of weights.                                       *)
(*  "config": a fresh store (holds: of a loaded one, <<key, token>> pairs);*)
(*  "set" key token: one weight written; "get" key token: one weight read; *)
(*  "learn" features holds: learning from an example whose features are at *)
(*  the keys listed, and all weights afterwards; "same" holds: something   *)
(*  that must not change any weight.  Token 0: all numbers are 0.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES held, l      \* held: key |-> token, of the weights that are not blank
tvars == <<held, l>>

Events == ndJsonDeserialize(IOEnv.TRACE)
Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

Pairs(s) == {<<s[n][1], s[n][2]>> : n \in {m \in 1..Len(s) : s[m][2] # 0}}
TraceInit == held = {} /\ l = 1
TConfig == Is("config") /\ held' = Pairs(Ev.holds)
Token(k) == IF \E p \in held : p[1] = k THEN (CHOOSE p \in held : p[1] = k)[2] ELSE 0
TSet == Is("set") /\ held' = {p \in held : p[1] # Ev.key} \cup (IF Ev.token = 0 THEN {} ELSE {<<Ev.key, Ev.token>>})
TGet == Is("get") /\ Ev.token = Token(Ev.key) /\ UNCHANGED held
\* Weights!Learn: those of other keys stay
Others(h, S) == {p \in h : p[1] \notin S}
TLearn == /\ Is("learn")
          /\ held' = Pairs(Ev.holds)
          /\ \E S \in {{Ev.features[n] : n \in 1..Len(Ev.features)}} : Others(held', S) = Others(held, S)
TSame == Is("same") /\ Pairs(Ev.holds) = held /\ UNCHANGED held

TraceNext == TConfig \/ TSet \/ TGet \/ TLearn \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
