----------------------------- MODULE ConfigTrace ----------------------------
(***************************************************************************)
(* Validates what real workspaces make of configurations.                  *)
(*  "config" from, layers: a new stack;                                    *)
(*  "spell" written, cut, spoilt, refused, token: a spelling, and how the  *)
(*  workspace created from it behaved (0: not observed);  "failed";        *)
(*  "schema" written, cut, spoilt, conforms;  "default" layer, option,     *)
(*  value: the value a schema documents (0: the right one).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES written, cut, syntax, order, spoilt, meant, known, from, layers, l
Events == ndJsonDeserialize(IOEnv.TRACE)
OPTS == {}
VALUES == {}
LAYERS == 1
FROMS == {2}
SYNTAXES == {"json"}
MaxOther == 0
tvars == <<written, cut, syntax, order, spoilt, meant, known, from, layers, l>>
C == INSTANCE Config

Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

TraceInit == /\ written = {} /\ cut = 2 /\ syntax = "json" /\ order = 0 /\ spoilt = FALSE /\ meant = {}
             /\ known = {} /\ from = 2 /\ layers = 1 /\ l = 1
TConfig == /\ Is("config") /\ written' = {} /\ cut' = Ev.layers + 1 /\ spoilt' = FALSE /\ meant' = {} /\ known' = {}
           /\ from' = Ev.from /\ layers' = Ev.layers /\ UNCHANGED <<syntax, order>>
TSpell == /\ Is("spell")
          /\ \E w \in {{<<Ev.written[j][1], Ev.written[j][2], Ev.written[j][3]>> : j \in 1..Len(Ev.written)}} :
             /\ C!Once(w)
             /\ Ev.cut <= layers => C!Cuttable(Ev.cut, w)
             /\ Ev.refused = Ev.spoilt
             /\ (~Ev.refused /\ Ev.token # 0) => \A k \in known : k[1] = C!Meaning(w) => k[2] = Ev.token
             /\ written' = w /\ meant' = C!Meaning(w)
             /\ known' = IF Ev.refused \/ Ev.token = 0 THEN known ELSE known \cup {<<C!Meaning(w), Ev.token>>}
          /\ cut' = Ev.cut /\ spoilt' = Ev.spoilt
          /\ UNCHANGED <<syntax, order, from, layers>>
\* A published schema: which spellings conform to it, and which value it gives an option left out.
TSchema == /\ Is("schema")
           /\ Ev.conforms = ~Ev.spoilt
           /\ written' = {<<Ev.written[j][1], Ev.written[j][2], Ev.written[j][3]>> : j \in 1..Len(Ev.written)} /\ C!Once(written')
           /\ meant' = C!Meaning(written') /\ cut' = Ev.cut /\ spoilt' = Ev.spoilt
           /\ UNCHANGED <<syntax, order, from, layers, known>>
TDefault == /\ Is("default") /\ C!Meaning({<<Ev.layer, Ev.option, Ev.value>>}) = {}
            /\ UNCHANGED <<written, cut, syntax, order, spoilt, meant, known, from, layers>>
TraceNext == TConfig \/ TSpell \/ TSchema \/ TDefault
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
