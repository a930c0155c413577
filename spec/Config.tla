------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* How a configuration may be written, and what it means.                  *)
(*                                                                         *)
(* Layer 0 is the global section, layers 1.. the stack from the top.       *)
(* Options are <<layer, name>>; the value 0 of an option is its documented *)
(* default.  A spelling is the set of <<layer, name, value>> it writes,    *)
(* the layer from which on it writes nothing at all (the layers beneath    *)
(* are the default child of the one above), a syntax and an order of keys. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS OPTS,      \* options, as <<layer, name>>
          VALUES,    \* values an option may have, 0 among them
          LAYERS, FROMS,
          SYNTAXES,
          MaxOther   \* bound on options given another value than the default

VARIABLES layers,    \* of the stack
          from,      \* layers from here on are the default child of the layer above (past the last: none are)
          written, cut, syntax, order, spoilt,
          meant      \* what the writer wants: values other than the default
vars == <<layers, from, written, cut, syntax, order, spoilt, meant>>

\* What a set of written options means: everything left out has its default.
Meaning(w) == {x \in w : x[3] # 0}
Once(w) == \A x, y \in w : x[1] = y[1] /\ x[2] = y[2] => x = y
Cuttable(c, w) == c >= from /\ c >= 2 /\ \A x \in w : x[1] < c

Init == /\ layers = LAYERS /\ from \in FROMS /\ written = {} /\ cut = LAYERS + 1 /\ syntax \in SYNTAXES /\ order = 0 /\ spoilt = FALSE /\ meant = {}

Wrote(o) == \E x \in written : x[1] = o[1] /\ x[2] = o[2]
\* Choosing values, and writing them.
Set(o, v) ==
  /\ v # 0 /\ o[1] < cut /\ Cardinality(Meaning(written)) < MaxOther
  /\ LET rest == {x \in written : x[1] # o[1] \/ x[2] # o[2]} IN
     /\ written' = rest \cup {<<o[1], o[2], v>>}
     /\ meant' = {x \in meant : x[1] # o[1] \/ x[2] # o[2]} \cup {<<o[1], o[2], v>>}
  /\ UNCHANGED <<layers, from, cut, syntax, order, spoilt>>
\* Ways to write the same thing.
Spell(o) == ~Wrote(o) /\ o[1] < cut /\ written' = written \cup {<<o[1], o[2], 0>>} /\ UNCHANGED <<layers, from, cut, syntax, order, spoilt, meant>>
Leave(o) == /\ <<o[1], o[2], 0>> \in written /\ written' = written \ {<<o[1], o[2], 0>>} /\ UNCHANGED <<layers, from, cut, syntax, order, spoilt, meant>>
Cut(c) == cut # c /\ c <= layers /\ Cuttable(c, written) /\ cut' = c /\ UNCHANGED <<layers, from, written, syntax, order, spoilt, meant>>
Uncut == ~spoilt /\ cut <= layers /\ cut' = layers + 1 /\ UNCHANGED <<layers, from, written, syntax, order, spoilt, meant>>
Translate(s) == s # syntax /\ syntax' = s /\ UNCHANGED <<layers, from, written, cut, order, spoilt, meant>>
Reorder == ~spoilt /\ order' = 1 - order /\ UNCHANGED <<layers, from, written, cut, syntax, spoilt, meant>>
\* A misspelt or unknown option, or a value of the wrong type, anywhere.
Spoil == ~spoilt /\ spoilt' = TRUE /\ UNCHANGED <<layers, from, written, cut, syntax, order, meant>>

Sets == ~spoilt /\ \E o \in OPTS, v \in VALUES : Set(o, v)
Spells == ~spoilt /\ \E o \in OPTS : Spell(o)
Leaves == ~spoilt /\ \E o \in OPTS : Leave(o)
Cuts == ~spoilt /\ \E c \in 2..layers : Cut(c)
Translates == ~spoilt /\ \E s \in SYNTAXES : Translate(s)
Respell == Spells \/ Leaves \/ Cuts \/ Uncut \/ Translates \/ Reorder
Next == Sets \/ Spells \/ Leaves \/ Cuts \/ Uncut \/ Translates \/ Reorder \/ Spoil
Spec == Init /\ [][Next]_vars

Refused == spoilt
---------------------------------------------------------------------------
TypeOK == Once(written) /\ (cut <= layers => Cuttable(cut, written))
Faithful == Meaning(written) = meant
Same == [][Respell => Meaning(written') = Meaning(written)]_vars
Different == [][Sets => (written' = written) = (Meaning(written') = Meaning(written))]_vars
\* Nothing else than what differs from the defaults need be written.
Terse == Once(Meaning(written)) /\ Meaning(Meaning(written)) = Meaning(written)
=============================================================================
