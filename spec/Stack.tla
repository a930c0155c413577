------------------------------- MODULE Stack -------------------------------
(***************************************************************************)
(* When a workspace comes into being: stacks of reductions, written from   *)
(* the bottom up, and what each accepts and promises.                      *)
(*                                                                         *)
(* A layer is <<kind, form>>: the kind of reduction and how it is written. *)
(* An omitted bottom (the empty stack beneath a layer) stands for that     *)
(* layer's default child.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds,      \* kinds of layer that may be written
          WELL,       \* forms that are well formed: none, some or all options written
          ILL,        \* malformed ones: unknown option, value of the wrong type, key beside the options, ...
          GLOBALS,    \* forms of the global section: "good", and those to refuse
          MaxDepth, MaxIll

Leaf == {"Coin", "Unknown"}
Explorers == {"Greedy", "Softmax", "SquareCb"}
Bandits == {"CbMtr", "CbIps"}
Passing == {"Debug", "Elementwise"}
Unary == Explorers \cup Bandits \cup Passing \cup {"Binary"}

Types(l, f, p) == [ok |-> TRUE, label |-> l, features |-> f, prediction |-> p]
Refused == [ok |-> FALSE, label |-> "", features |-> "", prediction |-> ""]
Coin == Types("Simple", "SparseSimple", "Scalar")
Bandit(p) == Types("CB", "SparseCBAdf", p)

\* What a layer of kind k makes of what lies beneath it.
Over(k, t) ==
  IF ~t.ok THEN Refused ELSE
  CASE k = "Debug" -> t
    [] k = "Elementwise" -> IF t.features = "SparseSimple" THEN t ELSE Refused
    [] k = "Binary" -> IF t.label = "Simple" /\ t.prediction = "Scalar" THEN Types("Binary", t.features, "Binary") ELSE Refused
    [] k \in Bandits -> IF t = Coin THEN Bandit("ActionScores") ELSE Refused
    [] k \in Explorers -> IF t = Bandit("ActionScores") THEN Bandit("ActionProbs") ELSE Refused

\* The child a layer has when none is written.  Debug has none to offer.
DefaultChild(k) == CASE k \in {"Binary", "Elementwise"} \cup Bandits -> Coin
                     [] k \in Explorers -> Bandit("ActionScores")
                     [] k = "Debug" -> Refused

VARIABLES glob,      \* form of the global section
          stack,     \* layers, from the top
          types,     \* what the stack accepts and promises, or Refused
          unsettled  \* the statement leaves this one open: SquareCB over IPS with a debug layer between
vars == <<glob, stack, types, unsettled>>

Ills(s) == Cardinality({j \in 1..Len(s) : s[j][2] \in ILL})
Top == stack[1][1]

Init == glob \in GLOBALS /\ stack = <<>> /\ types = Refused /\ unsettled = FALSE

Bottom(k, f) ==
  /\ stack = <<>> /\ k \in Leaf
  /\ stack' = <<<<k, f>>>>
  /\ types' = IF k = "Coin" /\ f \in WELL THEN Coin ELSE Refused
  /\ UNCHANGED <<glob, unsettled>>

Wrap(k, f) ==
  /\ k \in Unary
  /\ stack' = <<<<k, f>>>> \o stack
  /\ types' = IF f \in ILL THEN Refused
              ELSE IF stack = <<>> THEN Over(k, DefaultChild(k))
              ELSE IF k = "SquareCb" /\ Top = "CbIps" THEN Refused
              ELSE Over(k, types)
  \* IPS beneath one or more debug layers
  /\ unsettled' = \/ unsettled
                  \/ /\ k = "SquareCb" /\ types.ok
                     /\ \E j \in 2..Len(stack) : stack[j][1] = "CbIps" /\ \A i \in 1..(j - 1) : stack[i][1] = "Debug"
  /\ UNCHANGED glob

Grow(k, f) == Bottom(k, f) \/ Wrap(k, f)
Allowed(f) == f \in WELL \/ (f \in ILL /\ glob = "good" /\ Ills(stack) < MaxIll)
Bottoms == Len(stack) < MaxDepth /\ \E k \in Kinds, f \in WELL \cup ILL : Allowed(f) /\ Bottom(k, f)
Wraps == Len(stack) < MaxDepth /\ \E k \in Kinds, f \in WELL \cup ILL : Allowed(f) /\ Wrap(k, f)
Next == Bottoms \/ Wraps
Spec == Init /\ [][Next]_vars

\* What creating a workspace from the configuration yields.
Outcome == IF glob = "good" /\ stack # <<>> THEN types ELSE Refused
Made == stack # <<>> /\ types.ok

---------------------------------------------------------------------------
KindsOf == [j \in 1..Len(stack) |-> stack[j][1]]
Count(S) == Cardinality({j \in 1..Len(stack) : stack[j][1] \in S})
\* The kinds written, without layers that pass everything on.
Core == SelectSeq(KindsOf, LAMBDA k : k \notin Passing)
\* ... of an accepted stack: a reading of the grammar from the top.
Shape == LET bare == Core IN
         \/ bare = <<>> \/ bare = <<"Coin">>
         \/ bare = <<"Binary">> \/ bare = <<"Binary", "Coin">>
         \/ \E b \in Bandits : bare = <<b>> \/ bare = <<b, "Coin">>
         \/ \E e \in Explorers : bare = <<e>>
         \/ \E e \in Explorers, b \in Bandits : bare = <<e, b>> \/ bare = <<e, b, "Coin">>
Grammar == Made => Shape
\* The types are those the topmost layer that has a say implies.
Implied == Made =>
  /\ types.prediction = (IF Count(Explorers) > 0 THEN "ActionProbs" ELSE IF Count(Bandits) > 0 THEN "ActionScores"
                         ELSE IF Count({"Binary"}) > 0 THEN "Binary" ELSE "Scalar")
  /\ (types.features = "SparseCBAdf") = (types.label = "CB")
  /\ (types.label = "Binary") = (types.prediction = "Binary")
  /\ (types.label = "Simple") = (types.prediction = "Scalar")
\* Nothing rescues a bad part, wherever it lies.
NoRescue == [][(~types.ok /\ stack # <<>>) => ~types'.ok]_vars
BadParts == Made => \A j \in 1..Len(stack) : stack[j][2] \in WELL /\ stack[j][1] # "Unknown"
\* How many of the options are written is no matter: only their forms' goodness is.
\* A debug layer more or less changes nothing (except next to SquareCB over IPS, left open).
Unwrapped == [][(stack # <<>> /\ stack'[1][1] = "Debug" /\ stack'[1][2] \in WELL) => types' = types]_vars
Depth == Made => Count(Bandits) <= 1 /\ Count(Explorers) <= 1 /\ Count({"Binary"}) <= 1 /\ Count(Bandits \cup {"Binary"}) <= 1
Direct == Made => ~\E j \in 1..(Len(stack) - 1) : stack[j][1] = "SquareCb" /\ stack[j + 1][1] = "CbIps"
=============================================================================
