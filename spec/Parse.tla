------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* What an example is, independent of how it is written, and every way of  *)
(* writing it: VW text, JSON and decision-service JSON, each in several    *)
(* equivalent spellings.                                                   *)
(*                                                                         *)
(* The machine builds an abstract example step by step (parts, namespaces, *)
(* features, label); when finished, the meaning (Meaning) and the texts    *)
(* (Renderings) are emitted.  ParseTrace checks what the parsers made of   *)
(* the texts against the meaning.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NSS,      \* namespace names; "" is the default namespace
          NAMES,    \* feature names
          STRS,     \* string values of features
          VALS,     \* numbers, as written
          KINDS,    \* subset of {"simple", "cb"}
          MaxParts, MaxNs, MaxItems

VARIABLES kind, parts, shared, label, done
vars == <<kind, parts, shared, label, done>>

(* parts: one sequence of namespaces per action (exactly one for a simple example; the first one
   is the shared part when shared).  A namespace: [ns, k, items]; k is "pos" (items are numbers)
   or "obj" (items are [n, t, v]: a named feature with a number, a string or a flag). *)

NoLabel == [k |-> "none"]
Init == /\ kind \in KINDS
        /\ shared \in IF kind = "cb" THEN BOOLEAN ELSE {FALSE}
        /\ parts = <<<<>>>>
        /\ label = NoLabel
        /\ done = FALSE

Cur == parts[Len(parts)]
Put(p) == parts' = [parts EXCEPT ![Len(parts)] = p]
Keep == UNCHANGED <<kind, shared, done>>

AddNs(n, k) == /\ ~done /\ Len(Cur) < MaxNs
               /\ \A i \in 1..Len(Cur) : Cur[i].ns # n
               /\ (Len(Cur) > 0 => Len(Cur[Len(Cur)].items) > 0)
               /\ Put(Append(Cur, [ns |-> n, k |-> k, items |-> <<>>]))
               /\ UNCHANGED label /\ Keep

Room(k) == /\ ~done /\ Len(Cur) > 0 /\ Cur[Len(Cur)].k = k
           /\ Len(Cur[Len(Cur)].items) < MaxItems
AddItem(x) == Put([Cur EXCEPT ![Len(Cur)].items = Append(@, x)]) /\ UNCHANGED label /\ Keep
AddPos(v) == Room("pos") /\ AddItem([n |-> "", t |-> "pos", v |-> v])
Fresh(n) == \A i \in 1..Len(Cur[Len(Cur)].items) : Cur[Len(Cur)].items[i].n # n
AddNum(n, v) == Room("obj") /\ Fresh(n) /\ AddItem([n |-> n, t |-> "num", v |-> v])
AddStr(n, v) == Room("obj") /\ Fresh(n) /\ AddItem([n |-> n, t |-> "str", v |-> v])
AddFlag(n) == Room("obj") /\ Fresh(n) /\ AddItem([n |-> n, t |-> "flag", v |-> "1"])

NextPart == /\ ~done /\ kind = "cb" /\ Len(parts) < MaxParts
            /\ parts' = Append(parts, <<>>)
            /\ UNCHANGED label /\ Keep

SetLabel(v, w) == /\ ~done /\ kind = "simple" /\ label = NoLabel
                  /\ label' = [k |-> "simple", v |-> v, w |-> w]
                  /\ UNCHANGED parts /\ Keep
Actions == IF shared THEN SubSeq(parts, 2, Len(parts)) ELSE parts
SetCb(a, c, p) == /\ ~done /\ kind = "cb" /\ label = NoLabel
                  /\ a < Len(Actions)
                  /\ label' = [k |-> "cb", a |-> a, c |-> c, p |-> p]
                  /\ UNCHANGED parts /\ Keep

Finish == /\ ~done /\ done' = TRUE
          /\ Len(Actions) > 0
          /\ UNCHANGED <<kind, parts, shared, label>>

Next == \/ \E n \in NSS, k \in {"pos", "obj"} : AddNs(n, k)
        \/ \E v \in VALS : AddPos(v)
        \/ \E n \in NAMES, v \in VALS : AddNum(n, v)
        \/ \E n \in NAMES \cup {""}, v \in STRS : AddStr(n, v)
        \/ \E n \in NAMES : AddFlag(n)
        \/ NextPart
        \/ \E v \in {"1", "-0.5", "2.5"}, w \in {"", "1.0", "0.25"} : SetLabel(v, w)
        \/ \E a \in 0..2, c \in {"-1", "0.5"}, p \in {"0.5", "0.125"} : SetCb(a, c, p)
        \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Meaning. *)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]

ItemId(x, i) == CASE x.t = "pos" -> "p" \o ToString(i - 1)
                  [] x.t = "str" -> "s" \o x.n \o "=" \o x.v
                  [] OTHER -> "n" \o x.n
ItemVal(x) == IF x.t \in {"pos", "num"} THEN x.v ELSE "1"
NsMeaning(n) == [i \in 1..Len(n.items) |-> [ns |-> n.ns, id |-> ItemId(n.items[i], i), v |-> ItemVal(n.items[i])]]
PartMeaning(p) == Flat(Map(NsMeaning, p))
Meaning == [shared |-> IF shared THEN PartMeaning(parts[1]) ELSE <<>>,
            actions |-> Map(PartMeaning, Actions),
            label |-> label, kind |-> kind]

-----------------------------------------------------------------------------
(* Renderings.  A style: rev (other order of keys), sp (other spacing), alt (other spelling). *)

Style == [rev : BOOLEAN, sp : BOOLEAN, alt : BOOLEAN]
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Ord(s, st) == IF st.rev THEN Rev(s) ELSE s
Q(x) == "\"" \o x \o "\""
Sp(st) == IF st.sp THEN "  " ELSE ""
Pair(k, v, st) == Q(k) \o Sp(st) \o ":" \o Sp(st) \o v
Obj(kvs, st) == "{" \o Sp(st) \o Join(Ord(kvs, st), Sp(st) \o "," \o Sp(st)) \o "}"
Arr(xs, st) == "[" \o Sp(st) \o Join(xs, "," \o Sp(st)) \o "]"

One == {"1", "1.0"}
Plain(x) == x.t = "flag" \/ (x.t = "num" /\ x.v \in One)
AllPlain(n) == n.k = "obj" /\ \A i \in 1..Len(n.items) : Plain(n.items[i])

JsonItem(x, st) == Pair(x.n, CASE x.t = "str" -> Q(x.v)
                               [] x.t = "num" /\ st.alt /\ x.v \in One -> "true"
                               [] x.t = "num" -> x.v
                               [] x.t = "flag" -> IF st.alt THEN "1.0" ELSE "true", st)
\* Features whose name cannot be written in a format make the example inexpressible there.
Off(st) == IF st.alt THEN <<Pair("off", "false", st)>> ELSE <<>>

JsonNs(n, st) ==
  Pair(IF n.ns = "" THEN (IF st.alt THEN " " ELSE ":default") ELSE n.ns,
       IF n.k = "pos" THEN Arr([i \in 1..Len(n.items) |-> n.items[i].v], st)
       ELSE IF st.alt /\ AllPlain(n) /\ n.items # <<>>
            THEN Arr(Ord([i \in 1..Len(n.items) |-> Q(n.items[i].n)], st), st)
       ELSE Obj([i \in 1..Len(n.items) |-> JsonItem(n.items[i], st)] \o Off(st), st), st)
\* an empty positional namespace is written as an empty list
JsonPart(p, st) == Obj([i \in 1..Len(p) |-> JsonNs(p[i], st)], st)
JsonLabel(st) ==
  CASE label.k = "simple" -> IF label.w = "" THEN (IF st.alt THEN Obj(<<Pair("value", label.v, st)>>, st) ELSE label.v)
                             ELSE IF label.w = "1.0" /\ st.alt THEN label.v
                             ELSE Obj(<<Pair("value", label.v, st), Pair("weight", label.w, st)>>, st)
    [] label.k = "cb" -> Obj(<<Pair("action", ToString(label.a), st), Pair("cost", label.c, st),
                              Pair("probability", label.p, st)>>, st)
    [] OTHER -> "null"
JsonText(st) ==
  Obj((IF label.k = "none" /\ ~st.alt THEN <<>> ELSE <<Pair("label", JsonLabel(st), st)>>)
      \o (IF kind = "simple" THEN <<Pair("features", JsonPart(parts[1], st), st)>>
          ELSE (IF shared THEN <<Pair("shared", JsonPart(parts[1], st), st)>>
                ELSE IF st.alt THEN <<Pair("shared", IF st.sp THEN "{}" ELSE "null", st)>> ELSE <<>>)
               \o <<Pair("actions", Arr([i \in 1..Len(Actions) |-> JsonPart(Actions[i], st)], st), st)>>), st)

(* Decision-service JSON: features outside any object belong to the default namespace. *)
DsNs(n, st) ==
  IF n.ns = "" /\ n.k = "obj" /\ ~(st.alt /\ st.sp) THEN
       [i \in 1..Len(n.items) |-> JsonItem(n.items[i], st)]
  ELSE <<Pair(IF n.ns = "" THEN " " ELSE n.ns,
       IF n.k = "pos" THEN Arr([i \in 1..Len(n.items) |-> n.items[i].v], st)
       ELSE LET o == Obj([i \in 1..Len(n.items) |-> JsonItem(n.items[i], st)] \o Off(st)
                         \o (IF st.alt THEN <<Pair("_ignored", "7", st)>> ELSE <<>>), st)
                one(i) == Obj(<<JsonItem(n.items[i], st)>>, st)
            IN IF st.alt /\ st.rev /\ Len(n.items) > 0
               THEN Arr([i \in 1..Len(n.items) |-> one(i)], st)
               ELSE IF st.alt THEN "[" \o o \o "]" ELSE o, st)>>
DsPart(p, st) == Flat(Map(LAMBDA n : DsNs(n, st), p)) \o (IF st.alt THEN <<Pair("_tag", Q("t"), st)>> ELSE <<>>)
DsText(st) ==
  Obj((IF label.k = "cb" THEN <<Pair("_label_cost", label.c, st), Pair("_label_probability", label.p, st),
                               Pair("_labelIndex", ToString(label.a), st)>> ELSE <<>>)
      \o <<Pair("c", Obj((IF shared THEN DsPart(parts[1], st) ELSE <<>>)
                         \o <<Pair("_multi", Arr([i \in 1..Len(Actions) |-> Obj(DsPart(Actions[i], st), st)], st), st)>>, st), st)>>
      \o (IF st.alt THEN <<Pair("EventId", Q("e"), st), Pair("a", "[1,2]", st)>> ELSE <<>>), st)

(* VW text. *)
HALF == ("1" :> "0.5") @@ ("1.0" :> "5e-1") @@ ("2" :> "1") @@ ("-3.5" :> "-1.75") @@ ("0.25" :> "0.125")
        @@ ("1e2" :> "50") @@ ("0" :> "0")
Gap(st) == IF st.sp THEN "   " ELSE " "
VwItem(x, st) ==
  CASE x.t = "pos" -> ":" \o x.v
    [] x.t = "str" -> x.n \o ":" \o x.v
    [] x.t = "flag" -> IF st.alt THEN x.n \o ":1" ELSE x.n
    [] x.t = "num" -> IF st.alt /\ x.v \in One THEN x.n ELSE x.n \o ":" \o x.v
VwName(n, st) == n.ns   \* the default namespace is the unnamed one
Split(n, st) == st.alt /\ st.rev /\ n.k = "obj" /\ Len(n.items) > 1
\* A namespace may carry a weight that multiplies its features: written 2 with every value halved.
Halved(x) == [x EXCEPT !.t = IF x.t = "flag" THEN "num" ELSE x.t, !.v = HALF[x.v]]
Weighted(n, st) == st.alt /\ ~st.rev /\ n.ns # "" /\ n.items # <<>>
                   /\ \A i \in 1..Len(n.items) : n.items[i].t # "str" /\ n.items[i].v \in DOMAIN HALF
VwOne(n, items, st) == "|" \o VwName(n, st) \o (IF Weighted(n, st) THEN ":2" ELSE "") \o Gap(st)
                       \o Join([i \in 1..Len(items) |->
                                   IF Weighted(n, st) THEN VwItem(Halved(items[i]), st) ELSE VwItem(items[i], st)], Gap(st))
VwNs(n, st) == LET it == IF n.k = "obj" THEN Ord(n.items, st) ELSE n.items
               IN IF Split(n, st) THEN VwOne(n, <<it[1]>>, st) \o " " \o VwOne(n, Tail(it), st)
                  ELSE VwOne(n, it, st)
VwPart(p, st) == Join(Ord([i \in 1..Len(p) |-> VwNs(p[i], st)], st), " ")
                 \o (IF p = <<>> THEN "|" ELSE "") \o (IF st.sp THEN " " ELSE "")
VwLabel(st) == (CASE label.k = "simple" -> label.v \o (IF label.w = "" THEN (IF st.alt THEN " 1.0" ELSE "") ELSE Gap(st) \o label.w)
                 [] OTHER -> "") \o (IF st.alt /\ st.rev THEN " 'tag" ELSE IF label.k = "none" THEN "" ELSE " ")
VwCbLabel(i, st) == IF label.k = "cb" /\ label.a = i - 1
                    THEN (IF st.alt THEN "7" ELSE ToString(i - 1)) \o ":" \o label.c \o ":" \o label.p \o " " ELSE ""
VwText(st) ==
  IF kind = "simple" THEN VwLabel(st) \o VwPart(parts[1], st)
  ELSE Join((IF shared THEN <<"shared " \o VwPart(parts[1], st)>> ELSE <<>>)
            \o [i \in 1..Len(Actions) |-> VwCbLabel(i, st) \o VwPart(Actions[i], st)], "\n")

Renderings == {[f |-> "json", st |-> st, text |-> JsonText(st)] : st \in Style}
              \cup {[f |-> "vw", st |-> st, text |-> VwText(st)] : st \in Style}
              \cup (IF kind = "cb" THEN {[f |-> "dsjson", st |-> st, text |-> DsText(st)] : st \in Style} ELSE {})

-----------------------------------------------------------------------------
(* Sanity of the specification itself. *)
TypeOK == /\ kind \in {"simple", "cb"}
          /\ \A i \in 1..Len(parts) : Len(parts[i]) <= MaxNs
\* Writing an example in another style never changes what it means: the renderings are functions of
\* the abstract example alone, and the meaning does not mention a style.  What can be checked here
\* is that different meanings never share a rendering style's text for the same kind of input.
LabelFits == label.k = "cb" => label.a < Len(Actions)
Distinct == \A i \in 1..Len(parts) : \A x, y \in 1..Len(PartMeaning(parts[i])) :
              x # y => <<PartMeaning(parts[i])[x].ns, PartMeaning(parts[i])[x].id>> #
                       <<PartMeaning(parts[i])[y].ns, PartMeaning(parts[i])[y].id>>
Emit == done => PrintT("@@" \o ToJson([m |-> Meaning, r |-> Renderings]))
=============================================================================
