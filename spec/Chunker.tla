------------------------------ MODULE Chunker ------------------------------
(***************************************************************************)
(* Framing of a data stream into examples.                                 *)
(*                                                                         *)
(* A stream is a sequence of lines, each "data" (a whole example, in       *)
(* single-line formats), "shared", "action" or "label" (parts of a         *)
(* multi-line bandit example), or "blank".  How lines are terminated, and  *)
(* in what portions the stream is delivered, does not exist at this level: *)
(* the trace specification runs this machine for every such variant.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxLines,
          MODES        \* subset of {"single", "strict", "multi"}; strict: single-line without blank lines

VARIABLES mode, lines, block, out, done
vars == <<mode, lines, block, out, done>>

Ln(k, i) == [k |-> k, i |-> i]

\* An example as it is handed on: shared line (0: none), action lines, position of the labelled
\* action counted from 0 (-1: none, written 99 here), its line.
None == 99
Pos(b, S) == IF \E j \in 1..Len(b) : b[j].k \in S THEN CHOOSE j \in 1..Len(b) : b[j].k \in S ELSE 0
Ex(b) == LET sh == b[1].k = "shared"
             acts == IF sh THEN Tail(b) ELSE b
             p == Pos(acts, {"label"})
         IN [shared |-> IF sh THEN b[1].i ELSE 0,
             actions |-> [j \in 1..Len(acts) |-> acts[j].i],
             at |-> IF p = 0 THEN None ELSE p - 1]

Init == /\ mode \in MODES
        /\ lines = <<>> /\ block = <<>> /\ out = <<>> /\ done = FALSE

Fits(k) == CASE mode = "single" -> k \in {"data", "blank"}
             [] mode = "strict" -> k = "data"
             [] OTHER -> \/ k = "shared" /\ block = <<>>
                         \/ k = "action"
                         \/ k = "label" /\ Pos(block, {"label"}) = 0
                         \/ k = "blank" /\ ~(Len(block) = 1 /\ block[1].k = "shared")

Line(k, i) ==
  /\ ~done /\ Fits(k)
  /\ lines' = Append(lines, Ln(k, i))
  /\ CASE k = "data"  -> out' = Append(out, Ex(<<Ln(k, i)>>)) /\ UNCHANGED block
       [] k = "blank" -> IF block = <<>> THEN UNCHANGED <<out, block>>
                         ELSE out' = Append(out, Ex(block)) /\ block' = <<>>
       [] OTHER       -> block' = Append(block, Ln(k, i)) /\ UNCHANGED out
  /\ UNCHANGED <<mode, done>>

Eof == /\ ~done /\ ~(Len(block) = 1 /\ block[1].k = "shared")
       /\ out' = IF block = <<>> THEN out ELSE Append(out, Ex(block))
       /\ block' = <<>>
       /\ done' = TRUE
       /\ UNCHANGED <<mode, lines>>

Kinds == {"data", "shared", "action", "label", "blank"}
Read == \E k \in Kinds : Len(lines) < MaxLines /\ Line(k, Len(lines) + 1)
Next == Read \/ Eof
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What the machine must achieve, said without a machine. *)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
All(e) == (IF e.shared = 0 THEN <<>> ELSE <<e.shared>>) \o e.actions
DataIds == [j \in 1..Len(SelectSeq(lines, LAMBDA x : x.k # "blank")) |-> SelectSeq(lines, LAMBDA x : x.k # "blank")[j].i]

\* Every line of data is in exactly one example, in order; nothing is lost or invented.
Conserved == done => Flat([j \in 1..Len(out) |-> All(out[j])]) = DataIds
\* Two lines are in one example exactly when the format is multi-line and no blank line is between them.
Owner(i) == CHOOSE j \in 1..Len(out) : \E x \in 1..Len(All(out[j])) : All(out[j])[x] = i
Framed == done => \A a, b \in 1..Len(lines) :
             (a < b /\ lines[a].k # "blank" /\ lines[b].k # "blank") =>
               ((Owner(a) = Owner(b)) <=> (mode = "multi" /\ \A c \in a..b : lines[c].k # "blank"))
\* Surplus blank lines make no difference: the examples are those of the stream without them.
RECURSIVE Blocks(_, _, _)
Blocks(ls, b, acc) == IF ls = <<>> THEN (IF b = <<>> THEN acc ELSE Append(acc, b))
                      ELSE IF Head(ls).k = "blank" THEN Blocks(Tail(ls), <<>>, IF b = <<>> THEN acc ELSE Append(acc, b))
                      ELSE Blocks(Tail(ls), Append(b, Head(ls)), acc)
Squeezed == (done /\ mode = "multi") => out = LET bs == Blocks(lines, <<>>, <<>>) IN [j \in 1..Len(bs) |-> Ex(bs[j])]
Labelled == done => \A j \in 1..Len(out) : out[j].at # None => lines[out[j].actions[out[j].at + 1]].k = "label"
\* For generation.
LongEnough == done' => Len(lines) >= 7
Emit == done => PrintT("@@" \o ToJson([mode |-> mode, kinds |-> [j \in 1..Len(lines) |-> lines[j].k]]))
=============================================================================
