---------------------------- MODULE ExpandTrace ----------------------------
(***************************************************************************)
(* Validates what the real library expands examples to.                    *)
(*  "config" inters, const; "expand": an example (values are distinct      *)
(*  primes) and the <<weight, value>> pairs seen by prediction, by the     *)
(*  reading and by the updating pass; "learned": the weights that changed; *)
(*  "same": whether the model did as one given the expansion itself.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES inters, const, ex, terms, weights, place, l
EXS == {}
INTERS == {}
MaxWeights == 0
P == INSTANCE Expand
tvars == <<inters, const, ex, terms, weights, place, l>>

Events == ndJsonDeserialize(IOEnv.TRACE)
Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

\* place: key of a term |-> the weight it was seen at
TraceInit == inters = <<>> /\ const = FALSE /\ ex = <<>> /\ terms = <<>> /\ weights = {} /\ place = <<>> /\ l = 1

TConfig == /\ Is("config") /\ inters' = Ev.inters /\ const' = Ev.const
           /\ ex' = <<>> /\ terms' = <<>> /\ weights' = {} /\ place' = <<>>

\* Terms with their values, least value first.
Priced == SortSeq([n \in 1..Len(terms') |-> <<P!Product(terms'[n]), P!Key(terms'[n])>>], LAMBDA x, y : x[1] < y[1])
Less(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])
Seen(s) == SortSeq(s, Less)

TExpand == /\ Is("expand") /\ Ev.ok
           /\ P!Predict(Ev.ex)
           /\ Len(Ev.predict) = Len(terms')
           /\ \E want \in {Priced}, got \in {Seen(Ev.predict)} :
              LET n == Len(want) IN
              \* where the value is that of one term only, its weight is known
              \E own \in {{i \in 1..n : (i = 1 \/ want[i-1][1] # want[i][1]) /\ (i = n \/ want[i+1][1] # want[i][1])}} :
              \E new \in {[k \in {want[i][2] : i \in own} |-> {got[i][1] : i \in {j \in own : want[j][2] = k}}]} :
                 /\ \A i \in 1..n : want[i][1] = got[i][2]
                 /\ Seen(Ev.state) = got
                 /\ Seen(Ev.update) = got
                 \* distinct terms live at distinct weights, up to a few collisions
                 /\ Ev.wide => Cardinality({got[i][1] : i \in 1..n}) + 3 >= Cardinality({want[i][2] : i \in 1..n})
                 /\ \A k \in DOMAIN new : /\ Cardinality(new[k]) = 1
                                          /\ Len(k) = 1 => new[k] = {k[1]}
                                          /\ k \in DOMAIN place => place[k] = new[k]
                 /\ place' = new @@ place

\* A feature counts once each time it occurs; weights that changed are those of the expansion.
TLearned == /\ Is("learned") /\ Ev.ok
            /\ {Ev.changed[n] : n \in 1..Len(Ev.changed)} \subseteq {Ev.expansion[n] : n \in 1..Len(Ev.expansion)}
            /\ Ev.moved => {Ev.expansion[n] : n \in 1..Len(Ev.expansion)} \subseteq {Ev.changed[n] : n \in 1..Len(Ev.changed)}
            /\ UNCHANGED <<inters, const, ex, terms, weights, place>>

TSame == Is("same") /\ Ev.ok /\ UNCHANGED <<inters, const, ex, terms, weights, place>>

TraceNext == TConfig \/ TExpand \/ TLearned \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
