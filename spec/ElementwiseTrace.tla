-------------------------- MODULE ElementwiseTrace --------------------------
(***************************************************************************)
(* Validates what real elementwise-interaction stacks give the regressor.  *)
(*  "config" one two keep wrap (size of the index space; 0: large);        *)
(*  "use" ex (name, positions and values), got: for each namespace the     *)
(*  regressor was given its name ("*" when it is none of the example's)    *)
(*  and its indices and values, base: the index of position 0 of every     *)
(*  named namespace, intact: the example afterwards equals the one before; *)
(*  "same": whether the model did as one given the products itself.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

VARIABLES one, two, keep, own, given, ops, star, size, l
NAMES == {}
POS == {}
VALS == {}
MaxOps == 0
P == INSTANCE Elementwise
tvars == <<one, two, keep, own, given, ops, star, size, l>>

Events == ndJsonDeserialize(IOEnv.TRACE)
Ev == Events[l]
Is(a) == l <= Len(Events) /\ Ev.a = a /\ l' = l + 1

\* star: index of position 0 among the products, -1 when not known yet
TraceInit == one = "" /\ two = "" /\ keep = FALSE /\ own = <<>> /\ given = <<>> /\ ops = 0 /\ star = -1 /\ size = 1 /\ l = 1
TConfig == /\ Is("config") /\ one' = Ev.one /\ two' = Ev.two /\ keep' = Ev.keep /\ size' = Ev.size
           /\ own' = <<>> /\ given' = <<>> /\ ops' = 0 /\ star' = -1

Fun(s) == [p \in {s[i][1] : i \in 1..Len(s)} |-> (CHOOSE x \in {s[i] : i \in 1..Len(s)} : x[1] = p)[2]]
Example(s) == [n \in {s[i][1] : i \in 1..Len(s)} |-> Fun((CHOOSE x \in {s[i] : i \in 1..Len(s)} : x[1] = n)[2])]
At(base, pos) == (base + pos) % size
\* What was given, namespaces that hold nothing left out.
Held(e) == {n \in DOMAIN e : DOMAIN e[n] # {}}

TUse == /\ Is("use") /\ Ev.ok /\ Ev.intact
        /\ UNCHANGED ops
        /\ P!Use(Example(Ev.ex))
        /\ UNCHANGED size
        \* the products sit at consecutive indices, from the same one each time
        /\ LET ps == DOMAIN given'["*"]
               products == {i \in 1..Len(Ev.got) : Ev.got[i][1] = "*"}
               seen == UNION {{Ev.got[i][2][j] : j \in 1..Len(Ev.got[i][2])} : i \in products}
           IN /\ Cardinality(products) <= 1
              /\ star' \in IF ps = {} \/ star >= 0 THEN {star} ELSE {(y[1] - p) % size : y \in seen, p \in ps}
              /\ Cardinality(seen) = Cardinality(ps)
              /\ \A i \in products : Len(Ev.got[i][2]) = Cardinality(ps)
              /\ seen = {<<At(star', p), given'["*"][p]>> : p \in ps}
        \* everything else as it was
        /\ LET others == {i \in 1..Len(Ev.got) : Ev.got[i][1] # "*"}
           IN /\ \A i \in others : LET n == Ev.got[i][1] IN
                   /\ Len(Ev.got[i][2]) > 0 => n \in Held(given')
                   /\ n \in DOMAIN given' => {Ev.got[i][2][j] : j \in 1..Len(Ev.got[i][2])} = {<<At(Ev.base[n], p), given'[n][p]>> : p \in DOMAIN given'[n]}
              /\ Held(given') \ {"*"} \subseteq {Ev.got[i][1] : i \in others}
              /\ \A i, j \in others : i # j => Ev.got[i][1] # Ev.got[j][1]

TSame == Is("same") /\ Ev.ok /\ UNCHANGED <<one, two, keep, own, given, ops, star, size>>

TraceNext == TConfig \/ TUse \/ TSame
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1, length |-> Len(Events)]))
=============================================================================
