----------------------------- MODULE FeatureId -----------------------------
(***************************************************************************)
(* Where a feature lives in the index space.                               *)
(*                                                                         *)
(* The full place of a feature is an unknown function Full of (seed,       *)
(* namespace, identity) -- the hash is not modelled, only its laws:        *)
(*   - at width bits the index is Full mod 2^bits (narrowing only drops    *)
(*     high bits), whatever the format it was written in, whatever else    *)
(*     was parsed before, and it is below 2^bits;                          *)
(*   - the i-th unnamed feature of a namespace is i places after the       *)
(*     namespace's own index, cyclically;                                  *)
(*   - different identities, names and (for named namespaces) seeds live   *)
(*     at different full places.                                           *)
(* Asking never changes the answers: known only grows.                     *)
(* Full places are observed at 31 bits (the widest width there is).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SEEDS,   \* hash seeds, as strings (some exceed TLC's integers)
          BITS, NSS, NAMES, STRS, OFFS, FMTS

VARIABLES known,   \* <<seed, ns, id>> -> place at 31 bits
          base,    \* <<seed, ns>> -> the namespace's own place at 31 bits
          taken,   \* place -> <<seed, ns, id>> for named features
          asked
vars == <<known, base, taken, asked>>
State == <<known, base, taken>>

\* identities: <<"n", name, 0>>, <<"s", name=value, 0>>, <<"p", "", offset>>
Ids == {<<"n", x, "", 0>> : x \in NAMES} \cup {<<"s", x, v, 0>> : x \in NAMES, v \in STRS}
       \cup {<<"p", "", "", o>> : o \in OFFS}
Queries == [seed : SEEDS, bits : BITS, ns : NSS, id : Ids, fmt : FMTS]

Pow(b) == 2^b    \* b <= 30
Max31 == 2147483647
Mod(x, b) == IF b = 31 THEN x ELSE x % Pow(b)
\* (x + o) mod 2^31 without leaving TLC's integers
AddC(x, o) == IF x > Max31 - o THEN (x - (Max31 - o)) - 1 ELSE x + o

\* The seed does not reach the default namespace.
SeedOf(q) == IF q.ns = "" THEN "any" ELSE q.seed
Key(q) == <<SeedOf(q), q.ns, q.id>>
NsKey(q) == <<SeedOf(q), q.ns>>

Positional(q, h, x) == q.id[1] = "p" => x = AddC(h, q.id[4])
Unrelated(q, x) == (q.id[1] # "p" /\ x \in DOMAIN taken) => taken[x] = Key(q)

\* The answer x to query q in a namespace whose own place is h.
Answer(q, h, x) ==
  /\ NsKey(q) \in DOMAIN base => base[NsKey(q)] = h
  /\ base' = (NsKey(q) :> h) @@ base
  /\ IF q.bits = 31
     THEN /\ Key(q) \in DOMAIN known => known[Key(q)] = x
          /\ Positional(q, h, x)
          /\ Unrelated(q, x)
          /\ known' = (Key(q) :> x) @@ known
          /\ taken' = IF q.id[1] = "p" THEN taken ELSE (x :> Key(q)) @@ taken
     ELSE /\ x < Pow(q.bits)
          /\ Key(q) \in DOMAIN known /\ x = Mod(known[Key(q)], q.bits)
          /\ UNCHANGED <<known, taken>>
  /\ asked' = q

-----------------------------------------------------------------------------
(* Small closed model: every function Full over a few keys and a 3-bit     *)
(* stand-in for the index space; checks that the laws are consistent and   *)
(* that an implementation obeying Full satisfies them.                     *)
Init == known = <<>> /\ base = <<>> /\ taken = <<>> /\ asked = <<>>
Next == \E q \in Queries, h \in 0..3, x \in 0..3 : Answer(q, h, x)
Spec == Init /\ [][Next]_vars
\* Once told, an answer never changes; places of named features are never shared.
Stable == [][\A k \in DOMAIN known : k \in DOMAIN known' /\ known'[k] = known[k]]_vars
Injective == \A k1, k2 \in DOMAIN known :
               (k1[3][1] # "p" /\ k2[3][1] # "p" /\ known[k1] = known[k2]) => k1 = k2
InStep == \A k1, k2 \in DOMAIN known :
               (k1[1] = k2[1] /\ k1[2] = k2[2] /\ k1[3][1] = "p" /\ k2[3][1] = "p" /\ k1[3][4] <= k2[3][4])
               => known[k2] = AddC(known[k1], k2[3][4] - k1[3][4])

Small == Cardinality(DOMAIN known) <= 3

(* Enumeration of the queries to put to the real parsers. *)
Gen == asked \in Queries
GenSpec == known = <<>> /\ base = <<>> /\ taken = <<>> /\ asked \in Queries /\ [][FALSE]_vars
EmitQuery == PrintT("@@" \o ToJson(asked))
=============================================================================
