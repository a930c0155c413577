----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* Checks what the real parsers made of texts rendered by Parse.tla        *)
(* against the meaning of the abstract examples.  A trace is a sequence of *)
(*   {a:"reset"}                                new dictionary             *)
(*   {a:"id", ns, id, hash, idx}                where a lone feature goes   *)
(*   {a:"parsed", m: meaning, ok, got: [shared, actions, label]}           *)
(* Features in got are [hash of the namespace, index, value].              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i, dict
tvars == <<i, dict>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(s) == {s[k] : k \in 1..Len(s)}
Bag(s) == [x \in Range(s) |-> Cardinality({k \in 1..Len(s) : s[k] = x})]

Where(x) == LET d == dict[<<x.ns, x.id>>] IN <<d[1], d[2], x.v>>
Place(s) == Bag([k \in 1..Len(s) |-> Where(s[k])])

Matches(m, g) ==
  /\ Place(m.shared) = Bag(g.shared)
  /\ Len(m.actions) = Len(g.actions)
  /\ \A k \in 1..Len(m.actions) : Place(m.actions[k]) = Bag(g.actions[k])
  /\ m.label = g.label

TraceInit == i = 1 /\ dict = <<>>
Step(e) ==
  CASE e.a = "reset" -> dict' = <<>>
    [] e.a = "id" -> /\ \* one place per feature; namespaces have one hash
                        (<<e.ns, e.id>> \in DOMAIN dict => dict[<<e.ns, e.id>>] = <<e.hash, e.idx>>)
                     /\ dict' = (<<e.ns, e.id>> :> <<e.hash, e.idx>>) @@ dict
    [] e.a = "parsed" -> e.ok /\ Matches(e.m, e.got) /\ UNCHANGED dict
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT("@@" \o ToJson([matched |-> TLCGet("stats").diameter - 1]))
=============================================================================
