------------------------------ MODULE Weights ------------------------------
(***************************************************************************)
(* The store of weights: what a weight holds is a function of its index    *)
(* and its model; learning changes those of the example only; saving and   *)
(* loading changes nothing.  Beside it the flat array the store is kept in *)
(* and its two saved forms.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS GEOMETRIES,  \* of <<indices, models, numbers per weight>>
          VALUES,      \* 0 among them
          MaxOps

VARIABLES geo, store, flat, saved, touched, ops
vars == <<geo, store, flat, saved, touched, ops>>

Idx(g) == 0..(g[1] - 1)
Mod(g) == 0..(g[2] - 1)
Num(g) == 1..g[3]
Keys(g) == Idx(g) \X Mod(g)
Blank(g) == [k \in Num(g) |-> 0]

Bits(n) == CHOOSE b \in 0..10 : 2^b >= n /\ (b = 0 \/ 2^(b - 1) < n)
\* Where a number is kept: every part has bits of its own.
Addr(g, i, m, k) == (i * 2^Bits(g[2]) + m) * 2^Bits(g[3]) + (k - 1)
Size(g) == 2^Bits(g[1]) * 2^Bits(g[2]) * 2^Bits(g[3])

Init == /\ geo \in GEOMETRIES
        /\ store = [x \in Keys(geo) |-> Blank(geo)]
        /\ flat = [a \in 0..(Size(geo) - 1) |-> 0]
        /\ saved = <<>> /\ touched = {} /\ ops = 0

\* Writes what f says to every weight of the indices in its domain.
Write(f) == /\ store' = [x \in Keys(geo) |-> IF x \in DOMAIN f THEN f[x] ELSE store[x]]
            /\ flat' = [a \in DOMAIN flat |->
                 IF \E x \in DOMAIN f, k \in Num(geo) : Addr(geo, x[1], x[2], k) = a
                 THEN LET w == CHOOSE w \in (DOMAIN f) \X Num(geo) : Addr(geo, w[1][1], w[1][2], w[2]) = a IN f[w[1]][w[2]]
                 ELSE flat[a]]
            /\ touched' = {x[1] : x \in DOMAIN f}
            /\ UNCHANGED <<geo, saved>>
\* Learning from an example whose features (interactions, constant) are at the indices S.
Learn(S, f) == DOMAIN f \subseteq S \X Mod(geo) /\ Write(f)

\* Saved forms: the numbers that are not 0, with their places; the weights that are not blank.
Pairs(fl) == {<<a, fl[a]>> : a \in {b \in DOMAIN fl : fl[b] # 0}}
Sparse == [i \in {j \in Idx(geo) : \E m \in Mod(geo) : store[<<j, m>>] # Blank(geo)} |-> [m \in Mod(geo) |-> store[<<i, m>>]]]
Save == saved' = <<Pairs(flat), Sparse>> /\ touched' = {} /\ UNCHANGED <<geo, store, flat>>
FromPairs(p) == [a \in 0..(Size(geo) - 1) |-> IF \E y \in p : y[1] = a THEN (CHOOSE y \in p : y[1] = a)[2] ELSE 0]
FromSparse(s) == [x \in Keys(geo) |-> IF x[1] \in DOMAIN s THEN s[x[1]][x[2]] ELSE Blank(geo)]
\* Both forms hold the same.
Load == /\ saved # <<>>
        /\ flat' = FromPairs(saved[1]) /\ store' = FromSparse(saved[2])
        /\ touched' = Idx(geo) /\ UNCHANGED <<geo, saved>>

Learns == /\ ops < MaxOps /\ ops' = ops + 1
          /\ \E S \in SUBSET Idx(geo) : \E f \in UNION {[D -> [Num(geo) -> VALUES]] : D \in {S \X Mod(geo), S \X {0}}} : Learn(S, f)
Saves == ops < MaxOps /\ ops' = ops + 1 /\ Save
Loads == ops < MaxOps /\ ops' = ops + 1 /\ Load
Next == Learns \/ Saves \/ Loads
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Faithful == /\ \A x \in Keys(geo), k \in Num(geo) : flat[Addr(geo, x[1], x[2], k)] = store[x][k]
            /\ \A a \in DOMAIN flat : (\A x \in Keys(geo), k \in Num(geo) : Addr(geo, x[1], x[2], k) # a) => flat[a] = 0
Local == [][\A x \in Keys(geo) : x[1] \notin touched' => store'[x] = store[x]]_vars
\* Loading right after saving changes nothing.
Lossless == [][(Saves => FromPairs(saved'[1]) = flat /\ FromSparse(saved'[2]) = store)]_vars

ASSUME \A g \in GEOMETRIES : \A x, y \in Keys(g) \X Num(g) :
  /\ Addr(g, x[1][1], x[1][2], x[2]) \in 0..(Size(g) - 1)
  /\ x # y => Addr(g, x[1][1], x[1][2], x[2]) # Addr(g, y[1][1], y[1][2], y[2])
=============================================================================
