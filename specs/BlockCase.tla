------------------------------ MODULE BlockCase ------------------------------
(* Starting points for maximin designs by block coordinate descent; with none, the design starts where it likes *)
EXTENDS Vor
CONSTANTS Which, Share
VARIABLES k, l, S, n
vars == <<k, l, S, n>>
Hash == (SumSet({(ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40) * (ISum([i \in 1..Len(x) |-> x[i] * (5 * i - 2)]) + 40) : x \in S}) + 17 * k + 5 * l) % 1009
Init == /\ k \in Which /\ l \in 1..Len(Metrics(Domains[k].m))
        /\ \/ S = {} /\ n \in 2..5
           \/ /\ n \in {2, 3, 4} /\ n <= Cardinality(Lattice(Domains[k])) /\ S \in kSubset(n, Lattice(Domains[k]))
              /\ Hash % Share = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson([k |-> k, l |-> l, dom |-> Describe(Domains[k]), L |-> Metrics(Domains[k].m)[l], S |-> S, n |-> n]))
=============================================================================
