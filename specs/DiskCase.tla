------------------------------ MODULE DiskCase ------------------------------
(* Where separated and covering samples are to be recorded: domains, metrics of full column rank, radii in halves. *)
EXTENDS Vor
CONSTANTS Which, Radii, Seeds
VARIABLES c
\* about how many discs of the radius cover the domain, from the lattice points
Many(k, l, r2) == LET D == Domains[k] M == Metrics(D.m)[l] IN (4 * Cardinality(Lattice(D)) * (IF l > 1 THEN 3 ELSE 1)) \div (IF D.m = 1 THEN 2 * r2 ELSE IF D.m = 2 THEN r2 * r2 ELSE r2 * r2 * r2)
FullRank(m, l) == LET M == Gram(Metrics(m)[l]) IN RSolve(RMat(M), [i \in 1..m |-> RZ]).ok
Init == \E k \in Which, r2 \in Radii, s \in Seeds : \E l \in 1..Len(Metrics(Domains[k].m)) :
          /\ Many(k, l, r2) <= 60
          /\ c = [k |-> k, l |-> l, r2 |-> r2, seed |-> s, dom |-> Describe(Domains[k]), L |-> Metrics(Domains[k].m)[l], full |-> FullRank(Domains[k].m, l)]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@@" \o ToJson(c))
=============================================================================
