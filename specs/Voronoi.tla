------------------------------ MODULE Voronoi ------------------------------
(* All small sets of sites on a catalogue of domains, their Voronoi vertices and fill distances in a catalogue of metrics. *)
EXTENDS Vor

CONSTANTS Which, Sizes, Share, Share3
VARIABLES c, ans
vars == <<c, ans>>
Nil == {}
Hash(k, l, S) == (SumSet({(ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40) * (ISum([i \in 1..Len(x) |-> x[i] * (5 * i - 2)]) + 40) : x \in S}) + 17 * k + 5 * l) % 1009
Init == /\ ans = Nil
        /\ \E k \in Which : \E l \in 1..Len(Metrics(Domains[k].m)) : \E s \in Sizes :
             /\ s <= Cardinality(Lattice(Domains[k]))
             /\ \E S \in kSubset(s, Lattice(Domains[k])) :
                /\ Domains[k].m > 1 => Hash(k, l, S) % (IF Domains[k].m = 3 THEN Share3 ELSE IF s = 1 THEN 2 ELSE Share) = 0
                /\ c = [k |-> k, l |-> l, S |-> S]
D == Domains[c.k]
L == Metrics(D.m)[c.l]
Sites == LET T == {RVec(x) : x \in c.S} IN Order(T)
Next == /\ ans = Nil
        /\ ans' = Vertices(Gram(L), D.faces, Sites)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Ready == ans # Nil
\* every vertex is in the domain, and has as many constraints as dimensions; the corners of the domain are vertices
Sane == Ready => \A v \in ans : /\ InDom(D.faces, v)
                                /\ Cardinality({j \in 1..Len(Sites) : Dist2(Gram(L), v, Sites[j]) = Near2(Gram(L), Sites, v)})
                                   + Cardinality({i \in 1..Len(D.faces) : RDot(RVec(D.faces[i].a), v) = RI(D.faces[i].b)}) > D.m
\* no point of the lattice is further than the farthest vertex
FillIsMax == Ready => \A x \in Lattice(D) : RLe(Near2(Gram(L), Sites, RVec(x)), Fill2(Gram(L), Sites, ans))
Emit == Ready => PrintT("@@" \o ToJson([dom |-> Describe(D), L |-> L, X |-> c.S, V |-> ans, fill2 |-> Fill2(Gram(L), Sites, ans)]))
=============================================================================
