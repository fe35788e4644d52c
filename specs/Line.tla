-------------------------------- MODULE Line --------------------------------
(* One direction at a time: in the metric |v'(x - y)| a domain is an interval.  Maximin designs of N points are spaced evenly from end
   to end, minimax designs are the centres of N intervals of the same length; the vertices of the Voronoi diagram of sites are the
   ends and the points halfway between neighbors, and the point furthest from the sites is one of them. *)
EXTENDS Vor

CONSTANTS Which, Most, Share
VARIABLES k, v, S, ans
vars == <<k, v, S, ans>>
Nil == <<>>
D == Domains[k]
Hash == (SumSet({(ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40) * (ISum([i \in 1..Len(x) |-> x[i] * (5 * i - 2)]) + 40) : x \in S}) + 17 * k + 5 * ISum([i \in 1..Len(v) |-> i * v[i]])) % 4001
Rows(m) == {w \in [1..m -> -1..2] : w # [i \in 1..m |-> 0]}
\* (the origin as the only site: the vertices are the corners of the domain)
Ends(kk) == Vertices(Gram(Metrics(Domains[kk].m)[1]), Domains[kk].faces, <<[j \in 1..Domains[kk].m |-> RZ]>>)
Corner == TLCEval([kk \in Which |-> TLCEval(Ends(kk))])
Init == /\ ans = Nil /\ k \in Which
        /\ v \in Rows(Domains[k].m)
        /\ \E s \in 1..3 : s <= Cardinality(Lattice(Domains[k])) /\ S \in kSubset(s, Lattice(Domains[k]))
        /\ (k = 1 \/ Hash % Share = 0)
Value(x) == RDot(RVec(v), x)
Lo == RMinSet({Value(x) : x \in Corner[k]})
Hi == RMaxSet({Value(x) : x \in Corner[k]})
At(n, d) == RAdd(Lo, RMul(R(n, d), RSub(Hi, Lo)))
Sites == SetToSortSeq({Value(RVec(x)) : x \in S}, RLt)
Mid == {Lo, Hi} \cup {RMul(R(1, 2), RAdd(Sites[i], Sites[i + 1])) : i \in 1..(Len(Sites) - 1)}
Gap(y) == RMinSet({RAbsV(RSub(y, Sites[i])) : i \in 1..Len(Sites)})
Next == /\ ans = Nil /\ UNCHANGED <<k, v, S>>
        /\ ans' = [lo |-> Lo, hi |-> Hi,
                   maximin |-> [n \in 1..Most |-> [i \in 1..n |-> IF n = 1 THEN Lo ELSE At(i - 1, n - 1)]],
                   minimax |-> [n \in 1..Most |-> [i \in 1..n |-> At(2 * i - 1, 2 * n)]],
                   verts |-> Mid, fill |-> RMaxSet({Gap(y) : y \in Mid})]
Spec == Init /\ [][Next]_vars
\* the values of all points of the domain are between the ends, and none is further from the sites
Sane == ans # Nil => \A x \in Lattice(D) : RLe(ans.lo, Value(RVec(x))) /\ RLe(Value(RVec(x)), ans.hi) /\ RLe(Gap(Value(RVec(x))), ans.fill)
\* no design of N points has a greater least distance, no design covers with a smaller radius: N - 1 gaps, N pieces add up to the interval
Optimal == ans # Nil => \A n \in 2..Most :
   /\ RSumSeq([i \in 1..(n - 1) |-> RSub(ans.maximin[n][i + 1], ans.maximin[n][i])]) = RSub(ans.hi, ans.lo)
   /\ \A i \in 1..n : RSub(ans.minimax[n][i], IF i = 1 THEN RSub(RMul(RI(2), ans.lo), ans.minimax[n][1]) ELSE ans.minimax[n][i - 1]) = RMul(R(1, n), RSub(ans.hi, ans.lo))
Emit == ans # Nil => PrintT("@@" \o ToJson([dom |-> Describe(D), v |-> v, X |-> S, corners |-> Corner[k], ans |-> ans]))
=============================================================================
