-------------------------------- MODULE Seq --------------------------------
(* The next point of a design on a box in several metrics, one coordinate each: the product of the distances in the metrics is
   greatest if each coordinate is furthest from those of the sites. *)
EXTENDS Vor

CONSTANTS Which, Share
VARIABLES k, S, w, ans
vars == <<k, S, w, ans>>
Nil == <<>>
D == Domains[k]
Hash == (SumSet({(ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40) * (ISum([i \in 1..Len(x) |-> x[i] * (5 * i - 2)]) + 40) : x \in S}) + 17 * k + 5 * ISum([i \in 1..Len(w) |-> i * w[i]])) % 4001
\* weights of the coordinates, zero if there is no metric
Init == /\ ans = Nil /\ k \in Which
        /\ w \in {u \in [1..Domains[k].m -> {0, 1, -2}] : \E i \in DOMAIN u : u[i] # 0}
        /\ \E s \in 1..4 : s <= Cardinality(Lattice(Domains[k])) /\ S \in kSubset(s, Lattice(Domains[k]))
        /\ (k = 1 \/ Hash % Share = 0)
Coord(j) == SetToSortSeq({x[j] : x \in S}, <)
Verts(j) == LET c == Coord(j) IN {RI(D.lb[j]), RI(D.ub[j])} \cup {R(c[i] + c[i + 1], 2) : i \in 1..(Len(c) - 1)}
Gap(j, y) == RMinSet({RAbsV(RSub(y, RI(x[j]))) : x \in S})
Next == /\ ans = Nil /\ UNCHANGED <<k, S, w>>
        /\ ans' = TLCEval([j \in 1..D.m |-> LET V == Verts(j) f == RMaxSet({Gap(j, y) : y \in V}) IN [verts |-> V, fill |-> f, best |-> {y \in V : Gap(j, y) = f}]])
Spec == Init /\ [][Next]_vars
\* no point of the lattice has a greater product
Sane == ans # Nil => \A x \in Lattice(D) : RLe(RProdSeq([j \in 1..D.m |-> IF w[j] = 0 THEN ROne ELSE Gap(j, RI(x[j]))]), RProdSeq([j \in 1..D.m |-> IF w[j] = 0 THEN ROne ELSE ans[j].fill]))
Emit == ans # Nil => PrintT("@@" \o ToJson([dom |-> Describe(D), X |-> S, w |-> w, ans |-> ans]))
=============================================================================
