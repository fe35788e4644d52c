------------------------------- MODULE Cover -------------------------------
(* The fewest points of a finite set such that every point of the set is nearer than r to one of them; r is a half-integer, and
   squared distances are integers, so that no distance equals r. *)
EXTENDS Vor

CONSTANTS Sizes, Share
VARIABLES c, ans
vars == <<c, ans>>
Nil == {}
Hash(S, l, r2) == (SumSet({(x[1] + 3) * (7 * x[1] + 5 * (IF Len(x) > 1 THEN x[2] ELSE 0) + 11) + (IF Len(x) > 1 THEN x[2] * x[2] * 13 ELSE 0) : x \in S}) + 17 * l + 29 * r2) % 997
Grid(m) == IF m = 1 THEN {<<i>> : i \in 0..8} ELSE {<<i, j>> : i \in 0..3, j \in 0..3}
Init == ans = Nil /\ \E m \in 1..2, s \in Sizes, r2 \in {1, 3, 5, 7} : \E l \in 1..Len(Metrics(m)) : \E S \in kSubset(s, Grid(m)) :
          Hash(S, l, r2) % Share = 0 /\ c = [m |-> m, l |-> l, r2 |-> r2, S |-> S]
M == Gram(Metrics(c.m)[c.l])
Close(x, y) == LET d == [i \in 1..c.m |-> x[i] - y[i]] IN 4 * IDot(d, [i \in 1..c.m |-> IDot(M[i], d)]) < c.r2 * c.r2
Covers(T) == \A x \in c.S : \E y \in T : Close(x, y)
\* all the smallest covers
Best == LET k == Min({j \in 1..Cardinality(c.S) : \E T \in kSubset(j, c.S) : Covers(T)}) IN {T \in kSubset(k, c.S) : Covers(T)}
Next == ans = Nil /\ ans' = Best /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* points that are not close to each other cannot be covered by one point if the radius were half as large
Sane == ans # Nil => (\A T \in ans : Covers(T)) /\ Cardinality({Cardinality(T) : T \in ans}) = 1
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, L |-> Metrics(c.m)[c.l], r2 |-> c.r2, X |-> c.S, best |-> ans]))
=============================================================================
