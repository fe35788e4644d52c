------------------------------- MODULE Coffee -------------------------------
(* Coffee-house designs: every new point is one of those furthest from the points so far, and these are vertices of the bounded
   Voronoi diagram.  Among several the choice is free. *)
EXTENDS Vor

CONSTANTS Which, Length, Share
VARIABLES k, l, pts, dist, at
vars == <<k, l, pts, dist, at>>
D == Domains[k]
M == Gram(Metrics(D.m)[l])
Start(x) == (ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40 + 5 * l) % Share = 0
\* at: the points furthest from all so far
All(S) == Farthest(M, S, TLCEval(Vertices(M, D.faces, S)))
Init == /\ k \in Which /\ l \in 1..Len(Metrics(Domains[k].m))
        /\ \E x \in Lattice(Domains[k]) : Start(x) /\ pts = <<RVec(x)>>
        /\ dist = <<>> /\ at = {}
\* points with small denominators only, for exact arithmetic in 32 bits
Simple == \A i \in 1..Len(pts) : \A j \in 1..D.m : pts[i][j][2] <= (IF D.m = 2 THEN 8 ELSE 4)
Over == Len(pts) = Length \/ ~Simple
Look == at = {} /\ ~Over /\ at' = All(pts) /\ UNCHANGED <<k, l, pts, dist>>
Go(x) == x \in at /\ pts' = Append(pts, x) /\ dist' = Append(dist, Near2(M, pts, x)) /\ at' = {} /\ UNCHANGED <<k, l>>
Next == Look \/ \E x \in at : Go(x)
Spec == Init /\ [][Next]_vars
\* distances never increase, so that two points are never nearer to each other than the next to all of them
Decreasing == \A i \in 1..(Len(dist) - 1) : RLe(dist[i + 1], dist[i])
Separated == \A i, j \in 1..Len(pts) : i < j => RLe(dist[Len(pts) - 1], Dist2(M, pts[i], pts[j]))
Inside == \A i \in 1..Len(pts) : InDom(D.faces, pts[i])
Emit == (Over /\ at = {}) => PrintT("@@" \o ToJson([dom |-> Describe(D), L |-> Metrics(D.m)[l], pts |-> pts, dist |-> dist]))
=============================================================================
