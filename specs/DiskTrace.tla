----------------------------- MODULE DiskTrace -----------------------------
(* Samples that keep a distance from each other, and samples that leave no point of the domain far from all of them.
   An event holds the points in units of 1/K, the radius (in halves, divided by den) that they keep apart and the radius (in halves) within which
   they have to cover the points of the half-integer lattice in the domain; zero if nothing is claimed. *)
EXTENDS Vor, Judge

CONSTANTS K
VARIABLES t, n, verdict
vars == <<t, n, verdict>>
Ev == Traces[t][n]
D(e) == Domains[e.k]
L(e) == Metrics(D(e).m)[e.l]
Image(e, x) == [i \in 1..Len(L(e)) |-> IDot(L(e)[i], x)]
Sq(x, y) == ISum([i \in 1..Len(x) |-> (x[i] - y[i]) * (x[i] - y[i])])
\* rounding: every coordinate by half a unit, the image by less than 5
Slack == 10
Halves(e) == {x \in [1..D(e).m -> -2..10] : \A i \in 1..Len(D(e).faces) : IDot(D(e).faces[i].a, x) <= 2 * D(e).faces[i].b}
Clause(e) ==
  IF e.shape # <<Len(e.pts), D(e).m>> \/ Len(e.pts) = 0 THEN "shape"
  ELSE IF \E i \in 1..Len(e.pts) : \E f \in 1..Len(D(e).faces) : IDot(D(e).faces[f].a, e.pts[i]) > K * D(e).faces[f].b + Slack THEN "inside"
  ELSE LET Y == TLCEval([i \in 1..Len(e.pts) |-> Image(e, e.pts[i])])
           far == (e.apart * K) \div (2 * e.den) - Slack
           near == (e.cover * K) \div 2 + Slack
       IN IF e.apart > 0 /\ \E i, j \in 1..Len(e.pts) : i < j /\ Sq(Y[i], Y[j]) < far * far THEN "two points are too close"
          ELSE IF e.cover > 0 /\ \E x \in Halves(e) : \A i \in 1..Len(e.pts) : Sq(Image(e, [j \in 1..D(e).m |-> (x[j] * K) \div 2]), Y[i]) > near * near THEN "a point is far from all"
          ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
