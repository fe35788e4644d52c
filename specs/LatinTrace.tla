----------------------------- MODULE LatinTrace -----------------------------
(* Latin hypercube designs.  Along every axis the range is cut in N cells of the same width; each holds one point, at its centre.
   A search for a design with a greater least distance exchanges coordinates of two points, and only ever improves.
   An event is a design: cells[i][j] is the cell of point i along axis j, off how far the points are from the centres (1e-9).
   "sample": any Latin hypercube;  "search": a longer run of the search that the event before belongs to;
   "end": a run so long that no exchange would improve the design further. *)
EXTENDS Rat, FiniteSetsExt, Judge

VARIABLES t, n, verdict
vars == <<t, n, verdict>>
Ev == Traces[t][n]
Latin(c, N, m) == /\ Len(c) = N
                  /\ \A i \in 1..N : Len(c[i]) = m
                  /\ \A j \in 1..m : {c[i][j] : i \in 1..N} = 0..(N - 1)
\* squared distances, with the axes in their units
Dist(c, w, i, k) == ISum([j \in 1..Len(w) |-> (w[j] * (c[i][j] - c[k][j])) * (w[j] * (c[i][j] - c[k][j]))])
Near(c, w, i) == Min({Dist(c, w, i, k) : k \in 1..Len(c) \ {i}})
Least(c, w) == Min({Near(c, w, i) : i \in 1..Len(c)})
Swap(c, i, k, J) == [c EXCEPT ![i] = [j \in 1..Len(c[i]) |-> IF j \in J THEN c[k][j] ELSE c[i][j]],
                              ![k] = [j \in 1..Len(c[i]) |-> IF j \in J THEN c[i][j] ELSE c[k][j]]]
Swaps(c) == {Swap(c, i, k, J) : i, k \in 1..Len(c), J \in SUBSET (1..Len(c[1])) \ {{}}}
\* the distances to the nearest point in increasing order: improved lexicographically
Times(c, w, d) == Cardinality({i \in 1..Len(c) : Near(c, w, i) = d})
NoWorse(c, b, w) == LET V == {Near(c, w, i) : i \in 1..Len(c)} \cup {Near(b, w, i) : i \in 1..Len(c)}
                        T == {d \in V : Times(c, w, d) # Times(b, w, d)}
                    IN T = {} \/ Times(c, w, Min(T)) < Times(b, w, Min(T))
Before == Traces[t][n - 1].cells
Clause(e) ==
  IF ~Latin(e.cells, e.N, e.m) THEN "one point in every cell"
  ELSE IF e.off > 10 THEN "centres of the cells"
  ELSE IF ~e.inside THEN "inside"
  ELSE IF e.kind = "sample" \/ e.N < 2 THEN "ok"
  ELSE IF e.kind = "search" /\ n > 1 /\ ~NoWorse(e.cells, Before, e.w) THEN "the search went to a worse design"
  ELSE IF e.kind = "search" /\ e.step = 1 /\ n > 1 /\ e.cells # Before /\ e.cells \notin Swaps(Before) THEN "not an exchange"
  ELSE IF e.kind = "end" /\ \E c \in Swaps(e.cells) : Least(c, e.w) > Least(e.cells, e.w) THEN "an exchange improves the design"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
