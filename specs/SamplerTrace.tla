---------------------------- MODULE SamplerTrace ----------------------------
(* Histories of a sequential sampler.  The state is the design so far: points and values; every draw appends points of the domain
   that are furthest (up to the slack) from all before, in the metric of one row v, and the values of the function there.  Nothing
   else changes the state; in particular not the arrays that were handed out.
   Points are in units of 1/K; the function has the rows F and the constants G. *)
EXTENDS Rat, FiniteSetsExt, SequencesExt, Judge

CONSTANTS K
VARIABLES t, n, pts, verdict
vars == <<t, n, pts, verdict>>
Ev == Traces[t][n]
C == Traces[t][1]
Inside(x) == \A j \in 1..C.m : C.lb[j] * K - 2 <= x[j] /\ x[j] <= C.ub[j] * K + 2
Val(x) == IDot(C.v, x)
Lo == ISum([j \in 1..C.m |-> IF C.v[j] > 0 THEN C.v[j] * C.lb[j] * K ELSE C.v[j] * C.ub[j] * K])
Hi == ISum([j \in 1..C.m |-> IF C.v[j] > 0 THEN C.v[j] * C.ub[j] * K ELSE C.v[j] * C.lb[j] * K])
Gap(P, y) == Min({RAbs(y - Val(P[i])) : i \in 1..Len(P)})
Fill(P) == LET s == SortSeq([i \in 1..Len(P) |-> Val(P[i])], <)
           IN Max({s[1] - Lo, Hi - s[Len(s)]} \cup {(s[i + 1] - s[i]) \div 2 : i \in 1..(Len(s) - 1)})
\* the k-th point, given those before it
Good(P, k) == LET B == SubSeq(P, 1, k - 1) y == Val(P[k])
              IN IF k = 1 THEN RAbs(y - Lo) <= 20 \/ RAbs(y - Hi) <= 20
                 ELSE IF C.m = 1 THEN Gap(B, y) >= Fill(B) - 20
                 ELSE 10 * Gap(B, y) >= 9 * Fill(B) - 200
FX(x) == [i \in 1..Len(C.F) |-> IDot(C.F[i], x) + C.G[i] * K]
Clause(e) ==
  IF e.op = "new" THEN IF e.pts = C.X THEN "ok" ELSE "initial points"
  ELSE IF Len(e.pts) # Len(pts) + e.draw THEN "number of points"
  ELSE IF SubSeq(e.pts, 1, Len(pts)) # pts THEN "points of the design changed"
  ELSE IF \E i \in 1..Len(e.pts) : ~Inside(e.pts[i]) THEN "inside"
  ELSE IF \E i \in (Len(pts) + 1)..Len(e.pts) : ~Good(e.pts, i) THEN "a point is not furthest from those before"
  ELSE IF Len(e.fX) # (IF C.values \/ C.X = <<>> THEN Len(e.pts) ELSE Len(e.pts) - Len(C.X)) THEN "number of values"
  ELSE IF \E i \in 1..Len(e.fX) : LET x == e.pts[i + Len(e.pts) - Len(e.fX)] IN \E j \in 1..Len(C.F) : Len(e.fX[i]) # Len(C.F) \/ RAbs(e.fX[i][j] - FX(x)[j]) > 20 THEN "values"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok" /\ pts = <<>>
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ pts' = IF verdict' = "ok" THEN Ev.pts ELSE pts
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
