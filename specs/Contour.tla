------------------------------ MODULE Contour ------------------------------
(* Contours of piecewise linear functions whose kinks lie on grid lines, on the square [-M, M]^2 with whole grid lines: along one
   level a set of polygonal pieces, closed inside the square and open where they leave it.  Levels are odd multiples of 1/2 so that
   no piece goes through a grid point. *)
EXTENDS Rat, FiniteSets, Json, TLC

CONSTANTS M, Slopes, Levels
VARIABLES c, ans
vars == <<c, ans>>
Nil == {}
\* a x + b y, or |x| + |y| scaled
Functions == [kind : {"affine"}, a : Slopes, b : Slopes] \cup [kind : {"cone"}, a : {1, 2, -1}, b : {0}]
Init == ans = Nil /\ \E f \in Functions, L \in {s \in SUBSET Levels : Cardinality(s) \in {1, 2}} :
            (f.kind = "affine" => f.a # 0 \/ f.b # 0) /\ c = [f |-> f, L |-> L]
At(f, p) == IF f.kind = "affine" THEN RAdd(RMul(RI(f.a), p[1]), RMul(RI(f.b), p[2]))
            ELSE RMul(RI(f.a), RAdd(RAbsV(p[1]), RAbsV(p[2])))
In(t) == RLe(RI(-M), t) /\ RLe(t, RI(M))
\* where the line a x + b y = l meets the boundary
Ends(a, b, l) == { p \in (IF b # 0 THEN {<<RI(s), RDiv(RSub(l, RI(a * s)), RI(b))>> : s \in {-M, M}} ELSE {})
                    \cup (IF a # 0 THEN {<<RDiv(RSub(l, RI(b * s)), RI(a)), RI(s)>> : s \in {-M, M}} ELSE {}) : In(p[1]) /\ In(p[2]) }
Open(p) == [closed |-> FALSE, pts |-> p]
Pieces(f, l) ==
  IF f.kind = "affine" THEN LET e == Ends(f.a, f.b, l) IN IF Cardinality(e) = 2 THEN {Open(e)} ELSE {}
  ELSE LET r == RDiv(l, RI(f.a)) IN
       IF RLe(r, RZ) \/ RLe(RI(2 * M), r) THEN {}
       ELSE IF RLe(r, RI(M)) THEN {[closed |-> TRUE, pts |-> {<<r, RZ>>, <<RNeg(r), RZ>>, <<RZ, r>>, <<RZ, RNeg(r)>>}]}
       ELSE LET q == RSub(r, RI(M)) IN
            {Open({<<RI(s * M), RMul(RI(t), q)>>, <<RMul(RI(s), q), RI(t * M)>>}) : s \in {-1, 1}, t \in {-1, 1}}
Level(k) == R(2 * k - 5, 2)
Next == ans = Nil /\ ans' = {[l |-> Level(k), pieces |-> Pieces(c.f, Level(k))] : k \in c.L} /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* every corner is on its level, and open pieces end on the boundary
Sane == ans # Nil => \A v \in ans : \A p \in v.pieces : \A x \in p.pts :
           At(c.f, x) = v.l /\ (~p.closed => \E i \in 1..2 : RAbsV(x[i]) = RI(M))
\* two levels never meet: no corner is shared
Apart == ans # Nil => \A v, w \in ans : v # w => \A p \in v.pieces, q \in w.pieces : p.pts \cap q.pts = {}
Emit == ans # Nil => PrintT("@@" \o ToJson([kind |-> c.f.kind, a |-> c.f.a, b |-> c.f.b, m |-> M, ans |-> ans]))
=============================================================================
