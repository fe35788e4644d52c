------------------------------ MODULE DomRand ------------------------------
(* Domains with a density: uniform, normal (possibly truncated) and log-normal.  The specification prints, for points of
   the space, the exact rational quantities that determine the density there. *)
EXTENDS DomRandDef

CONSTANT Dense
VARIABLES c, x, ans
vars == <<c, x, ans>>

D == Cat[c]
Vals(k) == IF k = 1 THEN -24..24 ELSE IF k = 2 THEN (IF Dense THEN -18..20 ELSE {3 * i : i \in -5..6}) ELSE (IF Dense THEN {2 * i : i \in -4..4} ELSE {5 * i - 1 : i \in -1..2})
\* points in units of 1/2: for log-normals, of the logarithm
Pts(k) == CASE k = 1 -> {<<a>> : a \in Vals(1)} [] k = 2 -> {<<a, b>> : a \in Vals(2), b \in Vals(2)}
            [] OTHER -> {<<a, b, d>> : a \in Vals(3), b \in Vals(3), d \in Vals(3)}
Answer ==
  IF D.kind = "uniform"
  THEN LET inside == \A i \in 1..D.m : 2 * D.lb[i] <= x[i] /\ x[i] <= 2 * D.ub[i]
           vol == RProdSeq([i \in 1..D.m |-> RI(D.ub[i] - D.lb[i])])
       IN [inside |-> inside, p |-> IF inside THEN RInv(vol) ELSE RZ, d2 |-> RZ, det |-> 1]
  ELSE LET v == [i \in 1..D.m |-> R(x[i] - 2 * D.mean[i], 2)]
           s == RSolve(RMat(D.cov), v)          \* Gamma^{-1} (x - mu)
       IN [inside |-> TRUE, p |-> RZ, d2 |-> RDot(v, s.z), det |-> IDet(D.cov)]
Init == ans = <<>> /\ \E i \in 1..Len(Cat) : c = i /\ x \in Pts(Cat[i].m)
Ask == ans = <<>> /\ ans' = Answer /\ UNCHANGED <<c, x>>
Next == Ask
Spec == Init /\ [][Next]_vars

\* positive definite covariances, quadratic forms that are positive away from the mean
Sane == ans # <<>> => /\ ans.det > 0 /\ RLe(RZ, ans.d2)
                      /\ (D.kind # "uniform" => (ans.d2 = RZ <=> \A i \in 1..D.m : x[i] = 2 * D.mean[i]))
Emit == ans # <<>> => PrintT("@@" \o ToJson([c |-> c, d |-> D, x |-> x, inside |-> ans.inside, p |-> ans.p, d2 |-> ans.d2, det |-> ans.det]))
=============================================================================
