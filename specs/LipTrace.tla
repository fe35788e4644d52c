------------------------------ MODULE LipTrace ------------------------------
(* Estimates of the Lipschitz matrix of one set of data, judged against the constraints and bounds of LipCase.
   Every trace starts with the case; every other event is an estimate: by a class (full, diag, const, partial) from the data as
   they are, permuted, shifted, negated, in other units, or by an object that was fitted to other data before.
   Matrices are in units of 1/K; what has to vanish is in units of 1e-7. *)
EXTENDS RatLin, Judge

CONSTANTS K, Tol
VARIABLES t, n, verdict
vars == <<t, n, verdict>>
C == Traces[t][1]
Ev == Traces[t][n]
Quad(H, v) == ISum([i \in 1..C.m |-> v[i] * IDot(H[i], v)])
Trace(e) == ISum([i \in 1..C.m |-> e.H[i][i]])
Scaled(r) == (r[1] * K) \div r[2]
Dirs == [1..C.m -> -2..2]
Slack == Tol * (1 + C.const2[1] \div C.const2[2])

Clause(e) ==
  IF e.kind = "case" THEN IF n = 1 THEN "ok" ELSE "order"
  ELSE IF e.kind # "fit" THEN "unknown event"
  ELSE IF e.sym > 10 THEN "symmetric"
  ELSE IF \E i \in 1..Len(C.cons) : Quad(e.H, C.cons[i].p) + Slack * (1 + IDot(C.cons[i].p, C.cons[i].p)) < Scaled(C.cons[i].d2) THEN "sample constraint"
  ELSE IF \E v \in Dirs : Quad(e.H, v) + Slack * (1 + IDot(v, v)) < 0 THEN "semidefinite"
  ELSE IF \E i \in 1..Len(C.G) : \E v \in Dirs : Quad(e.H, v) + Slack * (1 + IDot(v, v)) < K * IDot(C.G[i], v) * IDot(C.G[i], v) THEN "gradient constraint"
  ELSE IF e.root > 1000 THEN "root"
  ELSE IF e.lsym > 10 THEN "root is not symmetric"
  ELSE IF e.orth > 10 THEN "orthonormal"
  ELSE IF e.eigen > 1000 THEN "principal directions"
  ELSE IF e.order < -1000 THEN "order of the directions"
  ELSE IF e.slope < -100 THEN "orientation"
  ELSE IF e.cls = "const" /\ Trace(e) > C.m * (Scaled(C.const2) + 2) THEN "the constant is too large"
  ELSE IF e.cls = "const" /\ \E i, j \in 1..C.m : e.H[i][j] # IF i = j THEN e.H[1][1] ELSE 0 THEN "not a constant"
  ELSE IF e.cls = "diag" /\ \E i, j \in 1..C.m : i # j /\ e.H[i][j] # 0 THEN "not diagonal"
  ELSE IF e.cls = "diag" /\ C.exactdiag /\ Trace(e) > Scaled(C.diag) + 4 * Slack THEN "not the smallest diagonal matrix"
  ELSE IF e.cls = "full" /\ Trace(e) > Scaled(C.best) + 4 * Slack THEN "not the smallest matrix"
  ELSE IF e.cls = "partial" /\ e.rank = C.m /\ Trace(e) > Scaled(C.best) + 4 * Slack THEN "not the smallest matrix of full rank"
  ELSE IF Trace(e) > C.m * Scaled(C.const2) + 4 * Slack THEN "larger than the constant"
  ELSE IF C.exact /\ Trace(e) + 4 * Slack < Scaled(C.best) THEN "smaller than the smallest matrix"
  ELSE IF e.ref > 0 /\ (e.H # Traces[t][e.ref].H \/ e.U # Traces[t][e.ref].U) THEN "depends on the data fitted before"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
=============================================================================
