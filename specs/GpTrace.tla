------------------------------- MODULE GpTrace -------------------------------
(* Fits of Gaussian processes.  The first event of a trace is the data; then come fits, with the likelihood at the start and at the end, the
   scaling matrix, the predictions at the data and elsewhere, the sums of the weights times the monomials of the trend, and the variances.  A fit
   never gets worse, its matrix has the structure that was asked for, it interpolates unless
   the matrix makes points indistinguishable, a trend explains data that is a polynomial of its degree, before and
   after other fits.  Values are in units of 1/K, matrices are scaled to entries up to a thousand. *)
EXTENDS Rat, FiniteSetsExt, Judge

CONSTANTS K, Tol
VARIABLES t, n, verdict
vars == <<t, n, verdict>>
Ev == Traces[t][n]
Problem == Traces[t][1]
M == Problem.m
Structure(L) ==
  CASE Problem.st = "const" -> \A i, j \in 1..M : IF i = j THEN L[i][i] > 0 /\ RAbs(L[i][i] - L[1][1]) <= 1 ELSE L[i][j] = 0
    [] Problem.st = "diag" -> \A i, j \in 1..M : i # j => L[i][j] = 0
    [] Problem.st = "tril" -> \A i, j \in 1..M : i < j => L[i][j] = 0
    [] OTHER -> \A i, j, k, l \in 1..M : RAbs(L[i][j] * Problem.fixed[k][l] - L[k][l] * Problem.fixed[i][j]) <= 4
Clause(e) ==
  CASE e.kind = "case" -> "ok"
    [] e.kind = "failed" -> "the fit failed: " \o e.why
    [] OTHER -> IF ~e.shape THEN "shape"
                ELSE IF ~e.kept THEN "the arguments changed"
                ELSE IF e.after > e.before + Tol THEN "the likelihood got worse"
                ELSE IF ~Structure(e.L) THEN "structure of the matrix"
                ELSE IF e.regular /\ \E i \in 1..Len(e.f) : RAbs(e.f[i] - K * Problem.y[i]) > Tol THEN "does not interpolate"
                ELSE IF \E i \in 1..Len(e.moments) : RAbs(e.moments[i]) > Tol THEN "the weights are not orthogonal to the trend"
                ELSE IF \E i \in 1..Len(e.var) : e.var[i] < 0 \/ e.var[i] > K + 1 THEN "variances"
                ELSE IF \E i \in 1..Len(e.varX) : RAbs(e.varX[i]) > Tol THEN "variance at the data"
                ELSE IF Problem.explained /\ \E i \in 1..Len(e.q) : RAbs(e.q[i] - K * Problem.q[i]) > 10 * Tol THEN "does not follow the trend"
                ELSE "ok"
Init == t \in 1..Len(Traces) /\ n = 1 /\ verdict = "ok"
Next == /\ n <= Len(Traces[t]) /\ verdict = "ok"
        /\ verdict' = Clause(Ev)
        /\ n' = IF verdict' = "ok" THEN n + 1 ELSE n
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Done == n > Len(Traces[t]) \/ verdict # "ok"
TypeOK == /\ n \in 1..(Len(Traces[t]) + 1)
          /\ (Done => PrintT("@@" \o ToJson([t |-> t, verdict |-> verdict, at |-> n])))
===============================================================================
