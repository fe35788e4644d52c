------------------------------- MODULE Angle -------------------------------
(* Convergence studies: estimate a subspace from more and more samples and report the largest angle between one estimate and
   the next, starting from a right angle, along with the number of samples that there really were.
   The samples are the first ones of a pool (the sampler may have fewer than it is asked for); in two dimensions the leading
   eigenvector of C = [[p, q], [q, r]] points along half the angle of (p - r, 2 q), so that the cosine of twice the angle between
   two estimates is known from integers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Share, Most
VARIABLES pool, ns, cap, k, seen, ans
vars == <<pool, ns, cap, k, seen, ans>>
Vecs == <<<<1, 0>>, <<2, 1>>, <<-1, 3>>, <<0, 2>>, <<-2, 2>>, <<3, -1>>>>
Pools == [1..4 -> 1..Len(Vecs)]
Runs == UNION {[1..n -> 1..4] : n \in 1..Most}
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_, _, _, _)
Sum(p, n, i, j) == IF n = 0 THEN 0 ELSE Sum(p, n - 1, i, j) + Vecs[p[n]][i] * Vecs[p[n]][j]
\* twice the direction of the estimate from n samples
Dir(p, n) == <<Sum(p, n, 1, 1) - Sum(p, n, 2, 2), 2 * Sum(p, n, 1, 2)>>
Dot(x, y) == x[1] * y[1] + x[2] * y[2]
Key(p, r, c) == p[1] + 7 * p[2] + 49 * p[3] + 11 * p[4] + 3 * r[1] + 5 * r[Len(r)] + 13 * Len(r) + c
Init == /\ pool \in Pools /\ ns \in Runs /\ cap \in {2, 4}
        /\ Key(pool, ns, cap) % Share = 0
        /\ \A n \in 1..4 : Dir(pool, n) # <<0, 0>>
        /\ k = 0 /\ seen = <<>> /\ ans = <<>>
Step == /\ k < Len(ns)
        /\ k' = k + 1
        /\ LET n == Min(ns[k + 1], cap) d == Dir(pool, n)
           IN /\ seen' = Append(seen, [n |-> n, d |-> d])
              /\ ans' = IF k = 0 THEN <<>> ELSE Append(ans, [dot |-> Dot(seen[k].d, d), nn |-> Dot(seen[k].d, seen[k].d) * Dot(d, d)])
        /\ UNCHANGED <<pool, ns, cap>>
Next == Step
Spec == Init /\ [][Next]_vars
Done == k = Len(ns)
\* Cauchy-Schwarz; the same samples give the same subspace
Sane == \A i \in 1..Len(ans) : /\ ans[i].dot * ans[i].dot <= ans[i].nn
                               /\ seen[i].n = seen[i + 1].n => ans[i].dot > 0 /\ ans[i].dot * ans[i].dot = ans[i].nn
Emit == Done => PrintT("@@" \o ToJson([G |-> [i \in 1..4 |-> Vecs[pool[i]]], ns |-> ns, cap |-> cap, M |-> [i \in 1..Len(seen) |-> seen[i].n], ans |-> ans]))
=============================================================================
