-------------------------------- MODULE Geo --------------------------------
(* Distances, repeated points, the smallest enclosing ball and the row space of a metric, for all small sets of points. *)
EXTENDS RatLin, FiniteSetsExt, SequencesExt, Json

CONSTANTS Lens, Share, Span
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>
Metrics(m) == IF m = 1 THEN << <<<<1>>>>, <<<<-2>>>>, <<<<1>>, <<2>>>>, <<<<0>>>> >>
              ELSE IF m = 2 THEN << <<<<1, 0>>, <<0, 1>>>>, <<<<1, 1>>, <<0, 2>>>>, <<<<1, -1>>>>, <<<<2, -1>>, <<-4, 2>>>>, <<<<0, 0>>, <<1, 1>>>>, <<<<1, 0>>, <<1, 1>>, <<0, 2>>>>, <<<<0, 0>>>> >>
              ELSE << <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 1>>, <<0, 1, 0>>>>, <<<<1, 1, 1>>>>, <<<<1, 2, 3>>, <<1, 1, 1>>, <<2, 3, 4>>>>, <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>> >>
Hash(m, l, X) == (ISum([i \in 1..Len(X) |-> i * i * (ISum([j \in 1..m |-> X[i][j] * (7 * j + 3)]) + 11)]) + 5 * l + ISum([i \in 1..Len(X) |-> X[i][1]]) * 31) % 997
Points(m) == [1..m -> 0..Span]
Init == ans = Nil /\ \E m \in 1..3, n \in Lens : \E l \in 1..Len(Metrics(m)) : \E X \in [1..n -> IF m = 3 THEN [1..m -> 0..1] ELSE Points(m)] :
          Hash(m, l, X) % Share = 0 /\ c = [m |-> m, L |-> Metrics(m)[l], X |-> X]
N == Len(c.X)
M == IGram(c.L, c.L)
D2(x, y) == LET d == [i \in 1..c.m |-> x[i] - y[i]] IN IDot(d, [i \in 1..c.m |-> IDot(M[i], d)])
\* the number of rows needed: the greatest nonsingular minor of the Gram matrix
Minor(T) == LET s == SetToSortSeq(T, <) IN RSolve([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> RI(M[s[i]][s[j]])]], [i \in 1..Len(s) |-> RZ]).ok
Rank == LET r == {Cardinality(T) : T \in {T \in SUBSET (1..c.m) : T # {} /\ Minor(T)}} IN IF r = {} THEN 0 ELSE Max(r)
\* in the euclidean metric: the ball whose boundary holds T has its centre on the plane through T
Centre(T) == LET s == SetToSeq(T) k == Len(s)
                 E == [i \in 1..(k - 1) |-> [j \in 1..c.m |-> s[i + 1][j] - s[1][j]]]
                 z == RSolve([i \in 1..(k - 1) |-> [j \in 1..(k - 1) |-> RI(2 * IDot(E[i], E[j]))]], [i \in 1..(k - 1) |-> RI(IDot(E[i], E[i]))])
             IN [ok |-> z.ok, z |-> IF z.ok THEN [j \in 1..c.m |-> RAdd(RI(s[1][j]), RSumSeq([i \in 1..(k - 1) |-> RMul(z.z[i], RI(E[i][j]))]))] ELSE <<>>]
Away(z) == RMaxSet({RNorm2(RVSub(RVec(c.X[i]), z)) : i \in 1..N})
Set == {c.X[i] : i \in 1..N}
Balls == IF Cardinality(Set) = 1 THEN {[z |-> RVec(c.X[1]), r2 |-> RZ]}
         ELSE {[z |-> b.z, r2 |-> Away(b.z)] : b \in {b \in {Centre(T) : T \in UNION {kSubset(k, Set) : k \in 2..IMin(c.m + 1, Cardinality(Set))}} : b.ok}}
\* the smallest of the balls around these centres; no smaller one exists, as its centre would be among them
Ball == CHOOSE b \in Balls : \A d \in Balls : RLe(b.r2, d.r2)
Next == /\ ans = Nil
        /\ ans' = [d2 |-> TLCEval([i \in 1..N |-> [j \in 1..N |-> D2(c.X[i], c.X[j])]]), rank |-> Rank, ball |-> TLCEval(Ball), distinct |-> Cardinality(Set)]
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* a metric; the ball is unique and its centre is between the points furthest from it, some of which are on opposite sides
Sane == ans # Nil =>
  /\ \A i, j \in 1..N : ans.d2[i][j] = ans.d2[j][i] /\ ans.d2[i][j] >= 0 /\ ans.d2[i][i] = 0
  /\ ans.rank <= IMin(c.m, Len(c.L))
  /\ Cardinality({b \in Balls : b.r2 = ans.ball.r2}) = 1
  /\ \A v \in [1..c.m -> -1..1] : \E x \in Set : RNorm2(RVSub(RVec(x), ans.ball.z)) = ans.ball.r2 /\ RLe(RZ, RDot(RVec(v), RVSub(RVec(x), ans.ball.z)))
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, L |-> c.L, X |-> c.X, ans |-> ans]))
=============================================================================
