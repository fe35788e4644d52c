------------------------------- MODULE Nonlin -------------------------------
(* The nonlinearity of data: how far the Lipschitz constant drops if the best linear function is subtracted,
     min_a max_ij |f_i - f_j - a' (x_i - x_j)| / |x_i - x_j|    relative to    max_ij |f_i - f_j| / |x_i - x_j| .
   The points have integer distances; in one dimension the minimum is half the range of the slopes, in two it is attained
   at a vertex of the epigraph, found by going through all of them. *)
EXTENDS RatLin, FiniteSetsExt, Json

CONSTANTS Dims, Vals
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

Sets(m) == CASE m = 1 -> {<<<<0>>, <<1>>>>, <<<<0>>, <<1>>, <<3>>>>, <<<<2>>, <<-1>>, <<0>>, <<4>>>>}
             [] m = 2 -> {<<<<0, 0>>, <<3, 0>>, <<0, 4>>>>, <<<<0, 0>>, <<3, 0>>, <<0, 4>>, <<3, 4>>>>, <<<<0, 3>>, <<4, 0>>, <<-4, 0>>>>}
             [] OTHER -> {<<<<0, 0, 0>>, <<1, 2, 2>>, <<2, 4, 4>>>>, <<<<0, 0, 0>>, <<4, 4, 7>>>>}     \* on a line
Init == ans = Nil /\ \E m \in Dims : \E X \in Sets(m) : c \in [m : {m}, X : {X}, f : [1..Len(X) -> Vals]]
N == Len(c.X)
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
P(p) == [k \in 1..c.m |-> c.X[p[1]][k] - c.X[p[2]][k]]
D(p) == ISqrt(IDot(P(p), P(p)))
Df(p) == c.f[p[1]] - c.f[p[2]]
\* slope of the data along the pair, after subtracting a
Slope(p, a) == RDiv(RSub(RI(Df(p)), RSumSeq([k \in 1..c.m |-> RMul(a[k], RI(P(p)[k]))])), RI(D(p)))
Worst(a) == RMaxSet({RAbsV(Slope(p, a)) : p \in Pairs})
\* on a line: coordinates along the first pair
Dir == P(CHOOSE p \in Pairs : TRUE)
OnLine == \A p \in Pairs : \A j, k \in 1..c.m : P(p)[j] * Dir[k] = P(p)[k] * Dir[j]
Sign(p) == IF IDot(P(p), Dir) > 0 THEN 1 ELSE -1
LineSlopes == {RMul(RI(Sign(p)), R(Df(p), D(p))) : p \in Pairs}
LineBest == RDiv(RSub(RMaxSet(LineSlopes), RMinSet(LineSlopes)), RI(2))
LineMid == RDiv(RAdd(RMaxSet(LineSlopes), RMinSet(LineSlopes)), RI(2))
LineA == [k \in 1..c.m |-> RMul(LineMid, R(Dir[k], ISqrt(IDot(Dir, Dir))))]
\* in the plane: points where three of the functions s (Df - a'P) = L D meet
Signed == Pairs \X {1, -1}
Eqn(g) == [k \in 1..3 |-> IF k < 3 THEN P(g[1])[k] * g[2] ELSE D(g[1])]
SetToSeq3(S) == CHOOSE s \in [1..3 -> S] : {s[i] : i \in 1..3} = S
g2(g) == Df(g[1]) * g[2]
Vertex(S) == LET s == SetToSeq3(S) IN RSolve(RMat([i \in 1..3 |-> Eqn(s[i])]), RVec([i \in 1..3 |-> g2(s[i])]))
Vertices == {v \in {Vertex(S) : S \in kSubset(3, Signed)} : v.ok}
PlaneBest == RMinSet({Worst(<<v.z[1], v.z[2]>>) : v \in Vertices})
L0 == RMaxSet({RAbsV(R(Df(p), D(p))) : p \in Pairs})
IntDistances == \A p \in Pairs : D(p) * D(p) = IDot(P(p), P(p)) /\ D(p) > 0

Next == /\ ans = Nil
        /\ ans' = TLCEval(IF OnLine THEN [line |-> TRUE, best |-> LineBest, L0 |-> L0, a |-> TLCEval(LineA)]
                                    ELSE [line |-> FALSE, best |-> TLCEval(PlaneBest), L0 |-> L0, a |-> <<>>])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Sane == ans # Nil => IntDistances /\ RLe(ans.best, ans.L0) /\ RLe(RZ, ans.best) /\ (ans.line => Worst(ans.a) = ans.best)
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, X |-> c.X, f |-> c.f, ans |-> ans]))
=============================================================================
