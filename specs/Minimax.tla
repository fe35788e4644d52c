------------------------------ MODULE Minimax ------------------------------
(* Minimax designs: points such that no point of the domain is far from all of them.  For a start S of n points: how far the
   domain is from it; the radius of the smallest ball that contains the domain, the best that one point can do and, for sets of
   whole points of the domain, how far these are from S and the smallest ball that contains them. *)
EXTENDS Vor

CONSTANTS Which, Sizes, Share
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>
Hash(k, l, S) == (SumSet({(ISum([i \in 1..Len(x) |-> x[i] * (7 * i + 3)]) + 40) * (ISum([i \in 1..Len(x) |-> x[i] * (5 * i - 2)]) + 40) : x \in S}) + 17 * k + 5 * l) % 4001
Init == /\ ans = Nil
        /\ \E k \in Which : \E l \in 1..Len(Metrics(Domains[k].m)) : \E s \in Sizes :
             /\ s <= Cardinality(Lattice(Domains[k]))
             /\ \E S \in kSubset(s, Lattice(Domains[k])) :
                /\ (IF s = 1 THEN Hash(k, l, S) % 7 = 0 ELSE Hash(k, l, S) % Share = 0)
                /\ c = [k |-> k, l |-> l, S |-> S]
D == Domains[c.k]
L == Metrics(D.m)[c.l]
M == Gram(L)
\* ---- smallest balls: the centre is equidistant from a set of points that are affinely independent in the metric, and in their affine hull
MDot(G, x, y) == RDot(x, RMatVec(RMat(G), y))
Circum(G, T) == LET s == SetToSeq(T) n == Len(s) - 1
                    e == [i \in 1..n |-> RVSub(s[i + 1], s[1])]
                    sol == IF n = 0 THEN [ok |-> TRUE, z |-> <<>>]
                           ELSE RSolve([i \in 1..n |-> [j \in 1..n |-> RMul(RI(2), MDot(G, e[i], e[j]))]], [i \in 1..n |-> MDot(G, e[i], e[i])])
                IN [ok |-> sol.ok, z |-> IF ~sol.ok THEN s[1] ELSE [a \in 1..Len(s[1]) |-> RAdd(s[1][a], RSumSeq([i \in 1..n |-> RMul(sol.z[i], e[i][a])]))]]
Reach(G, P, z) == RMaxSet({Dist2(G, z, p) : p \in P})
Centres(G, P) == LET m == Len(G) IN {t.z : t \in {t \in {Circum(G, T) : T \in UNION {kSubset(j, P) : j \in 1..(IF m + 1 < Cardinality(P) THEN m + 1 ELSE Cardinality(P))}} : t.ok}}
Ball(G, P) == LET C == TLCEval({[r |-> Reach(G, P, z), z |-> z] : z \in TLCEval(Centres(G, P))})
                  best == TLCEval(RMinSet({b.r : b \in C}))
              IN CHOOSE b \in C : b.r = best
Corners(k) == Vertices(Gram(Metrics(Domains[k].m)[1]), Domains[k].faces, <<[j \in 1..Domains[k].m |-> RZ]>>)
\* the smallest ball that contains the domain
Balls == TLCEval([k \in Which |-> TLCEval([l \in 1..Len(Metrics(Domains[k].m)) |-> TLCEval(Ball(Gram(Metrics(Domains[k].m)[l]), TLCEval(Corners(k))))])])
Sites == SetToSeq({RVec(x) : x \in c.S})
Grid == {RVec(x) : x \in Lattice(D)}
Next == /\ ans = Nil /\ UNCHANGED c
        /\ ans' = [fill2 |-> Fill2(M, Sites, Vertices(M, D.faces, Sites)), ball |-> Balls[c.k][c.l], cover2 |-> Fill2(M, Sites, Grid)]
Spec == Init /\ [][Next]_vars
\* one point cannot do better than the smallest ball, which contains the domain; more points may; the grid is part of the domain
Sane == ans # Nil => /\ Cardinality(c.S) = 1 => RLe(ans.ball.r, ans.fill2)
                     /\ RLe(ans.cover2, ans.fill2)
                     /\ \A x \in Grid : RLe(Dist2(M, ans.ball.z, x), ans.ball.r)
Emit == ans # Nil => PrintT("@@" \o ToJson([k |-> c.k, l |-> c.l, dom |-> Describe(D), L |-> L, X |-> c.S, fill2 |-> ans.fill2, ball2 |-> ans.ball.r,
                                            cover2 |-> ans.cover2, grid |-> Lattice(D)]))
=============================================================================
