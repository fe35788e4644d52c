-------------------------------- MODULE Quad --------------------------------
(* Quadrature: Gauss rules are exact for polynomials, and so are their products on boxes; the weights of a rule for a
   polygon add up to (an approximation of) its area. *)
EXTENDS DomCat

VARIABLES q, ans
vars == <<q, ans>>
Nil == <<>>
RECURSIVE SetToS(_)
SetToS(X) == IF X = {} THEN <<>> ELSE LET y == CHOOSE y \in X : TRUE IN <<y>> \o SetToS(X \ {y})

\* int_a^b x^k
MomI(a, b, k) == RSub(R(b^(k + 1), k + 1), R(a^(k + 1), k + 1))
Ends == {<<0, 1>>, <<-1, 1>>, <<-2, 1>>, <<2, 3>>, <<1, -1>>, <<-3, 0>>}
Big(e) == IMax(RAbs(e[1]), RAbs(e[2]))
MaxDeg(n, e) == IMin(2 * n - 1, CASE Big(e) = 1 -> 40 [] Big(e) = 2 -> 20 [] OTHER -> 14)

\* the largest q with q^m <= n
Root(n, m) == CHOOSE r \in 0..n : r^m <= n /\ (r + 1)^m > n

\* the area of the convex hull of a finite set of points of the plane
PCross(a, b, p) == RSub(RMul(RSub(b[1], a[1]), RSub(p[2], a[2])), RMul(RSub(b[2], a[2]), RSub(p[1], a[1])))
PBetween(a, b, p) == RLe(RDot(RVSub(p, a), RVSub(p, b)), RZ)
Edges(P) == {e \in P \X P : e[1] # e[2] /\ \A p \in P : LET s == RSgn(PCross(e[1], e[2], p)) IN s > 0 \/ (s = 0 /\ PBetween(e[1], e[2], p))}
RECURSIVE SumEdges(_)
SumEdges(E) == IF E = {} THEN RZ ELSE LET e == CHOOSE e \in E : TRUE
                  IN RAdd(RSub(RMul(e[1][1], e[2][2]), RMul(e[1][2], e[2][1])), SumEdges(E \ {e}))
Area(P) == RMul(R(1, 2), SumEdges(Edges(P)))
IsBoundedP(d) == \A r \in Rays(d) : r = Zeros(d.m) \/ (~IsRay(d, r) /\ ~IsRay(d, NegV(r)))

BoxIdx == {i \in 1..Len(PolyCat) : LET d == PolyCat[i].d IN d.A = <<>> /\ d.E = <<>> /\ d.Q = <<>> /\ d.H = <<>>
            /\ \A j \in 1..d.m : d.lb[j] # NINF /\ d.ub[j] # INF /\ d.lb[j] < d.ub[j]}
PolIdx == {i \in 1..Len(PolyCat) : PolyCat[i].d.m = 2 /\ PolyCat[i].d.E = <<>> /\ IsBoundedP(PolyCat[i].d)}
Degs(m) == IF m = 1 THEN {<<k>> : k \in 0..7} ELSE IF m = 2 THEN (0..4) \X (0..4) ELSE {<<a, b, d>> : a \in 0..2, b \in 0..2, d \in 0..2}

Queries == {[kind |-> "gauss", n |-> n, e |-> e, cat |-> 0] : n \in 1..14, e \in Ends}
      \cup {[kind |-> "box", n |-> n, e |-> Nil, cat |-> i] : n \in {2, 5, 9, 16, 30, 64, 100}, i \in BoxIdx}
      \cup {[kind |-> "poly", n |-> n, e |-> Nil, cat |-> i] : n \in {1, 3, 10, 50, 700, 2500}, i \in PolIdx}
Answer ==
  CASE q.kind = "gauss" -> [mom |-> [k \in 1..(MaxDeg(q.n, q.e) + 1) |-> MomI(q.e[1], q.e[2], k - 1)], root |-> q.n, vol |-> RI(q.e[2] - q.e[1]), degs |-> Nil]
    [] q.kind = "box" -> LET d == PolyCat[q.cat].d ds == SetToS(Degs(d.m))
                         IN [mom |-> [j \in 1..Len(ds) |-> RProdSeq([i \in 1..d.m |-> MomI(d.lb[i], d.ub[i], ds[j][i])])],
                             root |-> Root(q.n, d.m), vol |-> RProdSeq([i \in 1..d.m |-> RI(d.ub[i] - d.lb[i])]), degs |-> ds]
    [] OTHER -> [mom |-> Nil, root |-> Root(q.n, 2), vol |-> Area(FacePts(PolyCat[q.cat].d)), degs |-> Nil]
Init == q \in Queries /\ ans = Nil
Ask == ans = Nil /\ ans' = Answer /\ UNCHANGED q
Next == Ask
Spec == Init /\ [][Next]_vars
\* model: the area of a polygon is the area of every larger set that has it as hull, never negative, and a box is a polygon
Sane == ans # Nil /\ q.kind = "poly" => RLe(RZ, ans.vol)
SaneBox == ans # Nil /\ q.kind = "box" /\ PolyCat[q.cat].d.m = 2 => ans.vol = Area(FacePts(PolyCat[q.cat].d))
Emit == ans # Nil => PrintT("@@" \o ToJson([q |-> q, hist |-> IF q.cat = 0 THEN Nil ELSE PolyCat[q.cat].hist, m |-> IF q.cat = 0 THEN 1 ELSE PolyCat[q.cat].d.m,
     mom |-> ans.mom, root |-> ans.root, vol |-> ans.vol, degs |-> ans.degs]))
=============================================================================
