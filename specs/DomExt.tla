------------------------------- MODULE DomExt -------------------------------
(* How far one can move from a point of a domain in a direction: exactly for polyhedra, and as the positive root of
   the quadratics the specification prints for ellipsoids. *)
EXTENDS DomCat

CONSTANT Dense
VARIABLES which, c, x, p, ans
vars == <<which, c, x, p, ans>>

Cat(w) == IF w = "poly" THEN PolyCat ELSE QuadCat
D == Cat(which)[c].d
Nil == <<>>
Dirs(m) == CASE m = 1 -> {<<1>>, <<-2>>}
             [] m = 2 -> {<<1, 0>>, <<0, -1>>, <<2, 1>>, <<-1, 1>>, <<-1, -3>>, <<3, -4>>} \cup (IF Dense THEN (-2..2) \X (-2..2) ELSE {})
             [] OTHER -> {<<1, 0, 0>>, <<0, 0, -1>>, <<1, 2, 1>>, <<-1, 1, -2>>, <<0, -1, 1>>, <<1, -1, 0>>}
\* the points we start from: a subset of the lattice, boundary points included
Vals(m) == IF m = 3 THEN [i \in 1..9 |-> S * (i - 3)] ELSE IF m = 2 THEN [i \in 1..20 |-> S * (i - 8)] ELSE [i \in 1..(20 * S) |-> i - 9 * S]
Keep(z) == Len(z) = 1 \/ Dense \/ ISum([i \in 1..Len(z) |-> (2 * i + 1) * (z[i] \div S)]) % (IF Len(z) = 3 THEN 5 ELSE 4) = 0
Lat == [m \in 1..3 |-> LET s == SeqProd(Vals(m), m) IN {s[i] : i \in {j \in 1..Len(s) : Keep(s[j])}}]

Quads == [k \in 1..Len(D.Q) |->
   LET q == D.Q[k]
       Lp == [i \in 1..Len(q.L) |-> IDot(q.L[i], p)]
       Lx == [i \in 1..Len(q.L) |-> IDot(q.L[i], [j \in 1..D.m |-> x[j] - S * q.y[j]])]
   IN <<S * S * IDot(Lp, Lp), 2 * S * IDot(Lp, Lx), IDot(Lx, Lx) - q.r * q.r * S * S>>]
Lin == LET rows == Rows(D)
           steps == {R(S * rows[k].b - IDot(rows[k].a, x), S * IDot(rows[k].a, p)) : k \in {k \in 1..Len(rows) : IDot(rows[k].a, p) > 0}}
       IN IF \E k \in 1..Len(D.E) : IDot(D.E[k].a, p) # 0 THEN RZ
          ELSE IF steps = {} THEN RI(INF) ELSE RMinSet(steps)
\* the direction that a sweep uses: made parallel to the equality constraints
Proj == IF Len(D.E) = 1 THEN LET a == D.E[1].a IN [i \in 1..D.m |-> IDot(a, a) * p[i] - IDot(a, p) * a[i]]
        ELSE IF Len(D.E) = 0 THEN p ELSE Zeros(D.m)
Bnd == [i \in 1..Len(PolyCat) |-> LET E == PolyCat[i].d IN \A r \in Rays(E) : r = Zeros(E.m) \/ (~IsRay(E, r) /\ ~IsRay(E, NegV(r)))]
Init == \E w \in {"poly", "quad"} : \E i \in 1..Len(Cat(w)) :
          /\ which = w /\ c = i /\ ans = Nil
          /\ p \in Dirs(Cat(w)[i].d.m)
          /\ x \in {z \in Lat[Cat(w)[i].d.m] : In(Cat(w)[i].d, z)}
Ask == ans = Nil /\ ans' = [lin |-> Lin, quads |-> Quads, proj |-> Proj] /\ UNCHANGED <<which, c, x, p>>
Next == Ask
Spec == Init /\ [][Next]_vars

\* sanity: never negative, and the end of the step is in the closed set as far as the linear constraints go
Sane == ans # Nil => /\ RLe(RZ, ans.lin)
                     /\ (ans.lin # RI(INF) => RInLin(D, Rows(D), [i \in 1..D.m |-> RAdd(R(x[i], S), RMul(ans.lin, RI(p[i])))]))
                     /\ \A k \in 1..Len(ans.quads) : ans.quads[k][3] <= 0
Emit == ans # Nil => PrintT("@@" \o ToJson([which |-> which, cat |-> c, hist |-> Cat(which)[c].hist, m |-> D.m, s |-> S, x |-> x, p |-> p,
           lin |-> ans.lin, quads |-> ans.quads, proj |-> ans.proj, bounded |-> which = "quad" \/ Bnd[c], hull |-> Len(D.H), neq |-> Len(D.E)]))
=============================================================================
