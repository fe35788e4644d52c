------------------------------- MODULE LipCase -------------------------------
(* Data (samples, values, gradients) from which a Lipschitz matrix, diagonal matrix or constant is estimated,
   with the constraints that the estimate has to satisfy and what is known exactly about the smallest one. *)
EXTENDS RatLin, Json, FiniteSetsExt, SequencesExt

CONSTANTS Dims, Vals, Halves, Mod    \* every Mod-th of the large cases; dimensions, values of the function, and 1 + the epsilons in halves (0: none)
VARIABLES c, ans
vars == <<c, ans>>
Nil == <<>>

Sets(m) == CASE m = 1 -> << <<>>, <<<<0>>>>, <<<<0>>, <<1>>>>, <<<<0>>, <<2>>, <<-1>>>>, <<<<1>>, <<3>>, <<0>>, <<1>>>> >>
             [] m = 2 -> << <<>>, <<<<1, 2>>>>, <<<<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<1, 2>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 1>>>>, <<<<0, 0>>, <<2, 1>>, <<-1, 1>>>>,
                            <<<<0, 0>>, <<1, 1>>, <<2, 2>>>>, <<<<0, 0>>, <<1, 0>>, <<0, 2>>, <<1, 1>>>>, <<<<1, 0>>, <<-1, 1>>, <<1, 0>>, <<0, -2>>>> >>
             [] OTHER -> << <<>>, <<<<0, 0, 0>>, <<1, 0, 2>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, -1>>, <<0, 2, 0>>, <<1, 1, 1>>, <<0, 0, 0>>>> >>
Gs(m) == CASE m = 1 -> << <<>>, <<<<2>>>>, <<<<1>>, <<-3>>>>, <<<<1>>, <<-1>>>> >>
           [] m = 2 -> << <<>>, <<<<2, 1>>>>, <<<<1, 0>>, <<-1, 0>>>>, <<<<1, 0>>, <<0, 2>>>>, <<<<3, -1>>, <<-1, 2>>, <<0, 1>>>>, <<<<0, 0>>>> >>
           [] OTHER -> << <<>>, <<<<1, -2, 0>>>>, <<<<1, 1, 0>>, <<0, 1, 1>>, <<-1, 0, 2>>>>, <<<<1, 1, 1>>, <<-1, -1, -1>>>> >>

\* values: all assignments for few points
Init == /\ ans = Nil
        /\ \E m \in Dims : \E s \in 1..Len(Sets(m)), g \in 1..Len(Gs(m)), e \in {h - 1 : h \in Halves} :
             /\ c \in [m : {m}, s : {s}, g : {g}, eps : {e}, f : [1..Len(Sets(m)[s]) -> Vals]]
             /\ s > 1 \/ g > 1
             /\ (Len(c.f) > 3 \/ m = 3) => (ISum([i \in 1..Len(c.f) |-> i * c.f[i]]) + 3 * s + 5 * g + e) % Mod = 0
             /\ g > 1 => e <= 0       \* gradients say nothing about the values with a tolerance
X == Sets(c.m)[c.s]
G == Gs(c.m)[c.g]
F == c.f
Eps == IF c.eps < 0 THEN RZ ELSE R(c.eps, 2)

Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
\* the constraints: p' H p >= d^2
Pairs == IF Len(X) < 2 THEN {} ELSE kSubset(2, 1..Len(X))
Con(S) == LET i == CHOOSE i \in S : TRUE
              j == CHOOSE j \in S \ {i} : TRUE
              d == RMax(RSub(RI(RAbs(F[i] - F[j])), Eps), RZ)
          IN [p |-> Sub(X[i], X[j]), d |-> d, d2 |-> RSq(d)]
Claims == {Con(S) : S \in Pairs}
Active == {k \in Claims : k.d # RZ}
\* data at the same point that differ by more than the tolerance admit no Lipschitz function
Possible == \A S \in Pairs : LET i == CHOOSE i \in S : TRUE j == CHOOSE j \in S \ {i} : TRUE
                                 IN X[i] = X[j] => F[i] = F[j] \/ RLt(RI(RAbs(F[i] - F[j])), Eps)
N2(v) == IDot(v, v)

\* the squared Lipschitz constant
Const2 == RMaxSet({RZ} \cup {RDiv(k.d2, RI(N2(k.p))) : k \in Active} \cup {RI(N2(G[i])) : i \in 1..Len(G)})

\* the smallest diagonal matrix, if there are no gradients: a linear program
Halfs(h) == [a |-> [i \in 1..c.m |-> RI(h.p[i] * h.p[i])], b |-> h.d2]
Axis(i) == [a |-> [j \in 1..c.m |-> IF i = j THEN ROne ELSE RZ], b |-> RZ]
HS == {Halfs(k) : k \in Active} \cup {Axis(i) : i \in 1..c.m}
Verts == LET Try(T) == LET s == SetToSeq(T) IN RSolve([i \in 1..c.m |-> s[i].a], [i \in 1..c.m |-> s[i].b])
         IN {Try(T).z : T \in {T \in (IF Cardinality(HS) < c.m THEN {} ELSE kSubset(c.m, HS)) : Try(T).ok}}
Feasible(h) == \A k \in HS : RLe(k.b, RDot(k.a, h))
DiagTrace == IF c.m = 1 THEN Const2 ELSE RMinSet({RSumSeq(h) : h \in {h \in Verts : Feasible(h)}})

\* candidates for the full matrix: a bound on its trace
Quad(H, v) == ISum([i \in 1..c.m |-> v[i] * IDot(H[i], v)])
Dirs == [1..c.m -> -2..2]
\* integer vectors a: H = (a/2)(a/2)' bounds the trace by |a|^2/4
RankOne == {a \in [1..c.m -> IF c.m = 3 THEN -4..4 ELSE -6..6] :
              /\ \A k \in Active : RLe(RMul(RI(4), k.d2), RI(IDot(a, k.p) * IDot(a, k.p)))
              /\ \A i \in 1..Len(G) : 4 * N2(G[i]) <= N2(a) /\ \A j, k \in 1..c.m : G[i][j] * a[k] = G[i][k] * a[j]}
\* with at most one gradient g, H = gg' + K with p'Kp >= e2: in the plane the smallest K is found among the points where three
\* constraints hold with equality, or two of them and K has rank one, or K is a multiple of pp'
Shift == {[p |-> k.p, d |-> k.d, e2 |-> IF G = <<>> THEN k.d2 ELSE RSub(k.d2, RI(IDot(G[1], k.p) * IDot(G[1], k.p)))] : k \in Active}
Open == {k \in Shift : RLt(RZ, k.e2)}
Base == IF G = <<>> THEN RZ ELSE RI(N2(G[1]))
Meets(x, y, z) == /\ RLe(RZ, x) /\ RLe(RZ, z) /\ RLe(RSq(y), RMul(x, z))
                  /\ \A k \in Open : RLe(k.e2, RAdd(RAdd(RMul(x, RI(k.p[1] * k.p[1])), RMul(y, RI(2 * k.p[1] * k.p[2]))), RMul(z, RI(k.p[2] * k.p[2]))))
One == {RDiv(k.e2, RI(N2(k.p))) : k \in {k \in Open : \A l \in Open : RLe(RMul(l.e2, RI(N2(k.p) * N2(k.p))), RMul(k.e2, RI(IDot(k.p, l.p) * IDot(k.p, l.p))))}}
Two == IF G # <<>> \/ Cardinality(Open) < 2 THEN {} ELSE
  LET Sol(T, sg) == LET s == SetToSeq(T) IN RSolve(<<RVec(s[1].p), RVec(s[2].p)>>, <<s[1].d, RMul(RI(sg), s[2].d)>>)
  IN {RNorm2(Sol(T[1], T[2]).z) : T \in {T \in kSubset(2, Open) \X {-1, 1} : LET r == Sol(T[1], T[2]) IN r.ok /\ Meets(RSq(r.z[1]), RMul(r.z[1], r.z[2]), RSq(r.z[2]))}}
Three == IF Cardinality(Open) < 3 THEN {} ELSE
  LET Sol(T) == LET s == SetToSeq(T) IN RSolve([i \in 1..3 |-> <<RI(s[i].p[1] * s[i].p[1]), RI(2 * s[i].p[1] * s[i].p[2]), RI(s[i].p[2] * s[i].p[2])>>], [i \in 1..3 |-> s[i].e2])
  IN {RAdd(Sol(T).z[1], Sol(T).z[3]) : T \in {T \in kSubset(3, Open) : LET r == Sol(T) IN r.ok /\ Meets(r.z[1], r.z[2], r.z[3])}}
Plane == IF c.m # 2 \/ Len(G) > 1 THEN {} ELSE {RAdd(Base, k) : k \in One \cup Two \cup Three \cup (IF Open = {} THEN {RZ} ELSE {})}
\* several gradients: integer matrices [[x, y], [y, z]]
Psd2(x, y, z) == x >= 0 /\ z >= 0 /\ x * z >= y * y
Grid == IF c.m # 2 \/ Len(G) < 2 THEN {} ELSE
  {h \in (0..10) \X (-6..6) \X (0..10) :
      /\ \A i \in 1..Len(G) : Psd2(h[1] - G[i][1] * G[i][1], h[2] - G[i][1] * G[i][2], h[3] - G[i][2] * G[i][2])
      /\ \A k \in Active : RLe(k.d2, RI(h[1] * k.p[1] * k.p[1] + 2 * h[2] * k.p[1] * k.p[2] + h[3] * k.p[2] * k.p[2]))}
Best == RMinSet({RMul(RI(c.m), Const2)} \cup {R(N2(a), 4) : a \in RankOne} \cup Plane \cup {RI(h[1] + h[3]) : h \in Grid} \cup (IF G = <<>> THEN {DiagTrace} ELSE {}))
Exact == c.m = 1 \/ (c.m = 2 /\ G = <<>>)

Answer == LET cc == TLCEval(Const2)
              b == TLCEval(Best)
              dt == TLCEval(IF G = <<>> THEN DiagTrace ELSE RZ)
          IN [const2 |-> cc, best |-> b, diag |-> dt, exactdiag |-> G = <<>>, exact |-> Exact]
Next == /\ ans = Nil
        /\ Possible
        /\ ans' = Answer
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* the constant is a Lipschitz matrix, and no Lipschitz matrix has a smaller trace than its largest squared slope
Sane == ans # Nil => /\ RLe(ans.const2, ans.best)
                     /\ RLe(ans.best, RMul(RI(c.m), ans.const2))
                     /\ (ans.exactdiag => RLe(ans.best, ans.diag) /\ RLe(ans.diag, RMul(RI(c.m), ans.const2)))
Emit == ans # Nil => PrintT("@@" \o ToJson([m |-> c.m, X |-> X, f |-> F, G |-> G, eps |-> c.eps,
    cons |-> {[p |-> k.p, d2 |-> k.d2] : k \in Active}, const2 |-> ans.const2, best |-> ans.best, diag |-> ans.diag, exactdiag |-> ans.exactdiag, exact |-> ans.exact]))
=============================================================================
