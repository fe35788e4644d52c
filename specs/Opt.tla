-------------------------------- MODULE Opt --------------------------------
(* Problems for the solvers (minimax, sequential linear programs, Gauss-Newton) with exact solutions.

   Piecewise linear problems over a polyhedron attain their optimum at a vertex of the arrangement of the rows of the
   polyhedron and the hyperplanes on which the objective has a kink; smallest enclosing balls are determined by the
   equidistant points of subsets of the centres on faces of the polyhedron; least squares by the KKT points on faces. *)
EXTENDS DomCat

CONSTANTS Full, Kinds
VARIABLES q, ans
vars == <<q, ans>>
Nil == <<>>

Fn(a, b) == [a |-> a, b |-> b]            \* x -> a . x + b
\* ---- families of affine functions, by dimension
Fams(m) == CASE m = 1 -> << <<Fn(<<1>>, 0), Fn(<<-2>>, 3)>>, <<Fn(<<3>>, -7), Fn(<<1>>, -4), Fn(<<-1>>, 1)>> >>
             [] m = 2 -> << <<Fn(<<1, 0>>, -2), Fn(<<0, 1>>, 1), Fn(<<-1, -1>>, 4)>>,
                            <<Fn(<<1, 2>>, -3), Fn(<<-2, 1>>, 1), Fn(<<1, -1>>, 0), Fn(<<0, -1>>, -2)>>,
                            <<Fn(<<3, -1>>, 2), Fn(<<1, 1>>, -9)>> >>
             [] OTHER -> << <<Fn(<<1, 0, 1>>, -2), Fn(<<0, 1, -1>>, 1), Fn(<<-1, -1, 0>>, 4), Fn(<<0, 0, -1>>, 1)>>,
                            <<Fn(<<1, 1, 0>>, -5), Fn(<<0, 1, 2>>, 0), Fn(<<2, 0, -1>>, -3)>> >>
Centres(m) == CASE m = 1 -> << <<<<0>>, <<5>>, <<3>>>>, <<<<-4>>>> >>
                [] m = 2 -> << <<<<0, 0>>, <<6, 0>>, <<1, 4>>>>, <<<<0, 0>>, <<8, 2>>, <<3, 1>>>>, <<<<3, -5>>, <<-1, 2>>, <<7, 7>>, <<2, 2>>>>, <<<<9, 1>>>> >>
                [] OTHER -> << <<<<0, 0, 0>>, <<4, 0, 2>>, <<0, 4, -2>>, <<1, 1, 5>>>>, <<<<2, 3, -1>>, <<-2, 1, 3>>>> >>
Bounds == {<<NINF, INF>>, <<-1, INF>>, <<NINF, 2>>, <<-3, 3>>}
Norms == {"1", "2", "inf", "hinge"}

\* discs (y, r) and directions c of integer length: the constraint |x - y|^2 <= r^2 is not linear
Circles == << [y |-> <<0, 0>>, r |-> 1, c |-> <<3, 4>>], [y |-> <<2, -1>>, r |-> 5, c |-> <<-4, 3>>], [y |-> <<-3, 1>>, r |-> 2, c |-> <<1, 0>>],
              [y |-> <<1, 1>>, r |-> 3, c |-> <<-5, -12>>] >>
IsBoundedP(d) == \A r \in Rays(d) : r = Zeros(d.m) \/ (~IsRay(d, r) /\ ~IsRay(d, NegV(r)))
Idx == {i \in 1..Len(PolyCat) : PolyCat[i].d.m <= (IF Full THEN 3 ELSE 2) \/ i \in {24, 30, 31}}
BIdx == {i \in Idx : IsBoundedP(PolyCat[i].d)}
Queries ==
       {[kind |-> "minimax", cat |-> i, fam |-> f, norm |-> "max", lo |-> NINF, hi |-> INF] : i \in BIdx, f \in 1..3}
  \cup {[kind |-> "norm", cat |-> i, fam |-> f, norm |-> n, lo |-> b[1], hi |-> b[2]] : i \in Idx, f \in 1..3, n \in Norms, b \in IF Full THEN Bounds ELSE {<<NINF, INF>>}}
  \cup {[kind |-> "norm", cat |-> i, fam |-> f, norm |-> n, lo |-> b[1], hi |-> b[2]] : i \in Idx \cap {1, 5, 10, 12, 14, 23}, f \in 1..3, n \in Norms, b \in Bounds}
  \cup {[kind |-> "linear", cat |-> i, fam |-> f, norm |-> "None", lo |-> NINF, hi |-> INF] : i \in BIdx, f \in 1..3}
  \cup {[kind |-> "smooth", cat |-> i, fam |-> f, norm |-> n, lo |-> NINF, hi |-> INF] : i \in Idx, f \in 1..4, n \in {"max", "1", "2", "inf", "hinge"}}
  \* bounds on smooth functions are relative to their values at the start
  \cup {[kind |-> "smooth", cat |-> i, fam |-> f, norm |-> n, lo |-> b[1], hi |-> b[2]] : i \in BIdx \cap (IF Full THEN 1..40 ELSE {1, 5, 10, 11, 17, 24}), f \in 1..4, n \in Norms, b \in Bounds \ {<<NINF, INF>>}}
  \cup {[kind |-> "circle", cat |-> 23, fam |-> f, norm |-> n, lo |-> NINF, hi |-> INF] : f \in 1..Len(Circles), n \in {"None", "1", "2", "inf"}}
  \cup {[kind |-> "ball", cat |-> i, fam |-> f, norm |-> "max", lo |-> NINF, hi |-> INF] : i \in Idx, f \in 1..4}
Family == Fams(PolyCat[q.cat].d.m)[q.fam]
Valid(c) == LET m == PolyCat[c.cat].d.m IN IF c.kind \in {"circle", "smooth"} THEN TRUE ELSE IF c.kind = "ball" THEN c.fam <= Len(Centres(m)) ELSE c.fam <= Len(Fams(m))

\* the polyhedron together with the bounds on the functions
D == LET d == PolyCat[q.cat].d
     IN IF q.kind # "norm" THEN d
        ELSE [d EXCEPT !.A = @ \o (IF q.hi = INF THEN <<>> ELSE [i \in 1..Len(Family) |-> Row(Family[i].a, q.hi - Family[i].b)])
                                \o (IF q.lo = NINF THEN <<>> ELSE [i \in 1..Len(Family) |-> Row(NegV(Family[i].a), Family[i].b - q.lo)])]
Val(f, x) == RAdd(RDot(RVec(f.a), x), RI(f.b))
Vals(F, x) == [i \in 1..Len(F) |-> Val(F[i], x)]
Objective(v) == CASE q.norm = "max" -> RMaxSet({v[i] : i \in 1..Len(v)})
                  [] q.norm = "1" -> RSumSeq([i \in 1..Len(v) |-> RAbsV(v[i])])
                  [] q.norm = "inf" -> RMaxSet({RAbsV(v[i]) : i \in 1..Len(v)})
                  [] q.norm = "hinge" -> RSumSeq([i \in 1..Len(v) |-> RMax(v[i], RZ)])
                  [] q.norm = "2" -> RDot(v, v)
                  [] OTHER -> v[1]
\* hyperplanes [a, b] : a . x = b on which the objective has a kink
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
RECURSIVE SetToS(_)
SetToS(X) == IF X = {} THEN <<>> ELSE LET y == CHOOSE y \in X : TRUE IN <<y>> \o SetToS(X \ {y})
Kinks(F) == LET I == 1..Len(F)
                eq == {Row(VSub(F[i].a, F[j].a), F[j].b - F[i].b) : <<i, j>> \in {p \in I \X I : p[1] < p[2]}}
                op == {Row(VAdd(F[i].a, F[j].a), -F[j].b - F[i].b) : <<i, j>> \in {p \in I \X I : p[1] < p[2]}}
                ze == {Row(F[i].a, -F[i].b) : i \in I}
            IN CASE q.norm = "max" -> eq [] q.norm = "inf" -> eq \cup op \cup ze [] q.norm \in {"1", "hinge"} -> ze [] OTHER -> {}
Vertices(d, F) == LET H == TLCEval(RowSeq(d) \o SetToS({h \in Kinks(F) : h.a # Zeros(d.m)}))
                      HA == TLCEval([i \in 1..Len(H) |-> RVec(H[i].a)])
                      HB == TLCEval([i \in 1..Len(H) |-> RI(H[i].b)])
                      At(K) == LET s == TLCEval(SetSeq(K)) IN RSolve([i \in 1..d.m |-> HA[s[i]]], [i \in 1..d.m |-> HB[s[i]]])
                      sols == TLCEval({At(K) : K \in IF d.m = 1 THEN {{i} : i \in 1..Len(H)}
                                                     ELSE IF d.m = 2 THEN {{i, j} : <<i, j>> \in {p \in (1..Len(H)) \X (1..Len(H)) : p[1] < p[2]}}
                                                     ELSE {{p[1], p[2], p[3]} : p \in {p \in (1..Len(H)) \X (1..Len(H)) \X (1..Len(H)) : p[1] < p[2] /\ p[2] < p[3]}}})
                      rows == TLCEval(Rows(d))
                  IN {z \in {s.z : s \in {t \in sols : t.ok}} : RInLin(d, rows, z)}
\* points equidistant from the centres in T, on the face K, closest to the first of them
Dist2(x, c) == LET v == RVSub(x, RVec(c)) IN RDot(v, v)
Radius2(x, C) == RMaxSet({Dist2(x, C[i]) : i \in 1..Len(C)})
Equi(d, C, T, K) ==
  LET all == RowSeq(d) s == SetSeq(T) k == SetSeq(K) m == d.m
      c1 == C[s[1]]
      rows == [i \in 1..(Len(s) - 1) |-> RVec([l \in 1..m |-> 2 * (C[s[i + 1]][l] - c1[l])])] \o [i \in 1..Len(k) |-> RVec(all[k[i]].a)]
      rhs == [i \in 1..(Len(s) - 1) |-> RI(IDot(C[s[i + 1]], C[s[i + 1]]) - IDot(c1, c1))] \o [i \in 1..Len(k) |-> RI(all[k[i]].b)]
      r == Len(rows)
      M == TLCEval([i \in 1..(m + r) |-> IF i <= m THEN [j \in 1..m |-> IF i = j THEN ROne ELSE RZ] \o [j \in 1..r |-> rows[j][i]]
                                 ELSE rows[i - m] \o [j \in 1..r |-> RZ]])
      sol == RSolve(M, RVec(c1) \o rhs)
  IN sol
BallPts(d, C) == LET n == Len(RowSeq(d)) rows == Rows(d)
                     sols == TLCEval(UNION {{Equi(d, C, T, K) : K \in UNION {SubsetsOfSize(n, k) : k \in 0..(d.m + 1 - Cardinality(T))}} :
                                T \in UNION {SubsetsOfSize(Len(C), k) : k \in 1..IMin(Len(C), d.m + 1)}})
                 IN {x \in {SubSeq(s.z, 1, d.m) : s \in {t \in sols : t.ok}} : RInLin(d, rows, x)}
Mean(P) == LET s == SetToS(P) n == Len(s) IN [i \in 1..Len(s[1]) |-> RMul(R(1, n), RSumSeq([j \in 1..n |-> s[j][i]]))]
\* two starting points in the domain: the average of one point on every face, and one of these
Starts(P) == IF P = {} THEN <<>> ELSE <<Mean(P), CHOOSE x \in P : TRUE>>

\* minimize c . x, or the distance to y - 2 c, in a disc
CircleAnswer ==
  LET z == Circles[q.fam] n == ISqrt(IDot(z.c, z.c))
      at == [i \in 1..2 |-> R(z.y[i] * n - z.r * z.c[i], n)]
      v == CASE q.norm = "None" -> RDot(RVec(z.c), at)
             [] OTHER -> RMul(RI(2 * n - z.r), RI(2 * n - z.r))
  IN [ok |-> TRUE, val |-> v, F |-> <<z>>, starts |-> <<RVec(z.y), [i \in 1..2 |-> R(4 * z.y[i] + (3 - 2 * i) * z.r, 4)]>>, worst |-> TRUE]
SmoothAnswer ==
  LET P == TLCEval(FacePts(D)) IN [ok |-> P # {}, val |-> RZ, F |-> <<>>, starts |-> TLCEval(Starts(P)), worst |-> TRUE]
PolyAnswer ==
  LET F == IF q.kind = "ball" THEN Centres(D.m)[q.fam] ELSE Family
      P == TLCEval(FacePts(D))
      cand == CASE q.kind = "ball" -> BallPts(D, F)
                [] q.norm = "2" -> FaceMins(D, [i \in 1..Len(F) |-> F[i].a], [i \in 1..Len(F) |-> -F[i].b])
                [] OTHER -> Vertices(D, F)
      C == TLCEval(cand)
      obj(x) == IF q.kind = "ball" THEN Radius2(x, F) ELSE Objective(Vals(F, x))
      val == TLCEval(IF C = {} THEN RZ ELSE RMinSet(TLCEval({obj(x) : x \in C})))
  IN [ok |-> P # {} /\ C # {}, val |-> val, F |-> F, starts |-> TLCEval(Starts(P)),
      worst |-> IF C = {} \/ P = {} THEN TRUE ELSE \A x \in P : RLe(val, obj(x))]
Answer == CASE q.kind = "circle" -> CircleAnswer [] q.kind = "smooth" -> SmoothAnswer [] OTHER -> PolyAnswer
Init == q \in {c \in Queries : c.kind \in Kinds /\ Valid(c)} /\ ans = Nil
Next == ans = Nil /\ ans' = Answer /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
\* no point of the polyhedron does better than the optimum
Sane == ans # Nil => ans.worst
Emit == ans # Nil /\ ans.ok => PrintT("@@" \o ToJson([q |-> q, hist |-> PolyCat[q.cat].hist, m |-> D.m, val |-> ans.val,
   F |-> ans.F, starts |-> ans.starts]))
=============================================================================
