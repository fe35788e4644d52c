-------------------------------- MODULE Vor --------------------------------
(* Bounded Voronoi diagrams in the metric |L (x - y)|, exactly.  A domain is a bounded polyhedron {x : a_i x <= b_i} with an
   interior; the cell of a site consists of the points of the domain that are no further from it than from any other site, and the
   vertices of the diagram are those of the cells. *)
EXTENDS RatLin, FiniteSetsExt, SequencesExt, Json

Face(a, b) == [a |-> a, b |-> b]
Axis(m, i, s) == [j \in 1..m |-> IF i = j THEN s ELSE 0]
BoxFaces(lb, ub) == LET m == Len(lb) IN [i \in 1..(2 * m) |-> IF i <= m THEN Face(Axis(m, i, 1), ub[i]) ELSE Face(Axis(m, i - m, -1), -lb[i - m])]
Gram(L) == IGram(L, L)
\* sites are sequences of rationals; the bisector keeps the side of x
Bisector(M, x, y) == LET Mx == RMatVec(RMat(M), x) My == RMatVec(RMat(M), y)
                     IN [a |-> RVScale(RI(2), RVSub(My, Mx)), b |-> RSub(RDot(y, My), RDot(x, Mx))]
Dist2(M, x, y) == LET d == RVSub(x, y) IN RDot(d, RMatVec(RMat(M), d))
Near2(M, sites, x) == RMinSet({Dist2(M, x, sites[j]) : j \in 1..Len(sites)})
InDom(faces, x) == \A i \in 1..Len(faces) : RLe(RDot(RVec(faces[i].a), x), RI(faces[i].b))
\* the constraints of the cell of site k
Constraints(M, faces, sites, k) ==
  {[a |-> RVec(faces[i].a), b |-> RI(faces[i].b)] : i \in 1..Len(faces)}
  \cup {Bisector(M, sites[k], sites[j]) : j \in {j \in 1..Len(sites) : Dist2(M, sites[k], sites[j]) # RZ}}
Order(T) == SetToSeq(T)
CellVertices(M, faces, sites, k) ==
  LET C == TLCEval(Constraints(M, faces, sites, k))
      m == Len(M)
      Sol(T) == LET s == Order(T) IN RSolve([i \in 1..m |-> s[i].a], [i \in 1..m |-> s[i].b])
  IN {z \in {v.z : v \in {v \in {Sol(T) : T \in kSubset(m, C)} : v.ok}} : \A c \in C : RLe(RDot(c.a, z), c.b)}
Vertices(M, faces, sites) == UNION {CellVertices(M, faces, sites, k) : k \in 1..Len(sites)}
Fill2(M, sites, V) == RMaxSet({Near2(M, sites, v) : v \in V})
Farthest(M, sites, V) == LET f == Fill2(M, sites, V) IN {v \in V : Near2(M, sites, v) = f}

\* ---- domains with an interior, small enough to enumerate
Domains == <<
  [cls |-> "box", m |-> 1, lb |-> <<1>>, ub |-> <<5>>, A |-> <<>>, faces |-> BoxFaces(<<1>>, <<5>>)],
  [cls |-> "box", m |-> 2, lb |-> <<0, 0>>, ub |-> <<4, 4>>, A |-> <<>>, faces |-> BoxFaces(<<0, 0>>, <<4, 4>>)],
  [cls |-> "box", m |-> 2, lb |-> <<-1, 1>>, ub |-> <<1, 5>>, A |-> <<>>, faces |-> BoxFaces(<<-1, 1>>, <<1, 5>>)],
  [cls |-> "linineq", m |-> 2, lb |-> <<>>, ub |-> <<>>, A |-> <<Face(<<-1, 0>>, 0), Face(<<0, -1>>, 1), Face(<<1, 2>>, 4)>>,
   faces |-> <<Face(<<-1, 0>>, 0), Face(<<0, -1>>, 1), Face(<<1, 2>>, 4)>>],
  [cls |-> "linineq", m |-> 2, lb |-> <<0, 0>>, ub |-> <<4, 3>>, A |-> <<Face(<<1, 1>>, 6), Face(<<-1, 2>>, 5)>>,
   faces |-> BoxFaces(<<0, 0>>, <<4, 3>>) \o <<Face(<<1, 1>>, 6), Face(<<-1, 2>>, 5)>>],
  \* (one face twice, and one that touches a corner only)
  [cls |-> "linineq", m |-> 2, lb |-> <<-1, 0>>, ub |-> <<4, 4>>, A |-> <<Face(<<0, -1>>, 0), Face(<<4, 3>>, 16), Face(<<-4, 1>>, 0)>>,
   faces |-> <<Face(<<0, -1>>, 0), Face(<<4, 3>>, 16), Face(<<-4, 1>>, 0)>>],
  [cls |-> "box", m |-> 3, lb |-> <<0, 0, 0>>, ub |-> <<2, 2, 2>>, A |-> <<>>, faces |-> BoxFaces(<<0, 0, 0>>, <<2, 2, 2>>)],
  [cls |-> "linineq", m |-> 3, lb |-> <<0, 0, 0>>, ub |-> <<2, 3, 2>>, A |-> <<Face(<<1, 1, 1>>, 4)>>,
   faces |-> BoxFaces(<<0, 0, 0>>, <<2, 3, 2>>) \o <<Face(<<1, 1, 1>>, 4)>>] >>
Lattice(D) == {x \in [1..D.m -> -1..5] : \A i \in 1..Len(D.faces) : IDot(D.faces[i].a, x) <= D.faces[i].b}
\* metrics: nonsingular and singular, square, wide and tall
Metrics(m) == IF m = 1 THEN << <<<<1>>>>, <<<<-3>>>> >>
              ELSE IF m = 2 THEN << <<<<1, 0>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 3>>>>, <<<<1, 1>>, <<0, 2>>>>, <<<<1, 1>>>>, <<<<2, -1>>, <<-4, 2>>>>, <<<<1, 0>>, <<1, 1>>, <<0, 2>>>> >>
              ELSE << <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<2, 0, 0>>, <<1, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 1>>, <<0, 1, 0>>>>, <<<<1, 1, 1>>>> >>
Describe(D) == [cls |-> D.cls, m |-> D.m, lb |-> D.lb, ub |-> D.ub, A |-> D.A]
=============================================================================
