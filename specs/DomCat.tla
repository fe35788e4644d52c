------------------------------- MODULE DomCat -------------------------------
(* A catalogue of domains away from the origin and with different widths in each coordinate, as the history of
   operations that builds each of them and the set it denotes. *)
EXTENDS Poly, Json

Row(a, b) == [a |-> a, b |-> b]
Quad(L, y, r) == [L |-> L, y |-> y, r |-> r]
Id(m) == [i \in 1..m |-> Unit(m, i)]

B(cls, d) == [hist |-> <<[op |-> "base", cls |-> cls, nm |-> <<>>, d |-> d]>>, d |-> d]
\* product of two entries
Mul(e, f) == LET n == Len(e.hist) k == Len(f.hist)
                 Sh(h) == IF h.op = "base" THEN h ELSE IF h.op = "add" THEN [h EXCEPT !.i = @ + n] ELSE [h EXCEPT !.i = @ + n, !.j = @ + n]
             IN [hist |-> e.hist \o [i \in 1..k |-> Sh(f.hist[i])] \o <<[op |-> "mul", i |-> n, j |-> n + k]>>,
                 d |-> Times(e.d, f.d)]
Add(e, c) == [hist |-> e.hist \o <<[op |-> "add", i |-> Len(e.hist), c |-> c]>>, d |-> Meet(e.d, c)]
And(e, f) == LET n == Len(e.hist) k == Len(f.hist)
                 Sh(h) == IF h.op = "base" THEN h ELSE IF h.op = "add" THEN [h EXCEPT !.i = @ + n] ELSE [h EXCEPT !.i = @ + n, !.j = @ + n]
             IN [hist |-> e.hist \o [i \in 1..k |-> Sh(f.hist[i])] \o <<[op |-> "and", i |-> n, j |-> n + k]>>, d |-> Meet(e.d, f.d)]

Bx1 == B("box", [Free(1) EXCEPT !.lb = <<2>>, !.ub = <<6>>])
Bx2 == B("box", [Free(2) EXCEPT !.lb = <<2, -1>>, !.ub = <<6, 1>>])
Tri == B("linineq", [Free(2) EXCEPT !.A = <<Row(<<-1, 0>>, -1), Row(<<0, -1>>, -1), Row(<<1, 2>>, 9)>>])
Hul == B("hull", [Free(2) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<1, 1>>, <<7, 2>>, <<3, 5>>, <<3, 2>>>>]>>])
Seg == B("hull", [Free(2) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<1, 1>>, <<5, 3>>>>]>>])
Poi == B("point", [Free(2) EXCEPT !.lb = <<3, -2>>, !.ub = <<3, -2>>])
Unb == B("unbounded", Free(2))
Pol == B("linineq", [Free(2) EXCEPT !.lb = <<0, 1>>, !.ub = <<8, 5>>, !.A = <<Row(<<1, 1>>, 10), Row(<<-2, 1>>, 1)>>])
Eql == B("linineq", [Free(2) EXCEPT !.lb = <<0, 0>>, !.ub = <<8, 3>>, !.E = <<Row(<<1, 2>>, 8)>>])

\* ---- polyhedra
PolyCat == <<
  Bx1,
  B("boxscalar", [Free(1) EXCEPT !.lb = <<-3>>, !.ub = <<-1>>]),
  B("linineq", [Free(1) EXCEPT !.lb = <<-1>>, !.A = <<Row(<<2>>, 9)>>]),
  B("hull", [Free(1) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<5>>, <<2>>, <<3>>>>]>>]),
  Bx2,
  B("uniform", [Free(2) EXCEPT !.lb = <<-5, 2>>, !.ub = <<-1, 3>>]),
  B("box", [Free(2) EXCEPT !.lb = <<2, 1>>, !.ub = <<6, 1>>]),
  B("box", [Free(2) EXCEPT !.lb = <<2, -4>>, !.ub = <<7, 1>>]),
  B("box", [Free(2) EXCEPT !.lb = <<NINF, 0>>, !.ub = <<3, 4>>]),
  Tri, Pol, Eql,
  B("linineq", [Free(2) EXCEPT !.E = <<Row(<<1, -1>>, 1)>>]),
  B("linineq", [Free(2) EXCEPT !.A = <<Row(<<1, -1>>, 1), Row(<<-1, -1>>, -3)>>]),
  B("linineq", [Free(2) EXCEPT !.lb = <<1, NINF>>, !.A = <<Row(<<1, -3>>, 3), Row(<<1, 1>>, 7)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<1, 2>>, !.ub = <<5, 8>>, !.A = <<Row(<<3, 1>>, 15)>>]),
  Hul, Seg,
  Add(Hul, [Free(2) EXCEPT !.lb = <<2, NINF>>, !.A = <<Row(<<1, 1>>, 7)>>]),
  And(Bx2, B("hull", [Free(2) EXCEPT !.H = <<[o |-> 0, pts |-> <<<<0, 0>>, <<8, 0>>, <<3, 4>>>>]>>])),
  Add(Pol, [Free(2) EXCEPT !.E = <<Row(<<2, -1>>, 6)>>, !.ub = <<INF, 4>>]),
  Poi, Unb,
  Mul(Bx1, Tri), Mul(Hul, Bx1), Mul(Bx1, Unb), Mul(Bx1, Poi),
  Mul(Bx1, B("boxscalar", [Free(1) EXCEPT !.lb = <<-3>>, !.ub = <<-1>>])),
  Add(Mul(Bx1, Bx1), [Free(2) EXCEPT !.A = <<Row(<<1, 1>>, 9)>>]),
  B("linineq", [Free(3) EXCEPT !.lb = <<1, 0, -2>>, !.ub = <<3, 4, -1>>, !.A = <<Row(<<1, 1, 0>>, 5)>>]),
  B("linineq", [Free(3) EXCEPT !.lb = <<0, 0, 0>>, !.ub = <<4, 4, 2>>, !.E = <<Row(<<1, 1, 1>>, 6)>>]),
  \* empty ones
  B("box", [Free(2) EXCEPT !.lb = <<3, 0>>, !.ub = <<1, 2>>]),
  B("linineq", [Free(2) EXCEPT !.lb = <<1, 1>>, !.ub = <<4, 4>>, !.A = <<Row(<<1, 1>>, 1)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<1, 1>>, !.ub = <<4, 4>>, !.E = <<Row(<<1, 1>>, 9)>>]),
  Add(Hul, [Free(2) EXCEPT !.lb = <<8, NINF>>]),
  \* single points
  B("linineq", [Free(2) EXCEPT !.lb = <<0, 0>>, !.ub = <<8, 8>>, !.E = <<Row(<<1, 1>>, 7), Row(<<1, -1>>, 1)>>]),
  B("box", [Free(2) EXCEPT !.lb = <<3, -2>>, !.ub = <<3, -2>>]),
  Mul(Poi, B("box", [Free(1) EXCEPT !.lb = <<5>>, !.ub = <<5>>]))
>>

\* ---- with ellipsoids (3-4-5 triangles put the support points in the lattice)
QuadCat == <<
  B("linquad", [Free(1) EXCEPT !.Q = <<Quad(<<<<2>>>>, <<3>>, 4)>>]),
  B("linquad", [Free(2) EXCEPT !.Q = <<Quad(Id(2), <<4, 2>>, 5)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<0, 0>>, !.ub = <<12, 4>>, !.Q = <<Quad(Id(2), <<4, 2>>, 5)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<0, NINF>>, !.Q = <<Quad(Id(2), <<4, 2>>, 5)>>, !.A = <<Row(<<1, 1>>, 9)>>]),
  B("linquad", [Free(2) EXCEPT !.ub = <<6, 20>>, !.Q = <<Quad(<<<<2, 0>>, <<0, 1>>>>, <<3, 7>>, 4)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<-9, -1>>, !.ub = <<-1, 7>>, !.Q = <<Quad(<<<<1, 1>>, <<0, 1>>>>, <<-5, 3>>, 3)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<0, 0>>, !.ub = <<8, 8>>, !.Q = <<Quad(<<<<1, 1>>>>, <<3, 2>>, 2)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<-8, -8>>, !.ub = <<8, 8>>, !.Q = <<Quad(Id(2), <<4, 2>>, 5), Quad(Id(2), <<1, 2>>, 4)>>]),
  B("linquad", [Free(2) EXCEPT !.E = <<Row(<<1, -1>>, 1)>>, !.Q = <<Quad(Id(2), <<3, 2>>, 5)>>]),
  Mul(Bx1, B("linquad", [Free(2) EXCEPT !.lb = <<0, NINF>>, !.ub = <<5, INF>>, !.Q = <<Quad(Id(2), <<3, 1>>, 4)>>])),
  Mul(B("linquad", [Free(1) EXCEPT !.Q = <<Quad(<<<<2>>>>, <<3>>, 4)>>]), Bx1),
  Add(Mul(Bx1, B("linquad", [Free(1) EXCEPT !.Q = <<Quad(<<<<1>>>>, <<-3>>, 2)>>])), [Free(2) EXCEPT !.A = <<Row(<<1, 1>>, 2)>>]),
  Add(Bx2, [Free(2) EXCEPT !.Q = <<Quad(<<<<2, 0>>, <<0, 2>>>>, <<4, 0>>, 3)>>]),
  Add(Hul, [Free(2) EXCEPT !.Q = <<Quad(Id(2), <<3, 2>>, 2)>>]),
  B("linquad", [Free(3) EXCEPT !.lb = <<0, 0, 0>>, !.ub = <<4, 6, 2>>, !.Q = <<Quad(Id(3), <<2, 2, 1>>, 3)>>, !.A = <<Row(<<1, 1, 1>>, 7)>>]),
  B("linquad", [Free(2) EXCEPT !.lb = <<0, 0>>, !.ub = <<8, 8>>, !.E = <<Row(<<1, 1>>, 7), Row(<<1, -1>>, 1)>>, !.Q = <<Quad(Id(2), <<4, 2>>, 5)>>]),
  Add(Seg, [Free(2) EXCEPT !.Q = <<Quad(Id(2), <<3, 1>>, 1)>>])
>>
=============================================================================
