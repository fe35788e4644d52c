------------------------------- MODULE DemoDom -------------------------------
(* The domains that come with the test functions, coordinate by coordinate: intervals with the uniform distribution (or
   none), normal and lognormal distributions <<kind, parameters>>; numbers are <<n, d, e>> for n / d * 10^e.
   A question is a domain with the arguments of its constructor and points at fractions of its coordinates. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Blocks
VARIABLES q, blk, ans
vars == <<q, blk, ans>>
Nil == <<>>
N(n, d, e) == <<n, d, e>>
I(n) == <<n, 1, 0>>
\* squares stay exact: numerator and denominator are small
Sq(a) == <<a[1] * a[1], a[2] * a[2], 2 * a[3]>>
Neg(a) == <<-a[1], a[2], a[3]>>
Kind(k, a, b, c) == [k |-> k, a |-> a, b |-> b, c |-> c]
B(a, b) == Kind("box", a, b, I(1))
U(a, b) == Kind("uniform", a, b, I(1))
Z(mean, cov) == Kind("normal", mean, cov, I(1))
L(mean, cov, scaling) == Kind("lognormal", mean, cov, scaling)
RECURSIVE Cat(_)
Cat(s) == IF s = Nil THEN Nil ELSE Head(s) \o Cat(Tail(s))
Rep(n, x) == [i \in 1..n |-> x]
Dom(name, args, trunc, coords) == [name |-> name, args |-> args, trunc |-> trunc, coords |-> coords]

OasDesign(n) == Cat(<<Rep(n, B(I(-1), I(1))), Rep(n, B(N(5, 1000, 0), N(50, 1000, 0))), <<B(N(7, 10, 0), N(13, 10, 0))>>, <<B(N(75, 100, 0), N(125, 100, 0))>>>>)
OasRobust == <<B(I(2), I(5))>>
Around(n, e) == U(N(8 * n, 10, e), N(12 * n, 10, e))
OasRandom == <<Around(70, 9), Around(30, 9), Around(3, 3)>>
Hicks(l, u, f) == Rep(l + u, B(Neg(f), f))
Gear == [i \in 1..6 |-> Z(I(0), Sq(N(<<21, 1, 30, 30, 21, 30>>[i], 1, -4)))]
Hole == <<Z(N(1, 10, 0), N(26183123, 100000, -6)), L(N(771, 100, 0), N(10112314, 10000000, 0), I(1)),
          U(I(63070), I(115600)), U(I(990), I(1110)), U(N(631, 10, 0), I(116)), U(I(700), I(820)), U(I(1120), I(1680)), U(I(9855), I(12045))>>
MultifRandom == <<
  L(N(77803, 10000, 0), Sq(N(182, 10000, 0)), N(1, 1, 0)),
  L(N(42047, 10000, 0), Sq(N(551, 10000, 0)), N(1, 1, 9)),
  U(N(23, 100, 0), N(43, 100, 0)),
  U(N(137, 100, 0), N(145, 100, 0)),
  U(N(228, 1000000000, 0), N(252, 1000000000, 0)),
  L(N(-26694, 10000, 0), Sq(N(1421, 10000, 0)), N(1, 100, 0)),
  U(N(963, 1, 0), N(983, 1, 0)),
  U(N(1563, 1, 0), N(1573, 1, 0)),
  U(N(57, 1, 9), N(63, 1, 9)),
  U(N(57, 1, 9), N(63, 1, 9)),
  U(N(226, 1, 8), N(24, 1, 9)),
  U(N(334, 1000, 0), N(354, 1000, 0)),
  U(N(-1, 10, 0), N(1, 10, 0)),
  U(N(-1, 10, 0), N(1, 10, 0)),
  U(N(3208, 1000, 0), N(3546, 1000, 0)),
  U(N(3208, 1000, 0), N(3546, 1000, 0)),
  U(N(3243, 1000, 0), N(3585, 1000, 0)),
  U(N(116, 100000000, 0), N(124, 100000000, 0)),
  U(N(116, 100000000, 0), N(124, 100000000, 0)),
  U(N(-4, 100000000, 0), N(4, 100000000, 0)),
  U(N(675, 100000, 0), N(825, 100000, 0)),
  U(N(-572, 100000, 0), N(-494, 100000, 0)),
  U(N(675, 100000, 0), N(825, 100000, 0)),
  U(N(-572, 100000, 0), N(-494, 100000, 0)),
  U(N(153, 100000, 0), N(187, 100000, 0)),
  U(N(5, 1, 2), N(51, 1, 1)),
  U(N(17777, 100, 0), N(18137, 100, 0)),
  L(N(6441, 10000, 0), Sq(N(779, 10000, 0)), N(1, 1, 9)),
  U(N(16, 100, 0), N(196, 1000, 0)),
  U(N(68, 100, 0), N(736, 1000, 0)),
  U(N(288, 100000000, 0), N(306, 100000000, 0)),
  L(N(255, 100, 0), Sq(N(1205, 10000, 0)), N(1, 1, 6)),
  U(N(745, 1, 0), N(765, 1, 0)),
  U(N(32, 1000, 0), N(53, 1000, 0)),
  L(N(43191, 10000, 0), Sq(N(1196, 10000, 0)), N(1, 1, 6)),
  L(N(11501, 1000, 0), Sq(N(579, 10000, 0)), N(1, 1, 0)),
  L(N(68615, 10000, 0), Sq(N(119, 10000, 0)), N(1, 1, 0)),
  L(N(98386, 10000, 0), Sq(N(323, 10000, 0)), N(1, 1, 0)),
  L(N(53781, 10000, 0), Sq(N(282, 10000, 0)), N(1, 1, 0)),
  L(N(2509, 1000, 0), N(2285, 10000, 0), N(1, 1, 0))>>
T0 == I(0)
Domains == <<
  Dom("build_oas_design_domain", Nil, T0, OasDesign(3)),
  Dom("build_oas_design_domain", [n_cp |-> 2], T0, OasDesign(2)),
  Dom("build_oas_design_domain", [n_cp |-> 5], T0, OasDesign(5)),
  Dom("build_oas_robust_domain", Nil, T0, OasRobust),
  Dom("build_oas_random_domain", Nil, T0, OasRandom),
  Dom("OpenAeroStruct", Nil, T0, OasDesign(3) \o OasRobust \o OasRandom),
  Dom("NACA0012", Nil, T0, Hicks(10, 10, N(1, 100, 0))),
  Dom("NACA0012", [n_lower |-> 3, n_upper |-> 5, fraction |-> N(1, 2, 0)], T0, Hicks(3, 5, N(1, 2, 0))),
  Dom("naca0012.build_hicks_henne_domain", [n_lower |-> 4, n_upper |-> 2], T0, Hicks(4, 2, N(1, 10, 0))),
  Dom("build_golinski_random_domain", Nil, T0, Gear),
  Dom("build_golinski_random_domain", [clip |-> N(1, 100, 0)], N(1, 100, 0), Gear),
  Dom("build_golinski_random_domain", [clip |-> N(1, 10, 0)], N(1, 10, 0), Gear),
  Dom("build_borehole_uncertain_domain", Nil, T0, Hole),
  Dom("build_multif_random_domain", Nil, N(1, 1, -7), MultifRandom),
  Dom("build_multif_random_domain", [truncate |-> N(1, 1000, 0)], N(1, 1000, 0), MultifRandom),
  Dom("build_multif_domain", [truncate |-> N(1, 100, 0)], N(1, 100, 0), MultifRandom) >>

\* eighths of the way along each coordinate (of the box, or from the lower to the upper tail)
Pts(m, s) == [k \in 1..m |-> 1 + ((s * (3 * k + s) + 2 * k + (s * s) \div 3) % 7)]
Init == ans = Nil /\ q \in 1..Len(Domains) /\ blk \in 0..(Blocks - 1)
Next == /\ ans = Nil /\ UNCHANGED <<q, blk>>
        /\ ans' = [pts |-> [s \in 1..4 |-> Pts(Len(Domains[q].coords), 4 * blk + s - 1)]]
Spec == Init /\ [][Next]_vars
RECURSIVE Ten(_)
Ten(e) == IF e = 0 THEN 1 ELSE 10 * Ten(e - 1)
Pos(a) == a[1] > 0 /\ a[2] > 0
\* intervals are not empty, variances and scalings are positive
Less(a, b) == a[2] > 0 /\ b[2] > 0 /\ (IF a[3] = b[3] THEN (IF a[2] = b[2] THEN a[1] < b[1] ELSE a[1] * b[2] < b[1] * a[2])
                                     ELSE IF a[3] < b[3] THEN a[1] < b[1] * Ten(b[3] - a[3]) ELSE a[1] * Ten(a[3] - b[3]) < b[1])
Sane == LET d == Domains[q] IN \A i \in 1..Len(d.coords) : LET c == d.coords[i] IN
          IF c.k \in {"box", "uniform"} THEN Less(c.a, c.b) ELSE Pos(c.b) /\ Pos(c.c)
Emit == ans = Nil \/ PrintT("@@" \o ToJson([q |-> q, blk |-> blk, dom |-> Domains[q], ans |-> ans]))
===============================================================================
