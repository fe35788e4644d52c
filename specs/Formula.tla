------------------------------- MODULE Formula -------------------------------
(* The published test functions as terms, with their derivatives found by the rules of calculus.  Terms are
     <<"c", n, d, e>>   the number n / d * 10^e          <<"x", i>>   a variable        <<"pi">>
     <<"+", a, b>>  <<"*", a, b>>  <<"^", a, p, q>>  (a to the power p / q)   and <<f, a>> with f one of log, sin, cos, sinh, cosh.
   Variables after the first m are constants of the problem with a default value. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT Blocks
VARIABLES q, blk, ans
vars == <<q, blk, ans>>
Nil == <<>>

Num(n, d) == <<"c", n, d, 0>>
Big(n, d, e) == <<"c", n, d, e>>
I(n) == Num(n, 1)
X(i) == <<"x", i>>
Pi == <<"pi">>
IsNum(t, n) == t[1] = "c" /\ t[2] = n /\ t[3] = 1 /\ t[4] = 0
Zero(t) == t[1] = "c" /\ t[2] = 0
Add(a, b) == IF Zero(a) THEN b ELSE IF Zero(b) THEN a ELSE <<"+", a, b>>
Mul(a, b) == IF Zero(a) \/ Zero(b) THEN I(0) ELSE IF IsNum(a, 1) THEN b ELSE IF IsNum(b, 1) THEN a ELSE <<"*", a, b>>
Pow(a, p, r) == IF p = 0 THEN I(1) ELSE IF p = r THEN a ELSE <<"^", a, p, r>>
RECURSIVE Sum(_), Prod(_)
Sum(s) == IF Len(s) = 1 THEN s[1] ELSE Add(s[1], Sum(Tail(s)))
Prod(s) == IF Len(s) = 1 THEN s[1] ELSE Mul(s[1], Prod(Tail(s)))
Neg(a) == Mul(I(-1), a)
Sub(a, b) == Add(a, Neg(b))
Inv(a) == Pow(a, -1, 1)
Div(a, b) == Mul(a, Inv(b))
Sq(a) == Pow(a, 2, 1)
Sqrt(a) == Pow(a, 1, 2)
Fn(f, a) == <<f, a>>
RECURSIVE D(_, _)
D(t, i) ==
  CASE t[1] \in {"c", "pi"} -> I(0)
    [] t[1] = "x" -> IF t[2] = i THEN I(1) ELSE I(0)
    [] t[1] = "+" -> Add(D(t[2], i), D(t[3], i))
    [] t[1] = "*" -> Add(Mul(D(t[2], i), t[3]), Mul(t[2], D(t[3], i)))
    [] t[1] = "^" -> LET d == D(t[2], i) IN IF Zero(d) THEN d ELSE Prod(<<Num(t[3], t[4]), Pow(t[2], t[3] - t[4], t[4]), d>>)
    [] OTHER -> LET d == D(t[2], i) IN IF Zero(d) THEN d ELSE
         CASE t[1] = "log" -> Mul(Inv(t[2]), d)
           [] t[1] = "sin" -> Mul(Fn("cos", t[2]), d)
           [] t[1] = "cos" -> Neg(Mul(Fn("sin", t[2]), d))
           [] t[1] = "sinh" -> Mul(Fn("cosh", t[2]), d)
           [] t[1] = "cosh" -> Mul(Fn("sinh", t[2]), d)

-------------------------------------------------------------------------------
\* OTL circuit: R_b1, R_b2, R_f, R_c1, R_c2, beta
Otl == LET vb1 == Div(Mul(I(12), X(2)), Add(X(1), X(2)))
           br == Mul(X(6), Add(X(5), I(9)))
           den == Add(br, X(3))
       IN Sum(<<Div(Mul(Add(vb1, Num(74, 100)), br), den), Div(Mul(Num(1135, 100), X(3)), den), Div(Prod(<<Num(74, 100), X(3), br>>), Mul(X(4), den))>>)
\* borehole: r_w, r, T_u, H_u, T_l, H_l, L, K_w
Borehole == LET lr == Fn("log", Div(X(2), X(1)))
            IN Div(Prod(<<I(2), Pi, X(3), Sub(X(4), X(6))>>),
                   Mul(lr, Sum(<<I(1), Div(Prod(<<I(2), X(7), X(3)>>), Prod(<<lr, Sq(X(1)), X(8)>>)), Div(X(3), X(5))>>)))
\* piston: M, S, V_0, k, P_0, T_a, T_0
Piston == LET A == Sum(<<Mul(X(5), X(2)), Mul(Num(1962, 100), X(1)), Neg(Div(Mul(X(4), X(3)), X(2)))>>)
              pv == Div(Mul(X(5), X(3)), X(7))
              V == Mul(Div(X(2), Mul(I(2), X(4))), Sub(Sqrt(Add(Sq(A), Prod(<<I(4), X(4), pv, X(6)>>))), A))
          IN Prod(<<I(2), Pi, Sqrt(Div(X(1), Add(X(4), Prod(<<Sq(X(2)), pv, Div(X(6), Sq(V))>>))))>>)
\* wing weight: S_w, W_fw, A, Lambda (degrees), q, lambda, t_c, N_z, W_dg, W_p
Wing == LET lam == Mul(Div(Pi, I(180)), X(4))
        IN Add(Prod(<<Num(36, 1000), Pow(X(1), 758, 1000), Pow(X(2), 35, 10000), Pow(Div(X(3), Sq(Fn("cos", lam))), 6, 10), Pow(X(5), 6, 1000), Pow(X(6), 4, 100),
                      Pow(Div(Mul(I(100), X(7)), Fn("cos", lam)), -3, 10), Pow(Mul(X(8), X(9)), 49, 100)>>), Mul(X(1), X(10)))
\* robot arm: four angles, four lengths
Angle(i) == Sum([j \in 1..i |-> X(j)])
Robot == Sqrt(Add(Sq(Sum([i \in 1..4 |-> Mul(X(4 + i), Fn("cos", Angle(i)))])), Sq(Sum([i \in 1..4 |-> Mul(X(4 + i), Fn("sin", Angle(i)))]))))
\* beam: breadth, height; constants F, L, E, nu, G
Bending == Div(Prod(<<I(6), X(3), X(4)>>), Mul(X(1), Sq(X(2))))
Beam == LET iy == Div(Mul(X(1), Pow(X(2), 3, 1)), I(12))
            it == Div(Add(Mul(Pow(X(1), 3, 1), X(2)), Mul(X(1), Pow(X(2), 3, 1))), I(12))
            iz == Div(Mul(Pow(X(1), 3, 1), X(2)), I(12))
        IN <<Mul(X(1), X(2)), Bending, Div(Mul(X(3), Pow(X(4), 3, 1)), Prod(<<I(3), X(5), iy>>)), Bending, Div(Mul(I(3), X(3)), Prod(<<I(2), X(1), X(2)>>)),
             Div(X(2), X(1)), Mul(Div(I(4), Sq(X(4))), Sqrt(Div(Prod(<<X(7), it, X(5), iz>>), Sub(I(1), X(6)))))>>
\* Hartmann flow: viscosity, pressure gradient, resistivity, magnetic field
Ha == Div(X(4), Sqrt(Mul(X(3), X(1))))
Hartmann == <<Prod(<<I(-1), X(2), Div(X(3), Sq(X(4))), Sub(I(1), Mul(Ha, Div(Fn("cosh", Ha), Fn("sinh", Ha))))>>),
              Prod(<<X(2), Inv(Mul(I(2), X(4))), Sub(I(1), Mul(Div(I(2), Ha), Div(Fn("sinh", Div(Ha, I(2))), Fn("cosh", Div(Ha, I(2))))))>>)>>
\* Golinski's speed reducer with 17 teeth: x1, x2, x4, .., x7
Golinski == LET x1 == X(1) x2 == X(2) x3 == I(17) x4 == X(3) x5 == X(4) x6 == X(5) x7 == X(6)
                shaft(l, d, k, s) == Sub(Div(Sqrt(Add(Sq(Div(Mul(I(745), l), Mul(x2, x3))), k)), Mul(I(s), Pow(d, 3, 1))), I(1))
            IN <<Sum(<<Prod(<<Num(7854, 10000), x1, Sq(x2), Sum(<<Mul(Num(33333, 10000), Sq(x3)), Mul(Num(149334, 10000), x3), Num(-430934, 10000)>>)>>),
                       Neg(Prod(<<Num(15079, 10000), x1, Add(Sq(x6), Sq(x7))>>)),
                       Mul(Num(7477, 1000), Add(Pow(x6, 3, 1), Pow(x7, 3, 1))),
                       Mul(Num(7854, 10000), Add(Mul(x4, Sq(x6)), Mul(x5, Sq(x7))))>>),
                 Sub(Div(I(27), Prod(<<x1, Sq(x2), x3>>)), I(1)),
                 Sub(Div(Num(3975, 10), Prod(<<x1, Sq(x2), Sq(x3)>>)), I(1)),
                 Sub(Div(Mul(Num(193, 100), Pow(x4, 3, 1)), Prod(<<x2, x3, Pow(x6, 4, 1)>>)), I(1)),
                 Sub(Div(Mul(Num(193, 100), Pow(x5, 3, 1)), Prod(<<x2, x3, Pow(x7, 4, 1)>>)), I(1)),
                 shaft(x4, x6, Big(169, 10, 6), 110),
                 shaft(x5, x7, Big(1575, 10, 6), 85),
                 Sub(Div(Mul(x2, x3), I(40)), I(1)),
                 Sub(Div(Mul(I(5), x2), x1), I(1)),
                 Sub(Div(x1, Mul(I(12), x2)), I(1)),
                 Sub(Div(Add(Mul(Num(15, 10), x6), Num(19, 10)), x4), I(1)),
                 Sub(Div(Add(Mul(Num(11, 10), x7), Num(19, 10)), x5), I(1))>>
\* affine and quadratic functions; the matrix need not be symmetric
Lin(a) == Sum([i \in 1..Len(a) |-> Mul(I(a[i]), X(i))])
Quad(Q) == Sum([i \in 1..Len(Q) |-> Mul(X(i), Lin(Q[i]))])

B(l, u) == <<l, u>>
N(n) == Num(n, 1)
Problems == <<
  [name |-> "OTLCircuit", m |-> 6, fs |-> <<Otl>>, par |-> Nil, consts |-> Nil,
   dom |-> <<B(N(50), N(150)), B(N(25), N(70)), B(Num(1, 2), N(3)), B(Num(12, 10), Num(25, 10)), B(Num(1, 4), Num(12, 10)), B(N(50), N(300))>>],
  [name |-> "Borehole", m |-> 8, fs |-> <<Borehole>>, par |-> Nil, consts |-> Nil,
   dom |-> <<B(Num(5, 100), Num(15, 100)), B(N(100), N(50000)), B(N(63070), N(115600)), B(N(990), N(1110)), B(Num(631, 10), N(116)), B(N(700), N(820)), B(N(1120), N(1680)), B(N(9855), N(12045))>>],
  [name |-> "Piston", m |-> 7, fs |-> <<Piston>>, par |-> Nil, consts |-> Nil,
   dom |-> <<B(N(30), N(60)), B(Num(5, 1000), Num(20, 1000)), B(Num(2, 1000), Num(10, 1000)), B(N(1000), N(5000)), B(N(90000), N(110000)), B(N(290), N(296)), B(N(340), N(360))>>],
  [name |-> "WingWeight", m |-> 10, fs |-> <<Wing>>, par |-> Nil, consts |-> Nil,
   dom |-> <<B(N(150), N(200)), B(N(220), N(300)), B(N(6), N(10)), B(N(-10), N(10)), B(N(16), N(45)), B(Num(1, 2), N(1)), B(Num(8, 100), Num(18, 100)), B(Num(25, 10), N(6)), B(N(1700), N(2500)), B(Num(25, 1000), Num(80, 1000))>>],
  [name |-> "RobotArm", m |-> 8, fs |-> <<Robot>>, par |-> Nil, consts |-> Nil,
   dom |-> [i \in 1..8 |-> IF i <= 4 THEN B(I(0), Mul(I(2), Pi)) ELSE B(I(0), I(1))]],
  [name |-> "NowackiBeam", m |-> 2, fs |-> Beam, par |-> Nil,
   consts |-> <<[n |-> "F", v |-> N(5000)], [n |-> "L", v |-> Num(15, 10)], [n |-> "E", v |-> Big(21662, 100, 9)], [n |-> "nu", v |-> Num(27, 100)], [n |-> "G", v |-> Big(8665, 100, 9)]>>,
   dom |-> <<B(Num(5, 1000), Num(50, 1000)), B(Num(20, 1000), Num(250, 1000))>>],
  [name |-> "HartmannMHD", m |-> 4, fs |-> Hartmann, par |-> Nil, consts |-> Nil,
   dom |-> <<B(Num(5, 100), Num(2, 10)), B(Num(1, 2), N(3)), B(Num(1, 2), N(3)), B(Num(1, 10), N(1))>>],
  [name |-> "GolinskiGearbox", m |-> 6, fs |-> Golinski, par |-> Nil, consts |-> Nil,
   dom |-> <<B(Num(26, 10), Num(36, 10)), B(Num(7, 10), Num(8, 10)), B(Num(73, 10), Num(83, 10)), B(Num(73, 10), Num(83, 10)), B(Num(29, 10), Num(39, 10)), B(N(5), Num(55, 10))>>],
  [name |-> "AffineFunction", m |-> 3, fs |-> <<Add(Lin(<<2, -1, 3>>), I(4))>>, par |-> [linear |-> <<2, -1, 3>>, constant |-> 4], consts |-> Nil, dom |-> [i \in 1..3 |-> B(I(-1), I(1))]],
  [name |-> "QuadraticFunction", m |-> 2, fs |-> <<Sum(<<Quad(<<<<2, 1>>, <<1, -3>>>>), Lin(<<1, 5>>), I(-2)>>)>>, par |-> [quad |-> <<<<2, 1>>, <<1, -3>>>>, linear |-> <<1, 5>>, constant |-> -2], consts |-> Nil, dom |-> [i \in 1..2 |-> B(I(-1), I(1))]],
  [name |-> "QuadraticFunction", m |-> 3, fs |-> <<Add(Quad(<<<<1, 2, 0>>, <<-1, 3, 1>>, <<4, 0, 2>>>>), Lin(<<0, 1, -1>>))>>, par |-> [quad |-> <<<<1, 2, 0>>, <<-1, 3, 1>>, <<4, 0, 2>>>>, linear |-> <<0, 1, -1>>], consts |-> Nil, dom |-> [i \in 1..3 |-> B(I(-1), I(1))]],
  [name |-> "QuadraticFunction", m |-> 5, fs |-> <<Quad([i \in 1..5 |-> [j \in 1..5 |-> IF i = j THEN 1 ELSE 0]])>>, par |-> [constant |-> 0], consts |-> Nil, dom |-> [i \in 1..5 |-> B(I(-1), I(1))]] >>

\* points: how many sevenths of the way from the lower to the upper bound
Pts(m, s) == [k \in 1..m |-> IF s = 0 THEN 0 ELSE IF s = 1 THEN 7 ELSE (s * (3 * k + s) + 2 * k + (s * s) \div 3) % 8]
Init == ans = Nil /\ q \in 1..Len(Problems) /\ blk \in 0..(Blocks - 1)
Next == /\ ans = Nil /\ UNCHANGED <<q, blk>>
        /\ ans' = TLCEval([f |-> Problems[q].fs, g |-> [k \in 1..Len(Problems[q].fs) |-> [i \in 1..Problems[q].m |-> D(Problems[q].fs[k], i)]],
                           pts |-> [s \in 1..5 |-> Pts(Problems[q].m, 5 * blk + s - 1)]])
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
(* The rules of calculus, checked against dual numbers modulo a prime wherever a term is rational *)
P == 46337
M(a) == a % P
AddM(a, b) == (a + b) % P
RECURSIVE MPow(_, _)
MPow(a, n) == IF n = 0 THEN 1 ELSE IF n % 2 = 0 THEN MPow((a * a) % P, n \div 2) ELSE (a * MPow((a * a) % P, n \div 2)) % P
MInv(a) == MPow(a, P - 2)
RECURSIVE Rational(_)
Rational(t) == CASE t[1] \in {"c", "x"} -> TRUE
                 [] t[1] \in {"+", "*"} -> Rational(t[2]) /\ Rational(t[3])
                 [] t[1] = "^" -> t[4] = 1 /\ Rational(t[2])
                 [] OTHER -> FALSE
\* value and derivative along the i-th variable
RECURSIVE Dual(_, _, _)
Dual(t, i, v) ==
  CASE t[1] = "c" -> <<M(M(t[2]) * M(MInv(M(t[3])) * MPow(10, t[4]))), 0>>
    [] t[1] = "x" -> <<v[t[2]], IF t[2] = i THEN 1 ELSE 0>>
    [] t[1] = "+" -> LET a == Dual(t[2], i, v) b == Dual(t[3], i, v) IN <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
    [] t[1] = "*" -> LET a == Dual(t[2], i, v) b == Dual(t[3], i, v) IN <<(a[1] * b[1]) % P, AddM((a[1] * b[2]) % P, (a[2] * b[1]) % P)>>
    [] t[1] = "^" -> LET a == Dual(t[2], i, v)
                         \* by repeated multiplication, or division
                         RECURSIVE Rep(_) Rep(n) == IF n = 0 THEN <<1, 0>> ELSE LET r == Rep(n - 1) IN <<(a[1] * r[1]) % P, AddM((a[1] * r[2]) % P, (a[2] * r[1]) % P)>>
                         w == Rep(IF t[3] < 0 THEN -t[3] ELSE t[3])
                         u == MInv(w[1])
                     IN IF t[3] >= 0 THEN w ELSE <<u, M(P - M(w[2] * M(u * u)))>>
Value(t, v) == Dual(t, 0, v)[1]
Vals(s) == [k \in 1..12 |-> ((1234 * k * s + 77 * k * k + 5 * s) % (P - 1)) + 1]
Sane == ans # Nil => \A k \in 1..Len(ans.f) : Rational(ans.f[k]) =>
          \A i \in 1..Problems[q].m, s \in (2 * blk + 1)..(2 * blk + 2) : LET v == TLCEval(Vals(s)) IN Dual(ans.f[k], i, v)[2] = Value(ans.g[k][i], v)
Emit == ans # Nil => PrintT("@@" \o ToJson([name |-> Problems[q].name, blk |-> blk, m |-> Problems[q].m, par |-> Problems[q].par, consts |-> Problems[q].consts, dom |-> Problems[q].dom, ans |-> ans]))
===============================================================================
