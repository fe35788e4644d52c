----------------------------- MODULE DomRandDef -----------------------------
(* The catalogue of domains with a density *)
EXTENDS RatLin, TLC, Json

U(lb, ub) == [kind |-> "uniform", m |-> Len(lb), lb |-> lb, ub |-> ub, mean |-> <<>>, cov |-> <<>>, tau |-> <<0, 1>>, off |-> 0, sc |-> <<1, 1>>]
N(mu, cov, tau) == [kind |-> "normal", m |-> Len(mu), lb |-> <<>>, ub |-> <<>>, mean |-> mu, cov |-> cov, tau |-> tau, off |-> 0, sc |-> <<1, 1>>]
LN(mu, var, off, sc, tau) == [kind |-> "lognormal", m |-> 1, lb |-> <<>>, ub |-> <<>>, mean |-> <<mu>>, cov |-> <<<<var>>>>, tau |-> tau, off |-> off, sc |-> sc]
No == <<0, 1>>
Cat == <<
  U(<<0>>, <<1>>), U(<<-3>>, <<2>>), U(<<1, -2>>, <<3, 5>>), U(<<0, 2, -4>>, <<1, 5, -2>>),
  N(<<0>>, <<<<1>>>>, No), N(<<2>>, <<<<4>>>>, No), N(<<-1>>, <<<<3>>>>, <<1, 10>>), N(<<3>>, <<<<1>>>>, <<1, 4>>),
  N(<<0, 0>>, <<<<1, 0>>, <<0, 1>>>>, No), N(<<1, -2>>, <<<<2, 1>>, <<1, 3>>>>, No), N(<<3, 1>>, <<<<4, -2>>, <<-2, 2>>>>, <<1, 20>>),
  N(<<-2, 5>>, <<<<1, 0>>, <<0, 9>>>>, <<1, 5>>), N(<<1, 0>>, <<<<2, -1>>, <<-1, 1>>>>, <<1, 100>>),
  N(<<1, 0, -1>>, <<<<2, 1, 0>>, <<1, 2, 1>>, <<0, 1, 3>>>>, No), N(<<0, 2, 1>>, <<<<1, 0, 0>>, <<0, 4, 2>>, <<0, 2, 5>>>>, <<1, 10>>),
  LN(0, 1, 0, <<1, 1>>, No), LN(1, 2, 3, <<1, 1>>, No), LN(-1, 1, -2, <<1, 1>>, <<1, 10>>), LN(0, 3, 1, <<1, 1>>, <<1, 50>>),
  LN(0, 1, 0, <<2, 1>>, No), LN(1, 1, 2, <<-3, 1>>, No), LN(-1, 2, 1, <<1, 2>>, <<1, 10>>)
>>
IDet(M) == CASE Len(M) = 1 -> M[1][1] [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
             [] OTHER -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                         + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
=============================================================================
