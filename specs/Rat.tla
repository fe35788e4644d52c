-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on <<numerator, denominator>> with denominator > 0, always in lowest terms. *)
EXTENDS Integers, Sequences

RAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

R(n, d) == LET g == GCD(RAbs(n), RAbs(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g) , s * (d \div g)>>
RI(n) == <<n, 1>>
RZ == <<0, 1>>
ROne == <<1, 1>>
RNeg(a) == <<-a[1], a[2]>>
\* reduce across first, to keep the products within 32 bits
RAdd(a, b) == LET g == GCD(a[2], b[2]) IN R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == GCD(RAbs(a[1]), b[2])
                  h == GCD(RAbs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN RZ
                 ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSgn(a) == IF a[1] < 0 THEN -1 ELSE IF a[1] = 0 THEN 0 ELSE 1
\* comparison by continued fractions, which needs no products
RECURSIVE RCmp(_, _)
RCmp(a, b) == LET f == a[1] \div a[2] g == b[1] \div b[2] IN
              IF f < g THEN -1 ELSE IF f > g THEN 1
              ELSE LET r == a[1] % a[2] s == b[1] % b[2] IN
                   IF r = 0 THEN (IF s = 0 THEN 0 ELSE -1) ELSE IF s = 0 THEN 1 ELSE RCmp(<<b[2], s>>, <<a[2], r>>)
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
REq(a, b) == a = b
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RAbsV(a) == IF a[1] < 0 THEN RNeg(a) ELSE a
RSq(a) == RMul(a, a)

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZ ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE RProdSeq(_)
RProdSeq(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), RProdSeq(Tail(s)))
RDot(a, b) == RSumSeq([i \in 1..Len(a) |-> RMul(a[i], b[i])])
RVec(v) == [i \in 1..Len(v) |-> RI(v[i])]
RMaxSet(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
RMinSet(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN ROne ELSE RMul(a, RPow(a, n - 1))

\* integers
RECURSIVE ISum(_)
ISum(s) == IF s = <<>> THEN 0 ELSE Head(s) + ISum(Tail(s))
IDot(a, b) == ISum([i \in 1..Len(a) |-> a[i] * b[i]])
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a < b THEN b ELSE a
\* floor of the square root of n >= 0
RECURSIVE ISqrtB(_, _, _)
ISqrtB(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m * m <= n THEN ISqrtB(n, m, hi) ELSE ISqrtB(n, lo, m - 1)
ISqrt(n) == ISqrtB(n, 0, IMin(n, 46340))
IsSquare(n) == n >= 0 /\ ISqrt(n) * ISqrt(n) = n
RIsSquare(a) == IsSquare(a[1]) /\ IsSquare(a[2])
RSqrt(a) == <<ISqrt(a[1]), ISqrt(a[2])>>
\* all sequences of length n over the set S, as a sequence of the elements in a fixed order
RECURSIVE SeqProd(_, _)
SeqProd(s, n) == IF n = 0 THEN << <<>> >>
                 ELSE LET rest == SeqProd(s, n - 1)
                          RECURSIVE Cat(_)
                          Cat(i) == IF i > Len(s) THEN <<>> ELSE [j \in 1..Len(rest) |-> <<s[i]>> \o rest[j]] \o Cat(i + 1)
                      IN Cat(1)
=============================================================================
