-------------------------------- MODULE Num ---------------------------------
(* Fixed-point arithmetic with 6 decimals in TLC's 32-bit integers.          *)
(* A number is an integer count of millionths.  Products saturate at +-100,  *)
(* so that no input whatsoever can overflow TLC's integers.                  *)
EXTENDS Integers, Sequences, FiniteSets
One == 1000000
Sat == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x) == IF x > Sat THEN Sat ELSE IF x < -Sat THEN -Sat ELSE x
\* product, limbs of 1000 so that nothing exceeds 32 bits
MulU(a, b) == LET a1 == a \div 1000  a0 == a % 1000
                  b1 == b \div 1000  b0 == b % 1000
              IN  IF a1 > 0 /\ b1 > Sat \div a1 THEN Sat
                  ELSE Min2(Sat, a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div 1000 + 500) \div 1000)
Mul(a, b) == Sgn(a) * Sgn(b) * MulU(Abs(Clamp(a)), Abs(Clamp(b)))
Mul3(a, b, c) == Mul(Mul(a, b), c)
\* small-integer division, rounding to nearest, any sign
DivI(a, n) == IF a >= 0 THEN (a + n \div 2) \div n ELSE -((-a + n \div 2) \div n)
\* quotient by long division; |b| < 200
RECURSIVE LongDiv(_, _, _, _)
LongDiv(acc, r, b, k) == IF k = 0 THEN acc + (IF 2 * r >= b THEN 1 ELSE 0)
                         ELSE LongDiv(acc * 10 + (r * 10) \div b, (r * 10) % b, b, k - 1)
DivU(a, b) == IF b = 0 \/ a \div b >= 100 THEN Sat ELSE LongDiv(a \div b, a % b, b, 6)
Div(a, b) == Sgn(a) * Sgn(b) * DivU(Abs(Clamp(a)), Abs(Clamp(b)))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE PowFix(_, _)
PowFix(a, n) == IF n = 0 THEN One ELSE Mul(a, PowFix(a, n - 1))
\* square root by bisection, 0 <= v
RECURSIVE SqrtB(_, _, _)
SqrtB(v, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET mid == (lo + hi) \div 2 IN IF Mul(mid, mid) <= v THEN SqrtB(v, mid, hi) ELSE SqrtB(v, lo, mid)
Sqrt(v) == IF v <= 0 THEN 0 ELSE SqrtB(v, 0, 10 * One)
\* 2^(-z)
Ln2 == 693147
Exp2Frac(f) ==      \* 0 <= f < 1
    LET y == Mul(f, Ln2)
        RECURSIVE Horner(_)
        Horner(k) == IF k > 9 THEN One ELSE One - DivI(Mul(y, Horner(k + 1)), k)
    IN  Horner(1)
Exp2Neg(z) == IF z >= 0
              THEN IF z >= 20 * One THEN 0 ELSE DivI(Exp2Frac(z % One), Pow2(z \div One))
              ELSE LET i == ((-z) + One - 1) \div One
                   IN  IF i > 6 THEN Sat ELSE Clamp(Pow2(i) * Exp2Frac(z + i * One))
\* thousandths -> millionths
M(a) == a * 1000
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0
             ELSE LET r == Head(s) + SumSeq(Tail(s)) IN IF r > 1000000000 THEN 1000000000 ELSE IF r < -1000000000 THEN -1000000000 ELSE r
RECURSIVE AbsSumSeq(_)
AbsSumSeq(s) == IF s = <<>> THEN 0 ELSE Min2(1000000000, Abs(Head(s)) + AbsSumSeq(Tail(s)))
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
SeqRange(s) == {s[i] : i \in DOMAIN s}
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x
\* a list of terms that should add up to zero, given their size and the
\* rounding of the recording
Balanced(terms, slack, den) == Abs(SumSeq(terms)) <= slack + AbsSumSeq(terms) \div den
Near(a, b, slack) == Abs(a - b) <= slack + Abs(b) \div 5000
\* three-point Gauss quadrature on a cell
GPts == <<112702, 500000, 887298>>
GVal(l, r) == [g \in 1..3 |-> l + Mul(GPts[g], r - l)]
GInt(h, v) == Mul(h, DivI(5 * v[1] + 8 * v[2] + 5 * v[3], 18))
GMul(v, w) == [g \in 1..3 |-> Mul(v[g], w[g])]
GHat(a) == [g \in 1..3 |-> IF a = 0 THEN One - GPts[g] ELSE GPts[g]]
=============================================================================
