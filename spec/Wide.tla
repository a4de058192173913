-------------------------------- MODULE Wide --------------------------------
(* TLC integers are 32-bit. A wide integer is a triple <<h, m, l>> standing  *)
(* for h*2^30 + m*2^15 + l with 0 <= m, l < 2^15 and h signed: 61 bits.      *)
EXTENDS Integers, FiniteSets, FiniteSetsExt

WB == 32768

WNorm(h, m, l) == LET m2 == m + (l \div WB) IN <<h + (m2 \div WB), m2 % WB, l % WB>>
W(a) == WNorm(0, 0, a)
WZero == <<0, 0, 0>>
WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
WNeg(x) == WNorm(-x[1], -x[2], -x[3])
WSub(x, y) == WNorm(x[1] - y[1], x[2] - y[2], x[3] - y[3])
\* product of two plain integers below 2^27 in absolute value
WMul(a, b) == LET a1 == a \div WB  a0 == a % WB  b1 == b \div WB  b0 == b % WB
              IN WNorm(a1 * b1, a1 * b0 + a0 * b1, a0 * b0)
\* wide times a small integer (below 2^15)
WScale(x, k) == WNorm(x[1] * k, x[2] * k, x[3] * k)
WNonNeg(x) == x[1] >= 0
WLeq(x, y) == WNonNeg(WSub(y, x))
WAbs(x) == IF WNonNeg(x) THEN x ELSE WNeg(x)
WAbsLeq(x, y) == WLeq(WAbs(x), y)
WMin(x, y) == IF WLeq(x, y) THEN x ELSE y
WMax(x, y) == IF WLeq(x, y) THEN y ELSE x
WSum(f(_), S) == MapThenFoldSet(WAdd, WZero, f, LAMBDA T : CHOOSE e \in T : TRUE, S)
\* plain integer from a wide one that fits
WInt(x) == x[1] * 1073741824 + x[2] * WB + x[3]
=============================================================================
