-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* 64-bit integers for TLC, whose own integers have 32 bits.  A value is a *)
(* tuple of five base-2^15 digits, least significant first; the last digit *)
(* carries the sign of the two's complement number (-8..7), or is 0..15    *)
(* for an unsigned number.  Every number has exactly one representation,   *)
(* so numbers are compared with "=".                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

NB == 32768

Top(x) == ((x + 8) % 16) - 8

\* The 64-bit number of a TLC integer.
L(n) ==
    IF n >= 0 THEN <<n % NB, (n \div NB) % NB, n \div (NB * NB), 0, 0>>
    ELSE LET m == -(n + 1) IN     \* n = -m - 1, complement of m
         <<NB - 1 - (m % NB), NB - 1 - ((m \div NB) % NB), NB - 1 - (m \div (NB * NB)), NB - 1, -1>>

LZero == <<0, 0, 0, 0, 0>>
LOne == <<1, 0, 0, 0, 0>>

\* Addition modulo 2^64.
LAdd(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div NB)
        s3 == a[3] + b[3] + (s2 \div NB)
        s4 == a[4] + b[4] + (s3 \div NB)
        s5 == a[5] + b[5] + (s4 \div NB)
    IN <<s1 % NB, s2 % NB, s3 % NB, s4 % NB, Top(s5)>>

LNot(a) == <<NB - 1 - a[1], NB - 1 - a[2], NB - 1 - a[3], NB - 1 - a[4], -1 - a[5]>>

LNeg(a) == LAdd(LNot(a), LOne)

LSub(a, b) == LAdd(a, LNeg(b))

\* Multiplication modulo 2^64: columns of digit products, low and high halves apart.
LMul(x, y) ==
    LET a == [x EXCEPT ![5] = x[5] % 16]
        b == [y EXCEPT ![5] = y[5] % 16]
        P(i, j) == a[i] * b[j]
        lo(i, j) == P(i, j) % NB
        hi(i, j) == P(i, j) \div NB
        c1 == lo(1, 1)
        c2 == lo(1, 2) + lo(2, 1) + hi(1, 1) + (c1 \div NB)
        c3 == lo(1, 3) + lo(2, 2) + lo(3, 1) + hi(1, 2) + hi(2, 1) + (c2 \div NB)
        c4 == lo(1, 4) + lo(2, 3) + lo(3, 2) + lo(4, 1) + hi(1, 3) + hi(2, 2) + hi(3, 1) + (c3 \div NB)
        c5 == lo(1, 5) + lo(2, 4) + lo(3, 3) + lo(4, 2) + lo(5, 1)
              + hi(1, 4) + hi(2, 3) + hi(3, 2) + hi(4, 1) + (c4 \div NB)
    IN <<c1 % NB, c2 % NB, c3 % NB, c4 % NB, Top(c5 % 16)>>

LIsNeg(a) == a[5] < 0

\* |a| / n for 0 < n < 2^15, truncated; digits from the top.
LDivAbs(a, n) ==
    LET m == IF LIsNeg(a) THEN LNeg(a) ELSE a
        d5 == m[5] % 16
        r5 == d5 % n
        d4 == (r5 * NB) + m[4]
        r4 == d4 % n
        d3 == (r4 * NB) + m[3]
        r3 == d3 % n
        d2 == (r3 * NB) + m[2]
        r2 == d2 % n
        d1 == (r2 * NB) + m[1]
    IN <<d1 \div n, d2 \div n, d3 \div n, d4 \div n, d5 \div n>>

\* Division truncated towards zero.
LDivTrunc(a, n) == IF LIsNeg(a) THEN LNeg(LDivAbs(a, n)) ELSE LDivAbs(a, n)

\* The number of the lowest 32 bits as a signed 32-bit number.
LWrap32(a) ==
    LET t == a[3] % 4 IN
    IF t < 2 THEN <<a[1], a[2], t, 0, 0>>
    ELSE <<a[1], a[2], t + (NB - 4), NB - 1, -1>>

\* The lowest 32 bits of two numbers are equal.
LSame32(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] % 4 = b[3] % 4

LFits32(a) == LWrap32(a) = a

\* A non-negative number below 2^30 as a TLC integer, otherwise -1.
LInt(a) == IF a[3] = 0 /\ a[4] = 0 /\ a[5] = 0 THEN a[1] + (a[2] * NB) ELSE -1

\* a <= b for numbers of the same signedness.
LLe(a, b) ==
    \/ a[5] < b[5]
    \/ a[5] = b[5] /\ ( \/ a[4] < b[4]
                        \/ a[4] = b[4] /\ ( \/ a[3] < b[3]
                                            \/ a[3] = b[3] /\ ( \/ a[2] < b[2]
                                                                \/ a[2] = b[2] /\ a[1] <= b[1])))

\* -2^45 <= a < 2^45
LBelow45(a) == (a[5] = 0 /\ a[4] = 0) \/ (a[5] = -1 /\ a[4] = NB - 1)
=============================================================================
