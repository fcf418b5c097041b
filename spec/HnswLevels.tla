------------------------------ MODULE HnswLevels ------------------------------
(***************************************************************************)
(* The law of the levels.  The scale of an index is s = num/den / ln(M), a  *)
(* rational multiple of 1/ln(M), so that                                    *)
(*                                                                          *)
(*     P(level >= l) = exp(-l / s) = M ^ (-l * den / num)                   *)
(*                                                                          *)
(* and levels >= L (the number of layers) are drawn again uniformly in      *)
(* 0 .. L-1:   P(drawn >= l) = M^(-l den/num) - M^(-L den/num) * l / L      *)
(* All numbers here are integers; a probability 1/p is given by p.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cap == 1000000
RECURSIVE PowCap(_, _)
PowCap(m, k) == IF k = 0 THEN 1 ELSE LET q == PowCap(m, k - 1) IN IF q >= Cap \div m + 1 THEN Cap ELSE m * q

MinI(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

MaxLayers == 16
Layers(asked) == MinI(asked, MaxLayers)

\* the scale: <<num, den>>; the factor asked for is clamped to [1/5, 1]
ClampFactor(n, d) == IF n * 5 < d THEN <<1, 5>> ELSE IF n > d THEN <<1, 1>> ELSE <<n, d>>
Modified(sc, n, d) == LET f == ClampFactor(n, d) IN <<sc[1] * f[1], sc[2] * f[2]>>

\* the expected number of levels >= l among n draws: bounds (equal but for a rounding if num divides l * den)
ExpHi(n, m, L, sc, l) == CeilDiv(n, PowCap(m, (l * sc[2]) \div sc[1])) - (n * l) \div (PowCap(m, CeilDiv(L * sc[2], sc[1])) * L)
ExpLo(n, m, L, sc, l) == n \div PowCap(m, CeilDiv(l * sc[2], sc[1])) - CeilDiv(n * l, PowCap(m, (L * sc[2]) \div sc[1]) * L)

\* seven standard deviations and a few units more: the number of levels drawn is this far from what is expected less than once in 10^11
NotMore(c, e, n) == c <= e + 10 \/ (c - e - 10) * (c - e - 10) <= 49 * (MinI(e, n - e + 1) + 1)
NotLess(c, e, n) == c >= e - 10 \/ (e - 10 - c) * (e - 10 - c) <= 49 * (MinI(e, n - e + 1) + 1)

\* ge[l+1]: how many of the n levels are >= l, for l in 0..L-1
LawOK(ge, n, m, L, sc) == \A l \in 1..(L - 1) : /\ NotMore(ge[l + 1], ExpHi(n, m, L, sc, l), n)
                                                /\ NotLess(ge[l + 1], ExpLo(n, m, L, sc, l), n)
==============================================================================
