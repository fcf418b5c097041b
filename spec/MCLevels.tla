------------------------------- MODULE MCLevels -------------------------------
(***************************************************************************)
(* The sampling algorithm on a grid: u = k / G uniform, the level is the    *)
(* floor of -ln(u) * s, i.e. the greatest l with u <= M^(-l d) for a scale  *)
(* 1 / (d ln M); a level beyond the range is drawn again by r, uniform in   *)
(* 0..L-1.  For every M, d, L the number of <<k, r>> that give a level >= l  *)
(* is exactly what HnswLevels says.  Clamp: levels beyond the range get the *)
(* highest one (an error shown by TLC).                                     *)
(***************************************************************************)
EXTENDS HnswLevels, TLC

CONSTANTS Ms, Ds, Ls, Clamp
VARIABLES m, d, L, k, r, hist

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
G == Pow(m, d * L)
\* k/G <= m^(-l d)
Raw == CHOOSE l \in 0..L : k * Pow(m, l * d) <= G /\ (l = L \/ k * Pow(m, (l + 1) * d) > G)
Level == IF Raw >= L THEN (IF Clamp THEN L - 1 ELSE r) ELSE Raw

\* every draw once: hist[l] the number of draws >= l
Init == /\ m \in Ms /\ d \in Ds /\ L \in Ls
        /\ k = 1 /\ r = 0 /\ hist = [l \in 0..20 |-> 0]
Next == /\ k <= G
        /\ hist' = [l \in 0..20 |-> hist[l] + (IF Level >= l THEN 1 ELSE 0)]
        /\ IF r + 1 < L THEN r' = r + 1 /\ k' = k ELSE r' = 0 /\ k' = k + 1
        /\ UNCHANGED <<m, d, L>>
Spec == Init /\ [][Next]_<<m, d, L, k, r, hist>>

Done == k > G
InRange == hist[L] = 0
Law == Done => \A l \in 0..(L - 1) : hist[l] = (G \div Pow(m, d * l)) * L - (G \div Pow(m, d * L)) * l
\* the bounds used for recorded draws contain the expectation
BoundsOK == Done /\ m > 1 => \A l \in 1..(L - 1) :
                LET n == 1000 IN
                /\ n * hist[l] <= ExpHi(n, m, L, <<1, d>>, l) * G * L
                /\ n * hist[l] >= ExpLo(n, m, L, <<1, d>>, l) * G * L
==============================================================================
