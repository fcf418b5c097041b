------------------------------ MODULE TraceLevels ------------------------------
(* Validation of recorded scales and levels of inserted points against HnswLevels. *)
EXTENDS HnswLevels, SequencesExt, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

\* cur: [m, L, sc, bits]: parameters, number of layers, scale, the scale last reported (its bits; "" if not yet)
VARIABLES tr, i, cur, err
vars == <<tr, i, cur, err>>

\* 100000 / ln(m)
InvLn(m) == CASE m = 2 -> 144270 [] m = 3 -> 91024 [] m = 4 -> 72135 [] m = 5 -> 62133 [] m = 8 -> 48090 [] m = 10 -> 43429
              [] m = 12 -> 40243 [] m = 16 -> 36067 [] m = 24 -> 31466 [] m = 32 -> 28854 [] m = 48 -> 25832 [] m = 64 -> 24045
              [] m = 100 -> 21715 [] m = 128 -> 20610 [] m = 200 -> 18874 [] m = 255 -> 18046 [] m = 256 -> 18034
              [] m = 300 -> 17532 [] m = 1000 -> 14476

Abs(x) == IF x < 0 THEN 0 - x ELSE x

VScale(s) == IF cur.m = 1 THEN (IF s.e5 = -1 THEN "" ELSE "the scale for M = 1")
             ELSE IF s.e5 < 0 \/ Abs(s.e5 * cur.sc[2] - InvLn(cur.m) * cur.sc[1]) > 2 * cur.sc[2] THEN "the level scale reported is not 1/ln(M) times the clamped factors"
             ELSE IF cur.bits # "" /\ s.bits # cur.bits THEN "the level scale changes (" \o s.what \o ")"
             ELSE ""

Sum(h) == FoldLeft(LAMBDA a, x : a + x, 0, h)
Ge(h) == [l \in 1..Len(h) |-> Sum(SubSeq(h, l, Len(h)))]

VDraw(s) == IF Sum(s.hist) # s.n THEN "HARNESS: number of points"
            ELSE IF \E l \in 1..Len(s.hist) : l > cur.L /\ s.hist[l] > 0 THEN "a level beyond the range (" \o s.what \o ")"
            ELSE IF ~LawOK(Ge(s.hist), s.n, cur.m, cur.L, cur.sc) THEN "the levels do not follow the law (" \o s.what \o ")"
            ELSE ""

Verdict(s) == CASE s.op = "scale" -> VScale(s) [] s.op = "draw" -> VDraw(s)
                [] s.op = "maxl" -> (IF s.maxl = cur.L THEN "" ELSE "the number of layers reported is not the one asked for, at most 16")
                [] s.op = "fail" -> s.msg
                [] OTHER -> ""

After(s) == CASE s.op = "new" -> [m |-> s.M, L |-> Layers(s.maxl), sc |-> <<1, 1>>, bits |-> ""]
              [] s.op = "mod" -> [cur EXCEPT !.sc = Modified(@, s.num, s.den), !.bits = ""]
              [] s.op = "scale" -> [cur EXCEPT !.bits = s.bits]
              [] OTHER -> cur

Init == tr \in 1..NT /\ i = 0 /\ err = "" /\ cur = [m |-> 2, L |-> 1, sc |-> <<1, 1>>, bits |-> ""]
Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ err' = Verdict(Traces[tr].steps[i + 1])
        /\ cur' = After(Traces[tr].steps[i + 1])
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldSeq(LAMBDA t, a : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================
