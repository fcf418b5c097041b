------------------------------ MODULE TraceCrash ------------------------------
(***************************************************************************)
(* Validation of recorded loads of what an interrupted dump leaves: every   *)
(* prefix of either file, every state of the files between two system calls *)
(* of a real dump (over nothing or over an older dump), and dumps whose     *)
(* writes fail after a number of bytes.  Outcomes: 1 loaded, 0 error, 2     *)
(* panic.  Forms: 0 to 4 loads of the index, 5 graph only, 6 reader of data.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES tr, i, full, err
vars == <<tr, i, full, err>>

\* a probe: [form, outcome, digest, records, files unchanged]
\* full.full[form + 1] = <<outcome, digest>> on the complete dump
Digest(f) == full.full[f + 1][2]

ReaderOK(p, a, b) ==
    IF p[2] = 2 THEN "the reader of the data file panics"
    ELSE IF p[2] = 0 THEN (IF a = full.g /\ b = full.d THEN "the reader refuses a complete data file" ELSE "")
    ELSE IF a < full.descr THEN "the reader accepts a dump whose description is not complete"
    ELSE IF b \notin Range(full.recs) THEN "the reader accepts a data file that does not end on a complete record"
    ELSE IF Len(p[4]) # Cardinality({j \in 1..Len(full.recs) : full.recs[j] > 12 /\ full.recs[j] <= b})
         THEN "the reader lists other data than those of the file"
    ELSE IF \E j \in 1..Len(p[4]) : p[4][j] # <<full.ids[j], full.data[j]>> THEN "the reader gives other data than those of the file"
    ELSE ""

\* lengths of the files, -1: missing
ProbeOK(p, a, b) ==
    IF ~p[5] THEN "loading changes the files"
    ELSE IF p[1] = 6 THEN ReaderOK(p, a, b)
    ELSE IF a = full.g /\ b = full.d THEN (IF p[2] = 1 /\ p[3] = Digest(p[1]) THEN "" ELSE "a complete dump is not loaded as it was")
    ELSE CASE p[2] = 1 -> "an incomplete dump is loaded"
           [] p[2] = 2 -> "loading an incomplete dump panics"
           [] OTHER -> ""

FirstErr(S) == IF S \ {""} = {} THEN "" ELSE CHOOSE e \in S \ {""} : TRUE

VFull(s) == IF \A f \in 1..Len(s.full) : s.full[f][1] = 1 THEN "" ELSE "the complete dump is not loaded"

VCuts(s) == FirstErr({FirstErr({LET c == s.cuts[j] IN
                                  LET e == ProbeOK(c[3][k], c[1], c[2]) IN
                                  IF e = "" THEN "" ELSE e \o " (form " \o ToString(c[3][k][1]) \o ", graph " \o ToString(c[1]) \o " of " \o
                                                         ToString(full.g) \o ", data " \o ToString(c[2]) \o " of " \o ToString(full.d) \o ")"
                                : k \in 1..Len(s.cuts[j][3])}) : j \in 1..Len(s.cuts)})

\* a state of the files: what each may be (a proper prefix of the new one, the new one, the old one, missing)
Is(c, k, x) == x \in Range(c[k])
Loaded(p, dig) == p[2] = 1 /\ p[3] \in dig
StateOK(c, p, oldl) ==
    LET newdig == {Digest(p[1])}
        olddig == {oldl[j][3] : j \in {k \in 1..Len(oldl) : oldl[k][1] = p[1] /\ oldl[k][2] = 1}}
        bothnew == Is(c, 1, "new") /\ Is(c, 2, "new")
        bothold == Is(c, 1, "old") /\ Is(c, 2, "old")
        cut == Is(c, 1, "prefix") \/ Is(c, 2, "prefix") \/ Is(c, 1, "missing") \/ Is(c, 2, "missing")
    IN IF ~p[5] THEN "loading changes the files"
       ELSE IF p[1] = 6 THEN (IF p[2] = 2 /\ cut THEN "the reader panics on an interrupted dump" ELSE "")
       ELSE IF bothnew \/ bothold
            THEN IF Loaded(p, (IF bothnew THEN newdig ELSE {}) \cup (IF bothold THEN olddig ELSE {})) THEN "" ELSE "a complete dump is not loaded as it was"
       ELSE IF p[2] = 1 THEN "an interrupted dump is loaded"
       ELSE IF p[2] = 2 /\ cut THEN "loading an interrupted dump panics"
       ELSE ""

VCrash(s) == FirstErr({FirstErr({StateOK(s.states[j][1], s.states[j][2][k], s.oldl) : k \in 1..Len(s.states[j][2])}) : j \in 1..Len(s.states)})

\* a dump whose writes fail: [bytes, outcome, class, probes]
FaultOK(f, oldl) ==
    LET new == Is(f[3], 1, "new") /\ Is(f[3], 2, "new") IN
    IF f[2] = 2 THEN "a dump that cannot be written panics"
    ELSE IF f[2] = 1 /\ ~new THEN "the dump reports success and the files are not complete"
    ELSE FirstErr({StateOK(f[3], f[4][k], oldl) : k \in 1..Len(f[4])})
VFaults(s, oldl) == FirstErr({FaultOK(s.faults[j], oldl) : j \in 1..Len(s.faults)})

OldLoads(t) == LET k == CHOOSE k \in 1..Len(t.steps) : t.steps[k].op = "crash" IN t.steps[k].oldl

Verdict(t, s) == CASE s.op = "fail" -> "the dump fails: " \o s.msg
                [] s.op = "full" -> VFull(s)
                [] s.op = "cuts" -> VCuts(s)
                [] s.op = "crash" -> VCrash(s)
                [] s.op = "faults" -> VFaults(s, OldLoads(t))

Init == tr \in 1..NT /\ i = 0 /\ err = "" /\ full = [op |-> "none"]
Next == /\ err = ""
        /\ i < Len(Traces[tr].steps)
        /\ LET s == Traces[tr].steps[i + 1] IN
           /\ err' = Verdict(Traces[tr], s)
           /\ full' = IF s.op = "full" THEN s ELSE full
        /\ i' = i + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Conforms == err = ""
\* what is printed of a behaviour which does not conform
Shown == [tr |-> tr, i |-> i, err |-> err]
TotalSteps == FoldSeq(LAMBDA t, a : a + Len(t.steps) + 1, 0, Traces)
AllRead == TLCGet("stats").distinct = TotalSteps
==============================================================================
