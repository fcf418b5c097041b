------------------------------ MODULE HnswFormat ------------------------------
(***************************************************************************)
(* The two files of a dump, byte by byte, for the format versions 2, 3, 4.  *)
(*                                                                          *)
(* An index is a record                                                     *)
(*   [M, scale (8 bytes), efc (8 bytes), nbp, dim, dist, tname (bytes),     *)
(*    layers, ep, esize]                                                    *)
(* layers is a sequence (layer l is layers[l+1]) of sequences (the point of *)
(* rank r is layers[l+1][r+1]) of [id (8 bytes), data (bytes), nb], nb the  *)
(* sequence of the lists by layer (missing ones are empty) of               *)
(* [id, l, r, d (4 bytes)]; ep = [id, l, r].                                *)
(* Numbers wider than the integers of TLC are sequences of bytes, the       *)
(* lowest first.  NL: number of layers (16).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

CONSTANT NL

LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>
LE8(n) == LE4(n) \o <<0, 0, 0, 0>>

MarkDescr(v) == CASE v = 2 -> <<127, 103, 42, 0>> [] v = 3 -> <<113, 103, 42, 0>> [] v = 4 -> <<121, 103, 42, 0>>
MarkLayer == <<111, 103, 10, 0>>
MarkPoint == <<143, 103, 10, 0>>
MarkData  == <<0, 0, 127, 166>>

Name(s) == LE8(Len(s)) \o s

DescrBytes(ix, v) ==
    MarkDescr(v) \o <<1, ix.M>> \o (IF v >= 4 THEN ix.scale ELSE <<>>) \o <<NL>> \o ix.efc \o LE8(ix.nbp) \o LE8(ix.dim)
      \o Name(ix.dist) \o Name(ix.tname)

NbBytes(n) == n.id \o <<n.l>> \o LE4(n.r) \o n.d
ListBytes(v) == LE8(Len(v)) \o FlattenSeq([j \in 1..Len(v) |-> NbBytes(v[j])])
ListOf(p, l) == IF l <= Len(p.nb) THEN p.nb[l] ELSE <<>>
PointBytes(p, l, r) == MarkPoint \o p.id \o <<l>> \o LE4(r) \o FlattenSeq([k \in 1..NL |-> ListBytes(ListOf(p, k))])
LayerBytes(pts, l) == MarkLayer \o LE8(Len(pts)) \o FlattenSeq([r \in 1..Len(pts) |-> PointBytes(pts[r], l, r - 1)])
EntryBytes(ep) == ep.id \o <<ep.l>> \o LE4(ep.r)

GraphBytes(ix, v) ==
    DescrBytes(ix, v) \o <<Len(ix.layers)>> \o FlattenSeq([l \in 1..Len(ix.layers) |-> LayerBytes(ix.layers[l], l - 1)]) \o EntryBytes(ix.ep)

\* version 2 writes vectors with their number of elements in front
VectorBytes(p, v, esize) == IF v = 2 THEN LE8(8 + Len(p.data)) \o LE8(Len(p.data) \div esize) \o p.data ELSE LE8(Len(p.data)) \o p.data
RecordBytes(p, v, esize) == MarkData \o p.id \o VectorBytes(p, v, esize)
AllPoints(ix) == FlattenSeq(ix.layers)
DataHeader(ix) == MarkData \o LE8(ix.dim)
DataBytes(ix, v) == LET P == AllPoints(ix) IN DataHeader(ix) \o FlattenSeq([j \in 1..Len(P) |-> RecordBytes(P[j], v, ix.esize)])

\* lengths, without writing the bytes
PointLen(p) == 17 + 8 * NL + 17 * FoldSeq(LAMBDA v, a : a + Len(v), 0, p.nb)
LayerLen(pts) == 12 + FoldSeq(LAMBDA p, a : a + PointLen(p), 0, pts)
DescrLen(ix, v) == 31 + (IF v >= 4 THEN 8 ELSE 0) + 16 + Len(ix.dist) + Len(ix.tname)
RecordLen(p, v) == 20 + Len(p.data) + (IF v = 2 THEN 8 ELSE 0)
Sum(n, f(_)) == FoldSeq(LAMBDA j, a : a + f(j), 0, [j \in 1..n |-> j])

LayerAt(ix, v, l) == DescrLen(ix, v) + 1 + Sum(l - 1, LAMBDA j : LayerLen(ix.layers[j]))
PointAt(ix, v, l, r) == LayerAt(ix, v, l) + 12 + Sum(r - 1, LAMBDA j : PointLen(ix.layers[l][j]))
\* offsets of the marks
GraphMarks(ix, v) == {0} \cup {LayerAt(ix, v, l) : l \in 1..Len(ix.layers)}
                         \cup UNION {{PointAt(ix, v, l, r) : r \in 1..Len(ix.layers[l])} : l \in 1..Len(ix.layers)}
\* offsets in the data file after the header and after each record
Boundaries(ix, v) == LET P == AllPoints(ix) IN {12 + Sum(n, LAMBDA j : RecordLen(P[j], v)) : n \in 0..Len(P)}
DataMarks(ix, v) == LET P == AllPoints(ix) IN {0} \cup {12 + Sum(n - 1, LAMBDA j : RecordLen(P[j], v)) : n \in 1..Len(P)}

-------------------------------------------------------------------------------
(* The reader. *)
Bad == [ok |-> FALSE]
Good(x, at) == [ok |-> TRUE, v |-> x, at |-> at]
\* n bytes at position at (from 1)
Take(b, at, n) == IF at + n - 1 > Len(b) THEN Bad ELSE Good(SubSeq(b, at, at + n - 1), at + n)
ToInt(s) == s[1] + 256 * s[2] + 65536 * s[3] + 16777216 * s[4]

\* repetition: one(b, at) reads one item
RECURSIVE Times(_, _, _, _, _)
Times(b, at, n, one(_, _), acc) ==
    IF n = 0 THEN Good(acc, at)
    ELSE LET x == one(b, at) IN IF ~x.ok THEN Bad ELSE Times(b, x.at, n - 1, one, Append(acc, x.v))

\* a count on 8 bytes
ReadN(b, at) == LET x == Take(b, at, 8) IN IF x.ok THEN Good(ToInt(x.v), x.at) ELSE Bad
ReadName(b, at) == LET n == ReadN(b, at) IN IF n.ok THEN Take(b, n.at, n.v) ELSE Bad

ReadMark(b, at, m) == LET x == Take(b, at, 4) IN IF x.ok /\ x.v = m THEN x ELSE Bad

ReadDescr(b) ==
    LET m == Take(b, 1, 4)
        v == IF ~m.ok THEN 0 ELSE IF m.v = MarkDescr(2) THEN 2 ELSE IF m.v = MarkDescr(3) THEN 3 ELSE IF m.v = MarkDescr(4) THEN 4 ELSE 0
        k == IF v = 4 THEN 8 ELSE 0
        f == Take(b, 5, 2 + k + 1 + 24)
    IN IF v = 0 \/ ~f.ok THEN Bad
       ELSE LET di == ReadName(b, f.at)
                tn == IF di.ok THEN ReadName(b, di.at) ELSE Bad
            IN IF ~tn.ok THEN Bad
               ELSE Good([ver |-> v, mode |-> f.v[1], M |-> f.v[2], scale |-> SubSeq(f.v, 3, 2 + k), nl |-> f.v[3 + k],
                          efc |-> SubSeq(f.v, 4 + k, 11 + k), nbp |-> ToInt(SubSeq(f.v, 12 + k, 19 + k)),
                          dim |-> ToInt(SubSeq(f.v, 20 + k, 27 + k)), dist |-> di.v, tname |-> tn.v], tn.at)

ReadNb(b, at) == LET x == Take(b, at, 17) IN
    IF x.ok THEN Good([id |-> SubSeq(x.v, 1, 8), l |-> x.v[9], r |-> ToInt(SubSeq(x.v, 10, 13)), d |-> SubSeq(x.v, 14, 17)], x.at) ELSE Bad
ReadList(b, at) == LET n == ReadN(b, at) IN IF n.ok THEN Times(b, n.at, n.v, ReadNb, <<>>) ELSE Bad
ReadPoint(b, at) ==
    LET m == ReadMark(b, at, MarkPoint)
        h == IF m.ok THEN Take(b, m.at, 13) ELSE Bad
        n == IF h.ok THEN Times(b, h.at, NL, ReadList, <<>>) ELSE Bad
    IN IF n.ok THEN Good([id |-> SubSeq(h.v, 1, 8), l |-> h.v[9], r |-> ToInt(SubSeq(h.v, 10, 13)), nb |-> n.v], n.at) ELSE Bad
ReadLayer(b, at) ==
    LET m == ReadMark(b, at, MarkLayer)
        n == IF m.ok THEN ReadN(b, m.at) ELSE Bad
    IN IF n.ok THEN Times(b, n.at, n.v, ReadPoint, <<>>) ELSE Bad
ReadEntry(b, at) == LET x == Take(b, at, 13) IN
    IF x.ok THEN Good([id |-> SubSeq(x.v, 1, 8), l |-> x.v[9], r |-> ToInt(SubSeq(x.v, 10, 13))], x.at) ELSE Bad

ReadVector(b, at, v) ==
    LET n == ReadN(b, at)
        x == IF n.ok THEN Take(b, n.at, n.v) ELSE Bad
    IN IF ~x.ok THEN Bad ELSE IF v = 2 THEN Good(SubSeq(x.v, 9, Len(x.v)), x.at) ELSE x
ReadRecord(b, at, v) ==
    LET m == ReadMark(b, at, MarkData)
        i == IF m.ok THEN Take(b, m.at, 8) ELSE Bad
        x == IF i.ok THEN ReadVector(b, i.at, v) ELSE Bad
    IN IF x.ok THEN Good([id |-> i.v, data |-> x.v], x.at) ELSE Bad

\* the index in a pair of files, with the version; for versions before 4 the scale is <<>>
Read(g, d) ==
    LET de == ReadDescr(g)
        nl == IF de.ok THEN Take(g, de.at, 1) ELSE Bad
        ly == IF nl.ok THEN Times(g, nl.at, nl.v[1], ReadLayer, <<>>) ELSE Bad
        ep == IF ly.ok THEN ReadEntry(g, ly.at) ELSE Bad
    IN IF ~ep.ok THEN Bad
       ELSE LET pts == FlattenSeq(ly.v)
                mk == ReadMark(d, 1, MarkData)
                dm == IF mk.ok THEN ReadN(d, mk.at) ELSE Bad
                v == de.v.ver
                rc == IF dm.ok THEN Times(d, dm.at, Len(pts), LAMBDA b, at : ReadRecord(b, at, v), <<>>) ELSE Bad
                lens == [l \in 1..Len(ly.v) |-> Len(ly.v[l])]
                before(l) == Sum(l - 1, LAMBDA j : lens[j])
            IN IF ~rc.ok THEN Bad
               ELSE IF \E j \in 1..Len(pts) : pts[j].id # rc.v[j].id THEN Bad
               ELSE IF \E l \in 1..Len(ly.v) : \E r \in 1..Len(ly.v[l]) : ly.v[l][r].l # l - 1 \/ ly.v[l][r].r # r - 1 THEN Bad
               ELSE [ok |-> TRUE, ver |-> v,
                     ix |-> [M |-> de.v.M, scale |-> de.v.scale, efc |-> de.v.efc, nbp |-> de.v.nbp, dim |-> de.v.dim, dist |-> de.v.dist,
                             tname |-> de.v.tname, ep |-> ep.v,
                             layers |-> [l \in 1..Len(ly.v) |-> [r \in 1..Len(ly.v[l]) |->
                                          [id |-> ly.v[l][r].id, data |-> rc.v[before(l) + r].data, nb |-> ly.v[l][r].nb]]]]]
==============================================================================
