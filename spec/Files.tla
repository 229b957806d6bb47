-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What whole-stream operations of the library have to deliver: sequential *)
(* reading, parallel reading, and the queries of the indexed reader.       *)
(*                                                                         *)
(* Walk(f, p) lists the frames from position p on and how the list ends.   *)
(* The queries are defined on it without reference to any history: their   *)
(* results depend on the file alone.                                       *)
(*                                                                         *)
(* ContentAt(f, fr) is what the content of a frame stands for (see Wire),  *)
(* already judged for the frame's own type: "msg" with a block m, "hdr",   *)
(* "unk" for a type that is never decoded, "bad", "any".  Size(m) is the   *)
(* number of elements of block m.  A damaged header block is "hbad", an    *)
(* unknown one "hany".                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS FrameAt(_, _), Le(_, _), ContentAt(_, _), Groups(_), IdOf(_), RefsOf(_)

\* The sequences of ss, one after the other.
Joined(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

\* Frames from p on: [frs, end] with end "end", "err" or "any".  A frame that is cut is the last.
\* (By forty frames at a time: TLC is slow in deep recursions.)
WalkStep(f, a) ==
    IF a.end # "" THEN a
    ELSE LET fr == FrameAt(f, a.p) IN
         CASE fr.k = "end" -> [a EXCEPT !.end = "end"]
           [] fr.k \in {"err", "hbig"} -> [a EXCEPT !.end = "err"]
           [] fr.k = "any" -> [a EXCEPT !.end = "any"]
           [] fr.k = "cut" -> [a EXCEPT !.frs = Append(@, fr), !.end = "end"]
           [] fr.k = "frame" -> [a EXCEPT !.frs = Append(@, fr), !.p = fr.nx]

RECURSIVE WalkFrom(_, _)
WalkFrom(f, a) ==
    IF a.end # "" THEN [frs |-> a.frs, end |-> a.end]
    ELSE WalkFrom(f, FoldLeft(LAMBDA x, n : WalkStep(f, x), a, [n \in 1..40 |-> n]))

Walk(f, p) == WalkFrom(f, [p |-> p, frs |-> <<>>, end |-> ""])

----------------------------------------------------------------------------
(* Sequential reading of a walk: [blocks, end]: the blocks delivered before it ends and whether *)
(* it ends normally ("ok"), with an error ("err"), or in an unspecified way ("any").            *)

SeqRead(f, w) ==
    LET step(a, fr) ==
          IF a.end # "ok" THEN a
          ELSE IF fr.k = "cut" THEN [a EXCEPT !.end = "err"]
          ELSE LET c == ContentAt(f, fr) IN
               CASE c.k = "msg" -> [a EXCEPT !.blocks = Append(@, c.m)]
                 [] c.k = "hdr" -> a
                 \* never decoded, but a damaged frame of unknown type may be noticed
                 [] c.k = "unk" -> IF fr.c.k \in {"bad", "odd"} THEN [a EXCEPT !.end = "any"] ELSE a
                 [] c.k \in {"bad", "big", "hbad"} -> [a EXCEPT !.end = "err"]
                 [] c.k \in {"any", "hany"} -> [a EXCEPT !.end = "any"]
        r == FoldLeft(step, [blocks |-> <<>>, end |-> "ok"], w.frs)
    IN IF r.end = "ok" /\ w.end # "end" THEN [r EXCEPT !.end = w.end] ELSE r

\* What makes reading from p on fail: the frames that are cut or do not decode, and what comes after
\* the last frame if it is not one.
Damaged(f, fr) == fr.k = "cut" \/ ContentAt(f, fr).k \in {"bad", "big", "hbad"}

Culprits(f, p, w) ==
    SelectSeq(w.frs, LAMBDA fr : Damaged(f, fr))
    \o (IF w.end # "err" THEN <<>> ELSE <<FrameAt(f, IF w.frs = <<>> THEN p ELSE w.frs[Len(w.frs)].nx)>>)

\* All blocks that decode, wherever the first error is.
AllBlocks(f, w) ==
    LET good == SelectSeq(w.frs, LAMBDA fr : fr.k = "frame" /\ ContentAt(f, fr).k = "msg")
    IN [i \in DOMAIN good |-> ContentAt(f, good[i]).m]

\* Some content about which nothing is specified may be decoded.
SomeAny(f, w) ==
    \E i \in DOMAIN w.frs : LET c == ContentAt(f, w.frs[i]) IN
        c.k = "any" \/ (c.k = "unk" /\ w.frs[i].c.k \in {"bad", "odd"})

----------------------------------------------------------------------------
(* The indexed reader.  IsData: blobs the queries have to look into.                            *)

IsData(f, fr) == ContentAt(f, fr).k \notin {"hdr", "unk", "hbad", "hany"}

\* [blocks, end] of the data blobs: end "ok", "err" (a data blob is damaged or cut, or the frame
\* list is broken), "may" (only something that is not a data blob is damaged), "any".
IndexedRead(f, w) ==
    LET step(a, fr) ==
          IF a.end \in {"err", "any"} THEN a
          ELSE LET c == ContentAt(f, fr) IN
               IF fr.k = "cut" THEN IF IsData(f, fr) THEN [a EXCEPT !.end = "err"] ELSE [a EXCEPT !.end = "may"]
               ELSE CASE c.k = "msg" -> [a EXCEPT !.blocks = Append(@, c.m)]
                      [] c.k \in {"hdr", "unk"} -> IF fr.c.k \in {"bad", "odd"} THEN [a EXCEPT !.end = "may"] ELSE a
                      [] c.k \in {"hbad", "hany"} -> [a EXCEPT !.end = "may"]
                      [] c.k \in {"bad", "big"} -> [a EXCEPT !.end = "err"]
                      [] c.k = "any" -> [a EXCEPT !.end = "any"]
        r == FoldLeft(step, [blocks |-> <<>>, end |-> "ok"], w.frs)
    IN IF w.end = "end" THEN r
       ELSE IF w.end = "err" THEN [blocks |-> <<>>, end |-> IF r.end = "any" THEN "any" ELSE "err"]
       ELSE [r EXCEPT !.end = "any"]

\* Index creation looks at headers only.
IndexResult(w) ==
    IF w.end # "end" THEN w.end
    ELSE IF w.frs # <<>> /\ w.frs[Len(w.frs)].k = "cut" THEN "may"
    ELSE "ok"

\* All nodes per group: <<plain nodes, dense nodes>> of every group of every block, in order.
NodeGroups(blocks) ==
    Joined([i \in DOMAIN blocks |->
        [j \in DOMAIN Groups(blocks[i]) |-> <<Groups(blocks[i])[j].nodes, Groups(blocks[i])[j].dense>>]])

AllWays(blocks) ==
    Joined([i \in DOMAIN blocks |->
        Joined([j \in DOMAIN Groups(blocks[i]) |-> Groups(blocks[i])[j].ways])])

\* The ways the filter accepts: those with an id in acc, or every n-th one.
Accepted(ways, acc, every) ==
    LET idx == SelectSeq([i \in DOMAIN ways |-> i],
                         LAMBDA i : IF every > 0 THEN i % every = 0 ELSE IdOf(ways[i]) \in acc)
    IN [k \in DOMAIN idx |-> ways[idx[k]]]

\* Nodes whose id is referenced by one of the ways, per group.
Deps(blocks, ways) ==
    LET ids == UNION { {RefsOf(ways[i])[j] : j \in DOMAIN RefsOf(ways[i])} : i \in DOMAIN ways }
        pick(s) == SelectSeq(s, LAMBDA x : IdOf(x) \in ids)
        gs == NodeGroups(blocks)
    IN [i \in DOMAIN gs |-> <<pick(gs[i][1]), pick(gs[i][2])>>]
=============================================================================
