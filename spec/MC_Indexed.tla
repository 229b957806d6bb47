----------------------------- MODULE MC_Indexed -----------------------------
(***************************************************************************)
(* The algorithm of the indexed reader, step by step: creating the index   *)
(* by walking over headers, caching which kinds of elements a blob has,    *)
(* and the one or two passes of the queries, with failures of the          *)
(* underlying stream at any step, panics of the caller's closures, and any *)
(* sequence of calls.  Checked                                             *)
(* against the definitions of Files, which know no history.                *)
(***************************************************************************)
EXTENDS MC_Files

CONSTANTS MaxFaults, Lengths

VARIABLES index,    \* complete list of blobs, or <<>> if there is none (yet)
          built,    \* the list under construction
          pc, i, call, out, offered, ids, res, faults, fault, hist

xvars == <<file, index, built, pc, i, call, out, offered, ids, res, faults, fault, hist>>

\* What is known about a blob: not yet looked into, or its node ids and whether it has ways.
Unseen == [seen |-> FALSE, nodes |-> {}, ways |-> FALSE]
Entry(fr) == [pos |-> fr.nx - 1, ty |-> fr.ty, cut |-> fr.k = "cut", av |-> Unseen]

Frames(c) == GroupsOf(c)
NodesIn(c) == FlattenSeq([j \in DOMAIN Frames(c) |-> Frames(c)[j].nodes \o Frames(c)[j].dense])
WaysIn(c) == FlattenSeq([j \in DOMAIN Frames(c) |-> Frames(c)[j].ways])
SetOf(s) == {s[k] : k \in DOMAIN s}
Avail(c) == [seen |-> TRUE, nodes |-> {n.id : n \in SetOf(NodesIn(c))}, ways |-> WaysIn(c) # <<>>]

Calls == [op : {"create", "nodes"}, acc : {{}}] \cup [op : {"ways"}, acc : {{}, {1}, {1, 3}, {2}}]
NoCall == [op |-> "", acc |-> {}]

XInit ==
    /\ file \in [cells : UNION {[1..n -> AllCells] : n \in Lengths}, tail : Tails]
    /\ index = <<>> /\ built = <<>> /\ pc = "idle" /\ i = 0 /\ call = NoCall
    /\ out = <<>> /\ offered = <<>> /\ ids = {} /\ res = "" /\ faults = 0 /\ fault = FALSE /\ hist = <<>>

Start ==
    /\ pc = "idle"
    /\ \E c \in Calls :
        /\ call' = c
        /\ pc' = IF index # <<>> THEN (IF c.op = "create" THEN "end" ELSE "p1") ELSE "seek0"
        /\ hist' = Append(hist, [op |-> c.op, acc |-> c.acc, fault |-> 0, bomb |-> 0, fbomb |-> 0])
    /\ i' = 1 /\ out' = <<>> /\ offered' = <<>> /\ ids' = {} /\ res' = "ok" /\ fault' = FALSE
    /\ UNCHANGED <<file, index, built, faults>>

Fail == pc' = "idle" /\ res' = "err"

\* The stream fails during the step under way.
IOFault ==
    /\ pc \in {"seek0", "walk", "p1", "p2"} /\ faults < MaxFaults
    /\ faults' = faults + 1 /\ fault' = TRUE
    /\ hist' = [hist EXCEPT ![Len(hist)].fault = 1 + i + (IF pc = "p2" THEN 10 ELSE 0)]
    /\ Fail
    /\ UNCHANGED <<file, index, built, i, call, out, offered, ids>>

Seek0 ==
    /\ pc = "seek0"
    /\ built' = <<>> /\ i' = 0 /\ pc' = "walk"
    /\ UNCHANGED <<file, index, call, out, offered, ids, res, faults, fault, hist>>

WalkStep ==
    /\ pc = "walk"
    /\ LET fr == At(file, i) IN
       \/ /\ fr.k = "end"
          /\ index' = built /\ i' = 1
          /\ pc' = IF call.op = "create" THEN "end" ELSE "p1"
          /\ UNCHANGED <<built, res>>
       \/ /\ fr.k \in {"err", "cut"}
          /\ Fail /\ UNCHANGED <<index, built, i>>
       \/ /\ fr.k \in {"frame", "cut"}
          /\ built' = Append(built, [Entry(fr) EXCEPT !.pos = i]) /\ i' = fr.nx
          /\ UNCHANGED <<index, pc, res>>
    /\ UNCHANGED <<file, call, out, offered, ids, faults, fault, hist>>

\* Reading blob b of the index succeeds with this cell, or not.
Readable(b) == ~b.cut /\ At(file, b.pos).cell \in DataCells

FirstPass ==
    /\ pc = "p1"
    /\ IF i > Len(index)
       THEN /\ pc' = IF call.op = "ways" THEN "p2" ELSE "end"
            /\ i' = 1
            /\ UNCHANGED <<index, out, offered, ids, res>>
       ELSE LET b == index[i]
                skip == b.ty # "D"
                        \/ (b.av.seen /\ (IF call.op = "nodes" THEN b.av.nodes = {} ELSE ~b.av.ways))
            IN IF skip THEN i' = i + 1 /\ UNCHANGED <<index, out, offered, ids, res, pc>>
               ELSE IF ~Readable(b) THEN Fail /\ UNCHANGED <<index, out, offered, ids, i>>
               ELSE LET c == At(file, b.pos).cell
                        got == SelectSeq(WaysIn(c), LAMBDA x : x.id \in call.acc)
                    IN /\ index' = IF b.av.seen THEN index ELSE [index EXCEPT ![i].av = Avail(c)]
                       /\ i' = i + 1
                       /\ IF call.op = "nodes"
                          THEN out' = out \o NodesIn(c) /\ UNCHANGED <<offered, ids>>
                          ELSE /\ offered' = offered \o WaysIn(c)
                               /\ out' = out \o got
                               /\ ids' = ids \cup UNION {SetOf(x.refs) : x \in SetOf(got)}
                       /\ UNCHANGED <<res, pc>>
    /\ UNCHANGED <<file, built, call, faults, fault, hist>>

\* A closure of the caller panics: in its k-th call for blob i (the element callback, or for a way
\* the filter).  What was learned about the blob before stays.
FirstPassBomb ==
    /\ pc = "p1" /\ i <= Len(index) /\ faults < MaxFaults
    /\ LET b == index[i]
           skip == b.ty # "D"
                   \/ (b.av.seen /\ (IF call.op = "nodes" THEN b.av.nodes = {} ELSE ~b.av.ways))
           c == At(file, b.pos).cell
           ways == WaysIn(c)
           accepted(s) == SelectSeq(s, LAMBDA x : x.id \in call.acc)
       IN /\ ~skip /\ Readable(b)
          /\ index' = IF b.av.seen THEN index ELSE [index EXCEPT ![i].av = Avail(c)]
          /\ \/ /\ call.op = "nodes"
                /\ \E k \in DOMAIN NodesIn(c) :
                    /\ out' = out \o SubSeq(NodesIn(c), 1, k)
                    /\ hist' = [hist EXCEPT ![Len(hist)].bomb = Len(out')]
                /\ UNCHANGED <<offered, ids>>
             \/ /\ call.op = "ways"
                /\ \E k \in DOMAIN ways : \E inFilter \in BOOLEAN :
                    LET before == SubSeq(ways, 1, IF inFilter THEN k - 1 ELSE k) IN
                    /\ inFilter \/ ways[k].id \in call.acc
                    /\ offered' = offered \o SubSeq(ways, 1, k)
                    /\ out' = out \o accepted(before)
                    /\ ids' = ids \cup UNION {SetOf(x.refs) : x \in SetOf(accepted(before))}
                    /\ hist' = IF inFilter THEN [hist EXCEPT ![Len(hist)].fbomb = Len(offered')]
                               ELSE [hist EXCEPT ![Len(hist)].bomb = Len(out')]
    /\ pc' = "idle" /\ res' = "bomb" /\ faults' = faults + 1
    /\ UNCHANGED <<file, built, i, call, fault>>

InRange(ns) == ns # {} /\ \E n \in ids : (\E a \in ns : a <= n) /\ (\E b \in ns : n <= b)

SecondPass ==
    /\ pc = "p2"
    /\ IF i > Len(index) THEN pc' = "end" /\ UNCHANGED <<i, out, res>>
       ELSE LET b == index[i] IN
            IF ~b.av.seen \/ ~InRange(b.av.nodes) THEN i' = i + 1 /\ UNCHANGED <<out, res, pc>>
            ELSE IF ~Readable(b) THEN Fail /\ UNCHANGED <<out, i>>
            ELSE /\ out' = out \o SelectSeq(NodesIn(At(file, b.pos).cell), LAMBDA x : x.id \in ids)
                 /\ i' = i + 1 /\ UNCHANGED <<res, pc>>
    /\ UNCHANGED <<file, index, built, call, offered, ids, faults, fault, hist>>

SecondPassBomb ==
    /\ pc = "p2" /\ i <= Len(index) /\ faults < MaxFaults
    /\ LET b == index[i] IN
       /\ b.av.seen /\ InRange(b.av.nodes) /\ Readable(b)
       /\ LET mine == SelectSeq(NodesIn(At(file, b.pos).cell), LAMBDA x : x.id \in ids) IN
          \E k \in DOMAIN mine :
             /\ out' = out \o SubSeq(mine, 1, k)
             /\ hist' = [hist EXCEPT ![Len(hist)].bomb = Len(out')]
    /\ pc' = "idle" /\ res' = "bomb" /\ faults' = faults + 1
    /\ UNCHANGED <<file, index, built, i, call, offered, ids, fault>>

Finish ==
    /\ pc = "end"
    /\ pc' = "idle"
    /\ UNCHANGED <<file, index, built, i, call, out, offered, ids, res, faults, fault, hist>>

XNext == Start \/ IOFault \/ Seek0 \/ WalkStep \/ FirstPass \/ SecondPass \/ Finish
         \/ FirstPassBomb \/ SecondPassBomb
XSpec == XInit /\ [][XNext]_xvars /\ WF_xvars(Seek0 \/ WalkStep \/ FirstPass \/ SecondPass \/ Finish)

XView == <<file, index, built, pc, i, call, out, offered, ids, res, faults, fault>>

----------------------------------------------------------------------------
(* Properties *)

Flat(gs) == FlattenSeq([k \in DOMAIN gs |-> gs[k][1] \o gs[k][2]])
IdealNodes == Flat(F!NodeGroups(idx.blocks))
IdealWays(acc) == LET got == F!Accepted(F!AllWays(idx.blocks), acc, 0) IN got \o Flat(F!Deps(idx.blocks, got))
Ideal == IF call.op = "nodes" THEN IdealNodes ELSE IF call.op = "ways" THEN IdealWays(call.acc) ELSE <<>>

Finished == pc = "idle" /\ call.op # ""

\* C20: an Ok result is the result of a fresh reader on the whole file (C18, C19 by Files).
ResultOk == Finished /\ res = "ok" =>
    /\ ~fault
    /\ call.op # "create" => idx.end # "err" /\ out = Ideal
    /\ call.op = "ways" => offered = F!AllWays(idx.blocks)
\* What is delivered before an error or a panic is a first part of the result.
PartOk == call.op \in {"nodes", "ways"} /\ idx.end # "err" => IsPrefix(out, Ideal)
\* A file without damage and a stream that works: the call succeeds, whatever came before.
WorksOk == Finished /\ ~fault /\ Intact => res # "err"
\* C05, C23: damage and failures surface
SurfaceOk == Finished =>
    /\ fault => res = "err"
    /\ (call.op # "create" /\ idx.end = "err") => res # "ok"
\* The index is complete or absent.
IndexOk == index # <<>> => Len(index) = Len(w.frs) /\ w.end = "end"
\* What is cached about a blob is true.
CacheOk == \A k \in DOMAIN index : index[k].av.seen => index[k].av = Avail(At(file, index[k].pos).cell)

\* C06, C21: every call ends.
Terminates == [](pc # "idle" => <>(pc = "idle"))

EmitCalls == (Emit /\ pc # "idle" /\ pc' = "idle") =>
    PrintT(<<"PLAN", ToJson([cells |-> file.cells, tail |-> file.tail, calls |-> hist'])>>)
=============================================================================
