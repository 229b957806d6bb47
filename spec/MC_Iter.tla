------------------------------ MODULE MC_Iter -------------------------------
(***************************************************************************)
(* Exhaustive check of iterators with clones, and generation of one test   *)
(* per transition.  `items` are numbers of the list; `seen` is what an     *)
(* iterator and the ones it was cloned from have yielded so far.           *)
(***************************************************************************)
EXTENDS Iter, Sequences, TLC, Json

CONSTANTS MaxLen, Emit
Handles == {"a", "b"}

VARIABLES len, its, seen, rep, hist

vars == <<len, its, seen, rep, hist>>

None == -1
Ops == [op : {"next"}, h : Handles, n : {0}] \cup [op : {"nth", "skip"}, h : Handles, n : 0..2]
       \cup [op : {"clone", "last", "count", "len", "rest"}, h : Handles, n : {0}]

Init ==
    /\ len \in 0..MaxLen
    /\ its = [h \in Handles |-> IF h = "a" THEN 0 ELSE None]
    /\ seen = [h \in Handles |-> <<>>]
    /\ rep = [op |-> "", h |-> "a", at |-> 0, n |-> 0, before |-> 0]
    /\ hist = <<>>

Other(h) == IF h = "a" THEN "b" ELSE "a"

Result(o) ==
    LET c == its[o.h] IN
    CASE o.op = "next" -> ItNext(len, c)
      [] o.op = "nth" -> ItNth(len, c, o.n)
      [] o.op = "skip" -> ItSkip(len, c, o.n)
      [] o.op = "count" -> ItCount(len, c)
      [] o.op = "last" -> ItLast(len, c)
      [] OTHER -> ItLen(len, c)

Do(o) ==
    LET c == its[o.h]
        r == Result(o)
    IN
    /\ c # None
    /\ hist' = Append(hist, o)
    /\ IF o.op = "clone"
       THEN its' = [its EXCEPT ![Other(o.h)] = c] /\ seen' = [seen EXCEPT ![Other(o.h)] = seen[o.h]]
       ELSE /\ its' = [its EXCEPT ![o.h] = r.c]
            /\ seen' = [seen EXCEPT ![o.h] = @ \o [k \in 1..(r.c - c) |-> c + k]]
    /\ rep' = [op |-> o.op, h |-> o.h, at |-> r.at, n |-> r.n, before |-> c]
    /\ UNCHANGED len

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
View == <<len, its, seen, rep>>
EmitView == <<len, its>>

\* every item in order, each exactly once
InOrder == \A h \in Handles : its[h] # None => seen[h] = [k \in 1..its[h] |-> k]
InRange == \A h \in Handles : its[h] \in {None} \cup 0..len
\* the announced length is the number of items to come
Announced == rep.op \in {"len", "count"} => rep.n = len - rep.before
\* an operation on one iterator leaves the other alone
Independent == [][\A h \in Handles : (rep'.h = h /\ rep'.op # "clone") => its'[Other(h)] = its[Other(h)]]_vars
\* taking the item n places ahead is skipping n and taking the next
NthIsSkipNext == \A h \in Handles, n \in 0..3 : its[h] # None =>
    ItNth(len, its[h], n) = ItNext(len, ItSkip(len, its[h], n).c)
\* the last item is the one reached by taking all
LastIsEnd == \A h \in Handles : its[h] # None /\ its[h] < len =>
    ItLast(len, its[h]).at = ItNth(len, its[h], ItCount(len, its[h]).n - 1).at

EmitTests == Emit => PrintT(<<"PLAN", ToJson([len |-> len, ops |-> hist'])>>)
=============================================================================
