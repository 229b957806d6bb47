------------------------------- MODULE MC_Par -------------------------------
(***************************************************************************)
(* The algorithm of parallel map/reduce under every schedule: workers take *)
(* blobs from a shared iterator, turn each into Ok(token) or Err by        *)
(* mapping and folding its elements one by one, and the values are reduced *)
(* pairwise, in any grouping and order, with identities added anywhere.    *)
(* Every step on tokens is a step of Par, and the value returned in the    *)
(* end satisfies its conditions (C02), for every schedule.                 *)
(*                                                                         *)
(* A file is a sequence of blobs: "U" (header or unknown type), "bad"      *)
(* (fails to read or decode), or the number of its elements.               *)
(***************************************************************************)
EXTENDS Par, TLC

CONSTANTS Workers, FilesOf, MaxIds

VARIABLES fl,       \* the file
          nextb,    \* next blob to be taken
          wk,       \* worker -> what it does
          vals,     \* values waiting to be reduced: [ok, tok] (a function from slots)
          ids,      \* identities added by the reduction
          result

mvars == <<fl, nextb, wk, vals, ids, result, pf, pdone>>

SmallFiles == UNION {[1..n -> {"U", "bad", "one", "two"}] : n \in 0..2}
LargerFiles == UNION {[1..n -> {"U", "bad", "one", "two"}] : n \in 0..3}

None == [st |-> "idle", b |-> 0, n |-> 0, acc |-> 0, cur |-> 0]
NoResult == [ok |-> FALSE, tok |-> -1]
Err == [ok |-> FALSE, tok |-> 0]

\* The elements of the file: <<blob, number>>
Elems(b) == IF fl[b] \in {"U", "bad"} THEN <<>> ELSE
            LET n == IF fl[b] = "one" THEN 1 ELSE 2 IN [k \in 1..n |-> <<b, k>>]
RECURSIVE AllFrom(_)
AllFrom(b) == IF b > Len(fl) THEN <<>> ELSE Elems(b) \o AllFrom(b + 1)
All == AllFrom(1)
AnyBad == \E b \in DOMAIN fl : fl[b] = "bad"

\* Token numbers may be used again once consumed.
Fresh == CHOOSE t \in 1..20 : t \notin pf.live /\ \A u \in 1..20 : u < t => u \in pf.live

Init ==
    /\ fl \in FilesOf
    /\ nextb = 1 /\ wk = [x \in Workers |-> None] /\ vals = {} /\ ids = 0 /\ result = NoResult
    /\ PInit

Keep == UNCHANGED <<fl, vals, ids, result>>

\* A worker takes the next blob (the iterator is behind a lock).
Take(x) ==
    /\ wk[x].st = "idle" /\ nextb <= Len(fl)
    /\ nextb' = nextb + 1
    /\ wk' = [wk EXCEPT ![x] = [None EXCEPT !.st = "got", !.b = nextb]]
    /\ UNCHANGED <<pf, pdone>> /\ Keep

\* Decoding: an error is a value; otherwise the fold starts with an identity.
Decode(x) ==
    /\ wk[x].st = "got"
    /\ IF fl[wk[x].b] = "bad"
       THEN /\ vals' = vals \cup {[Err EXCEPT !.tok = 0 - wk[x].b - 1]}
            /\ wk' = [wk EXCEPT ![x] = None]
            /\ UNCHANGED <<pf, pdone>>
       ELSE /\ PIdent(Fresh)
            /\ wk' = [wk EXCEPT ![x].st = "fold", ![x].acc = Fresh]
            /\ UNCHANGED vals
    /\ UNCHANGED <<fl, nextb, ids, result>>

MapOne(x) ==
    /\ wk[x].st = "fold" /\ wk[x].n < Len(Elems(wk[x].b))
    /\ PMap(Fresh, Elems(wk[x].b)[wk[x].n + 1])
    /\ wk' = [wk EXCEPT ![x].st = "mapped", ![x].n = @ + 1, ![x].cur = Fresh]
    /\ UNCHANGED nextb /\ Keep

FoldOne(x) ==
    /\ wk[x].st = "mapped"
    /\ PReduce(wk[x].acc, wk[x].cur, Fresh)
    /\ wk' = [wk EXCEPT ![x].st = "fold", ![x].acc = Fresh, ![x].cur = 0]
    /\ UNCHANGED nextb /\ Keep

Put(x) ==
    /\ wk[x].st = "fold" /\ wk[x].n = Len(Elems(wk[x].b))
    /\ vals' = vals \cup {[ok |-> TRUE, tok |-> wk[x].acc]}
    /\ wk' = [wk EXCEPT ![x] = None]
    /\ UNCHANGED <<fl, nextb, ids, result, pf, pdone>>

\* The reduction starts its parts with identities.
AddIdentity ==
    /\ result = NoResult /\ ids < MaxIds
    /\ PIdent(Fresh)
    /\ vals' = vals \cup {[ok |-> TRUE, tok |-> Fresh]}
    /\ ids' = ids + 1
    /\ UNCHANGED <<fl, nextb, wk, result>>

Combine ==
    /\ \E a, b \in vals : a # b /\
        \/ a.ok /\ b.ok /\ PReduce(a.tok, b.tok, Fresh)
           /\ vals' = (vals \ {a, b}) \cup {[ok |-> TRUE, tok |-> Fresh]}
        \* an error wins over a value and over a later error
        \/ ~(a.ok /\ b.ok)
           /\ vals' = (vals \ {a, b}) \cup {IF ~a.ok THEN a ELSE b}
           /\ UNCHANGED <<pf, pdone>>
    /\ UNCHANGED <<fl, nextb, wk, ids, result>>

Finish ==
    /\ result = NoResult /\ nextb > Len(fl) /\ \A x \in Workers : wk[x].st = "idle"
    /\ ids > 0 /\ Cardinality(vals) = 1
    /\ result' = CHOOSE v \in vals : TRUE
    /\ vals' = {}
    /\ UNCHANGED <<fl, nextb, wk, ids, pf, pdone>>

Return ==
    /\ result # NoResult /\ ~pdone
    /\ IF result.ok THEN PResultOk(result.tok, All) ELSE PResultErr(All)
    /\ UNCHANGED <<fl, nextb, wk, vals, ids, result>>

Work == \E x \in Workers : Take(x) \/ Decode(x) \/ MapOne(x) \/ FoldOne(x) \/ Put(x)
Next == Work \/ AddIdentity \/ Combine \/ Finish \/ Return
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Work \/ Combine \/ Finish \/ Return) /\ WF_mvars(AddIdentity)

\* The order in which elements were mapped does not matter.
View == <<fl, nextb, wk, vals, ids, result, pf.live, pf.pure, [x \in {pf.elems[k] : k \in DOMAIN pf.elems} |-> Count(pf.elems, x)], pdone>>

----------------------------------------------------------------------------
\* C02: when there is a result, it is right, so that it can be returned.
ResultRight ==
    result # NoResult =>
        /\ result.ok = ~AnyBad
        /\ (result.ok /\ ~pdone) => ENABLED Return
\* Every element at most once, at any time.
Once == WithinBag(pf.elems, All)
\* All values are reached by the reduction: nothing live is forgotten.
Held == \A t \in pf.live : pdone \/ AnyBad \/ result.tok = t
            \/ (\E x \in Workers : t \in {wk[x].acc, wk[x].cur}) \/ (\E v \in vals : v.ok /\ v.tok = t)
Terminates == <>pdone
=============================================================================
