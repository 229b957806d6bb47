--------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* Parallel map/reduce with tokens.  Every value the library handles is a  *)
(* token: mapping an element creates one, the identity creates one, a      *)
(* reduction consumes two different live tokens and creates one, and the   *)
(* result is a live token.  Nothing else may happen to a token, so the     *)
(* result is a reduction tree over the mapped elements, each exactly once, *)
(* whatever the schedule.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE pf,      \* [live: tokens, pure: tokens made only of identities, elems: mapped elements]
         pdone    \* the result was returned

PInit == pf = [live |-> {}, pure |-> {}, elems |-> <<>>] /\ pdone = FALSE

PMap(t, el) ==
    /\ ~pdone /\ t \notin pf.live
    /\ pf' = [pf EXCEPT !.live = @ \cup {t}, !.elems = Append(@, el)]
    /\ UNCHANGED pdone

PIdent(t) ==
    /\ ~pdone /\ t \notin pf.live
    /\ pf' = [pf EXCEPT !.live = @ \cup {t}, !.pure = @ \cup {t}]
    /\ UNCHANGED pdone

PReduce(x, y, t) ==
    /\ ~pdone /\ x # y /\ x \in pf.live /\ y \in pf.live /\ t \notin (pf.live \ {x, y})
    /\ pf' = [pf EXCEPT !.live = (@ \ {x, y}) \cup {t},
                        !.pure = IF x \in @ /\ y \in @ THEN (@ \ {x, y}) \cup {t} ELSE @ \ {x, y, t}]
    /\ UNCHANGED pdone

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
WithinBag(s, t) == \A i \in DOMAIN s : Count(s, s[i]) <= Count(t, s[i])
\* (Sequences without repetitions are compared as sets, which is what counts on long ones.)
SameBag(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A S \in {{s[i] : i \in DOMAIN s}} : \A T \in {{t[i] : i \in DOMAIN t}} :
        /\ S = T
        /\ Cardinality(T) # Len(t) => WithinBag(s, t)

\* The call returns token t: all elements are in it, no intermediate value got lost.
PResultOk(t, all) ==
    /\ ~pdone /\ t \in pf.live
    /\ pf.live \ {t} \subseteq pf.pure
    /\ SameBag(pf.elems, all)
    /\ pdone' = TRUE /\ UNCHANGED pf

\* The call returns an error: no element was mapped that is not there, or twice.
PResultErr(all) ==
    /\ ~pdone
    /\ WithinBag(pf.elems, all)
    /\ pdone' = TRUE /\ UNCHANGED pf
=============================================================================
