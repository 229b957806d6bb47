------------------------------ MODULE ParProof ------------------------------
(***************************************************************************)
(* Why the conditions of Par are the right ones, for any number of tokens  *)
(* and elements: with the history of every token written along (con: which *)
(* of the map calls so far are in a token), the live tokens always share   *)
(* out the map calls, so that the token returned contains all of them,     *)
(* each once.  Proved with TLAPS.                                          *)
(***************************************************************************)
EXTENDS Par, SequenceTheorems, TLAPS

CONSTANTS Tok, El
VARIABLE con    \* token -> numbers of the map calls it is made of

pvars == <<pf, pdone, con>>

Init == PInit /\ con = [t \in Tok |-> {}]

Map == \E t \in Tok, e \in El :
    /\ PMap(t, e)
    /\ con' = [con EXCEPT ![t] = {Len(pf.elems) + 1}]
Ident == \E t \in Tok : PIdent(t) /\ con' = [con EXCEPT ![t] = {}]
Reduce == \E x, y, t \in Tok :
    /\ PReduce(x, y, t)
    /\ con' = [con EXCEPT ![t] = con[x] \cup con[y]]
Return == \E t \in Tok, all \in Seq(El) : PResultOk(t, all) /\ UNCHANGED con

Next == Map \/ Ident \/ Reduce \/ Return
Spec == Init /\ [][Next]_pvars

TypeOK ==
    /\ pf \in [live : SUBSET Tok, pure : SUBSET Tok, elems : Seq(El)]
    /\ pdone \in BOOLEAN
    /\ con \in [Tok -> SUBSET (1..Len(pf.elems))]
\* Every map call so far is in exactly one live token.
Shared ==
    /\ \A k \in 1..Len(pf.elems) : \E t \in pf.live : k \in con[t]
    /\ \A t, u \in pf.live : t # u => con[t] \cap con[u] = {}
PureOk == pf.pure \subseteq pf.live /\ \A t \in pf.pure : con[t] = {}
Inv == TypeOK /\ Shared /\ PureOk

THEOREM InitInv == Init => Inv
  BY DEF Init, PInit, Inv, TypeOK, Shared, PureOk

LEMMA MapInv == Inv /\ Map => Inv'
<1> SUFFICES ASSUME Inv, NEW t \in Tok, NEW e \in El, PMap(t, e),
                    con' = [con EXCEPT ![t] = {Len(pf.elems) + 1}]
             PROVE Inv'
  BY DEF Map
<1> DEFINE n == Len(pf.elems)
<1>1. pf.elems \in Seq(El) /\ n \in Nat
  BY DEF Inv, TypeOK
<1>2. /\ pf'.elems = Append(pf.elems, e) /\ pf'.live = pf.live \cup {t} /\ pf'.pure = pf.pure
      /\ pf' = [live |-> pf.live \cup {t}, pure |-> pf.pure, elems |-> Append(pf.elems, e)]
      /\ pdone' = pdone /\ t \notin pf.live
  BY DEF PMap, Inv, TypeOK
<1>3. Len(pf'.elems) = n + 1 /\ pf'.elems \in Seq(El)
  BY <1>1, <1>2, AppendProperties
<1>4. TypeOK'
  BY <1>1, <1>2, <1>3 DEF Inv, TypeOK
<1>5. \A u \in Tok : con'[u] = IF u = t THEN {n + 1} ELSE con[u]
  BY DEF Inv, TypeOK
<1>6. Shared'
  <2>1. ASSUME NEW k \in 1..(n + 1) PROVE \E u \in pf'.live : k \in con'[u]
    <3>1. CASE k = n + 1
      BY <3>1, <1>2, <1>5
    <3>2. CASE k \in 1..n
      <4>1. PICK u \in pf.live : k \in con[u]
        BY <3>2 DEF Inv, Shared
      <4> QED BY <4>1, <1>2, <1>5 DEF Inv, TypeOK
    <3> QED BY <3>1, <3>2, <1>1
  <2>2. ASSUME NEW u \in pf'.live, NEW v \in pf'.live, u # v PROVE con'[u] \cap con'[v] = {}
    <3>1. u \in Tok /\ v \in Tok
      BY <1>2 DEF Inv, TypeOK
    <3>2. \A w \in Tok : n + 1 \notin con[w]
      BY <1>1 DEF Inv, TypeOK
    <3>3. \A w \in pf.live, z \in pf.live : w # z => con[w] \cap con[z] = {}
      BY DEF Inv, Shared
    <3>4. CASE u = t
      <4>1. v # t /\ con'[u] = {n + 1} /\ con'[v] = con[v]
        BY <2>2, <3>1, <3>4, <1>5
      <4> QED BY <4>1, <3>1, <3>2
    <3>5. CASE v = t
      <4>1. u # t /\ con'[v] = {n + 1} /\ con'[u] = con[u]
        BY <2>2, <3>1, <3>5, <1>5
      <4> QED BY <4>1, <3>1, <3>2
    <3>6. CASE u # t /\ v # t
      BY <2>2, <3>1, <3>3, <3>6, <1>2, <1>5
    <3> QED BY <3>4, <3>5, <3>6
  <2> QED BY <2>1, <2>2, <1>3 DEF Shared
<1>7. PureOk'
  BY <1>2, <1>5 DEF Inv, PureOk, TypeOK
<1> QED BY <1>4, <1>6, <1>7 DEF Inv

LEMMA IdentInv == Inv /\ Ident => Inv'
<1> SUFFICES ASSUME Inv, NEW t \in Tok, PIdent(t), con' = [con EXCEPT ![t] = {}]
             PROVE Inv'
  BY DEF Ident
<1>1. /\ pf'.elems = pf.elems /\ pf'.live = pf.live \cup {t} /\ pf'.pure = pf.pure \cup {t}
      /\ pf' = [live |-> pf.live \cup {t}, pure |-> pf.pure \cup {t}, elems |-> pf.elems]
      /\ pdone' = pdone /\ t \notin pf.live
  BY DEF PIdent, Inv, TypeOK
<1>2. \A u \in Tok : con'[u] = IF u = t THEN {} ELSE con[u]
  BY DEF Inv, TypeOK
<1>3. TypeOK'
  BY <1>1 DEF Inv, TypeOK
<1>4. Shared'
  BY <1>1, <1>2 DEF Inv, Shared, TypeOK
<1>5. PureOk'
  BY <1>1, <1>2 DEF Inv, PureOk, TypeOK
<1> QED BY <1>3, <1>4, <1>5 DEF Inv

LEMMA ReduceInv == Inv /\ Reduce => Inv'
<1> SUFFICES ASSUME Inv, NEW x \in Tok, NEW y \in Tok, NEW t \in Tok, PReduce(x, y, t),
                    con' = [con EXCEPT ![t] = con[x] \cup con[y]]
             PROVE Inv'
  BY DEF Reduce
<1>1. /\ pf'.elems = pf.elems /\ pf'.live = (pf.live \ {x, y}) \cup {t}
      /\ pf'.pure = IF x \in pf.pure /\ y \in pf.pure THEN (pf.pure \ {x, y}) \cup {t} ELSE pf.pure \ {x, y, t}
      /\ pf' = [live |-> pf'.live, pure |-> pf'.pure, elems |-> pf.elems]
      /\ pdone' = pdone /\ x # y /\ x \in pf.live /\ y \in pf.live /\ t \notin (pf.live \ {x, y})
  BY DEF PReduce, Inv, TypeOK
<1>2. \A u \in Tok : con'[u] = IF u = t THEN con[x] \cup con[y] ELSE con[u]
  BY DEF Inv, TypeOK
<1>3. TypeOK'
  <2>1. pf'.live \in SUBSET Tok /\ pf'.pure \in SUBSET Tok
    BY <1>1 DEF Inv, TypeOK
  <2> QED BY <2>1, <1>1 DEF Inv, TypeOK
<1>4. Shared'
  <2>1. ASSUME NEW k \in 1..Len(pf'.elems) PROVE \E u \in pf'.live : k \in con'[u]
    <3>1. PICK u \in pf.live : k \in con[u]
      BY <1>1 DEF Inv, Shared
    <3>2. CASE u \in {x, y}
      BY <3>1, <3>2, <1>1, <1>2
    <3>3. CASE u \notin {x, y}
      BY <3>1, <3>3, <1>1, <1>2 DEF Inv, TypeOK
    <3> QED BY <3>2, <3>3
  <2>2. ASSUME NEW u \in pf'.live, NEW v \in pf'.live, u # v PROVE con'[u] \cap con'[v] = {}
    <3>1. /\ u \in Tok /\ v \in Tok
          /\ \A w \in pf.live, z \in pf.live : w # z => con[w] \cap con[z] = {}
      BY <1>1 DEF Inv, Shared, TypeOK
    <3>2. CASE u = t
      <4>1. v # t /\ v \in pf.live /\ v # x /\ v # y
        BY <2>2, <3>2, <1>1
      <4>2. con[x] \cap con[v] = {} /\ con[y] \cap con[v] = {}
        BY <4>1, <3>1, <1>1
      <4> QED BY <4>1, <4>2, <3>1, <3>2, <1>2
    <3>3. CASE v = t
      <4>1. u # t /\ u \in pf.live /\ u # x /\ u # y
        BY <2>2, <3>3, <1>1
      <4>2. con[x] \cap con[u] = {} /\ con[y] \cap con[u] = {}
        BY <4>1, <3>1, <1>1
      <4> QED BY <4>1, <4>2, <3>1, <3>3, <1>2
    <3>4. CASE u # t /\ v # t
      BY <2>2, <3>1, <3>4, <1>1, <1>2
    <3> QED BY <3>2, <3>3, <3>4
  <2> QED BY <2>1, <2>2 DEF Shared
<1>5. PureOk'
  BY <1>1, <1>2 DEF Inv, PureOk, TypeOK
<1> QED BY <1>3, <1>4, <1>5 DEF Inv

LEMMA ReturnInv == Inv /\ Return => Inv'
  BY DEF Return, PResultOk, Inv, TypeOK, Shared, PureOk

LEMMA StutterInv == Inv /\ UNCHANGED pvars => Inv'
  BY DEF pvars, Inv, TypeOK, Shared, PureOk

THEOREM Safe == Spec => []Inv
  BY InitInv, MapInv, IdentInv, ReduceInv, ReturnInv, StutterInv, PTL DEF Spec, Next

\* The token returned consists of all map calls (and these are the elements of the file, each as
\* often as it is there: SameBag), each once (Shared).
THEOREM Whole ==
    ASSUME Inv, NEW t \in Tok, NEW all \in Seq(El), PResultOk(t, all)
    PROVE con[t] = 1..Len(pf.elems) /\ SameBag(pf.elems, all)
<1>1. \A u \in pf.live : u # t => con[u] = {}
  BY DEF PResultOk, Inv, PureOk
<1> QED BY <1>1 DEF PResultOk, Inv, Shared, TypeOK
=============================================================================
