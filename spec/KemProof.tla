------------------------------ MODULE KemProof ------------------------------
(***************************************************************************)
(* The history properties of KemSystem for histories of any length, any number *)
(* of keys and generators (proved with TLAPS; bin/prove).  What remains are    *)
(* facts about single calls, assumed here by name: they are checked of the     *)
(* terms by KemModel and KemDeep and of the code by conformance.               *)
(***************************************************************************)
EXTENDS KemSystem, TLAPS

\* one exchange: whatever is sealed to a generated key is opened by it
ASSUME Exchange ==
  \A a, x, y : Open(a, KeyPair(a, x).dk, Seal(a, KeyPair(a, x).ek, y).ct) = Seal(a, KeyPair(a, x).ek, y).ss
\* a generated private key holds its public key
ASSUME Holds == \A a, x : PublicOf(a, KeyPair(a, x).dk) = KeyPair(a, x).ek
\* one call's secret, obtained another way
ASSUME Binding ==
  \A a, ek, x, dk, ct :
    (Open(a, dk, ct) = Seal(a, ek, x).ss /\ ~Degenerate(a, Seal(a, ek, x).ss)) =>
      SameShare(a, ct, Seal(a, ek, x).ct) /\ SameShare(a, PublicOf(a, dk), ek)
ASSUME Separate ==
  \A a, dk, c1, c2 : (Open(a, dk, c1) = Open(a, dk, c2) /\ ~Degenerate(a, Open(a, dk, c1))) => SameShare(a, c1, c2)

\* the definitions of module TLC (the prover does not expand them)
ASSUME Single == \A d, e : (d :> e) = [x \in {d} |-> e]
ASSUME Over == \A f, g : (f @@ g) = [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

\* a draw starts where the last one ended and ends within the limit
Generators == [data : Seq(0..255), pos : Nat, limit : Nat, after : Nat, failed : Nat]
ASSUME Draws ==
  \A a : \A g \in Generators :
    /\ TakeGen(a, g).ok => TakeGen(a, g).pos \in Nat /\ TakeGen(a, g).pos >= g.pos /\ TakeGen(a, g).pos <= g.limit
    /\ TakeEnc(a, g).ok => TakeEnc(a, g).pos \in Nat /\ TakeEnc(a, g).pos >= g.pos /\ TakeEnc(a, g).pos <= g.limit

\* any call whatever, with results under handles that are not in use
New(h) == h \notin DOMAIN store
Next ==
  \/ \E r : \E g \in Generators : r \notin DOMAIN rng /\ g.pos <= g.limit /\ NewRng(r, g)
  \/ \E D, E, a : \E r \in DOMAIN rng : New(D) /\ New(E) /\ Generate(D, E, a, r)
  \/ \E D, E, a, x : New(D) /\ New(E) /\ GenerateFrom(D, E, a, x)
  \/ \E a : \E r \in DOMAIN rng, pos \in Nat : GenerateFails(a, r, pos)
  \/ \E S, C, E : \E r \in DOMAIN rng : New(S) /\ New(C) /\ Encaps(S, C, E, r)
  \/ \E S, C, E, x : New(S) /\ New(C) /\ EncapsFrom(S, C, E, x)
  \/ \E E : \E r \in DOMAIN rng, pos \in Nat : EncapsFails(E, r, pos)
  \/ \E S, D, C : New(S) /\ Decaps(S, D, C)
  \/ \E kind, h, a, b : New(h) /\ Load(kind, h, a, b)
  \/ \E kind, a, b : LoadRejected(kind, a, b)
  \/ \E E, D : New(E) /\ TakePublic(E, D)
  \/ \E h2, h : New(h2) /\ Clone(h2, h)
  \/ \E h : Drop(h)
Spec == SysInit /\ [][Next]_sysvars

Records ==
  /\ \A p \in made : p.dk = KeyPair(p.alg, p.x).dk /\ p.ek = KeyPair(p.alg, p.x).ek
  /\ \A s \in sealed : s = [alg |-> s.alg, ek |-> s.ek, x |-> s.x, ct |-> Seal(s.alg, s.ek, s.x).ct, ss |-> Seal(s.alg, s.ek, s.x).ss]
  /\ \A o \in opened : o.ss = Open(o.alg, o.dk, o.ct)

LEMMA RecordsInit == SysInit => Records
BY DEF SysInit, Records

LEMMA RecordsStep == Records /\ [Next]_sysvars => Records'
<1> SUFFICES ASSUME Records, [Next]_sysvars PROVE Records'
  OBVIOUS
<1>1. ASSUME NEW D, NEW E, NEW a, NEW x, KeepPair(D, E, a, x) PROVE Records'
  BY <1>1 DEF Records, KeepPair
<1>2. ASSUME NEW S, NEW C, NEW E, NEW x, KeepSealed(S, C, E, x) PROVE Records'
  BY <1>2 DEF Records, KeepSealed
<1>3. ASSUME NEW S, NEW D, NEW C, Decaps(S, D, C) PROVE Records'
  BY <1>3 DEF Records, Decaps
<1>4. ASSUME UNCHANGED <<made, sealed, opened>> PROVE Records'
  BY <1>4 DEF Records
<1> QED
  BY <1>1, <1>2, <1>3, <1>4 DEF Next, sysvars, NewRng, Generate, GenerateFrom, GenerateFails, Failing, Encaps, EncapsFrom, EncapsFails, Load, LoadRejected, TakePublic, Clone, Drop

THEOREM AlwaysRecords == Spec => []Records
BY RecordsInit, RecordsStep, PTL DEF Spec

LEMMA Calls == Records => Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ PublicInside
<1> SUFFICES ASSUME Records PROVE Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ PublicInside
  OBVIOUS
<1>1. Agreement
  BY Exchange DEF Records, Agreement
<1>2. NoOtherWay
  BY Binding DEF Records, NoOtherWay
<1>3. OneSecretPerCiphertext
  BY Separate DEF Records, OneSecretPerCiphertext
<1>4. Functional
  <2>1. \A o1, o2 \in opened : (o1.alg = o2.alg /\ o1.dk = o2.dk /\ o1.ct = o2.ct) => o1.ss = o2.ss
    BY DEF Records
  <2>2. \A s1, s2 \in sealed : (s1.alg = s2.alg /\ s1.ek = s2.ek /\ s1.x = s2.x) => s1 = s2
    <3> TAKE s1, s2 \in sealed
    <3> HAVE s1.alg = s2.alg /\ s1.ek = s2.ek /\ s1.x = s2.x
    <3>1. s1 = [alg |-> s1.alg, ek |-> s1.ek, x |-> s1.x, ct |-> Seal(s1.alg, s1.ek, s1.x).ct, ss |-> Seal(s1.alg, s1.ek, s1.x).ss]
      BY DEF Records
    <3>2. s2 = [alg |-> s2.alg, ek |-> s2.ek, x |-> s2.x, ct |-> Seal(s2.alg, s2.ek, s2.x).ct, ss |-> Seal(s2.alg, s2.ek, s2.x).ss]
      BY DEF Records
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2 DEF Functional
<1>5. PublicInside
  BY Holds DEF Records, PublicInside
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5

THEOREM History == Spec => [](Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ PublicInside)
BY AlwaysRecords, Calls, PTL

-----------------------------------------------------------------------------
(* Values never change; generators move forward; a failure leaves nothing *)

Types ==
  /\ rng \in [DOMAIN rng -> Generators]
  /\ \A r \in DOMAIN rng : rng[r].pos <= rng[r].limit

LEMMA TypesInit == SysInit => Types
BY DEF SysInit, Types

LEMMA AdvanceFacts ==
  ASSUME NEW r \in DOMAIN rng, Types, NEW p \in Nat, p >= rng[r].pos, p <= rng[r].limit,
         rng' = [rng EXCEPT ![r].pos = p]
  PROVE  /\ rng' \in [DOMAIN rng -> Generators]
         /\ DOMAIN rng' = DOMAIN rng
         /\ \A q \in DOMAIN rng : rng'[q].pos >= rng[q].pos /\ rng'[q].pos <= rng'[q].limit /\ rng'[q].failed = rng[q].failed
BY DEF Types, Generators

LEMMA FailingFacts ==
  ASSUME NEW r \in DOMAIN rng, Types, NEW p \in Nat, Failing(r, p)
  PROVE  /\ rng' \in [DOMAIN rng -> Generators]
         /\ DOMAIN rng' = DOMAIN rng
         /\ \A q \in DOMAIN rng : rng'[q].pos >= rng[q].pos /\ rng'[q].pos <= rng'[q].limit
         /\ UNCHANGED <<store, made, sealed, opened>>
BY DEF Types, Generators, Failing

\* what each call does to the generators
Moves ==
  \/ UNCHANGED rng
  \/ \E r \in DOMAIN rng, p \in Nat : p >= rng[r].pos /\ p <= rng[r].limit /\ rng' = [rng EXCEPT ![r].pos = p]
  \/ \E r \in DOMAIN rng, p \in Nat : Failing(r, p)
  \/ \E r : \E g \in Generators : r \notin DOMAIN rng /\ g.pos <= g.limit /\ NewRng(r, g)

LEMMA EveryCallMoves == Types /\ [Next]_sysvars => Moves
<1> SUFFICES ASSUME Types, [Next]_sysvars PROVE Moves
  OBVIOUS
<1> DEFINE G(r, p) == r \in DOMAIN rng /\ p \in Nat /\ p >= rng[r].pos /\ p <= rng[r].limit /\ rng' = [rng EXCEPT ![r].pos = p]
<1>1. ASSUME NEW D, NEW E, NEW a, NEW r \in DOMAIN rng, Generate(D, E, a, r) PROVE Moves
  <2>1. rng[r] \in Generators BY DEF Types
  <2>2. G(r, TakeGen(a, rng[r]).pos) BY <1>1, <2>1, Draws DEF Generate
  <2> QED BY <2>2 DEF Moves
<1>2. ASSUME NEW S, NEW C, NEW E, NEW r \in DOMAIN rng, Encaps(S, C, E, r) PROVE Moves
  <2>1. rng[r] \in Generators BY DEF Types
  <2>2. G(r, TakeEnc(store[E].alg, rng[r]).pos) BY <1>2, <2>1, Draws DEF Encaps
  <2> QED BY <2>2 DEF Moves
<1>3. ASSUME NEW a, NEW r \in DOMAIN rng, NEW p \in Nat, GenerateFails(a, r, p) PROVE Moves
  BY <1>3 DEF Moves, GenerateFails
<1>4. ASSUME NEW E, NEW r \in DOMAIN rng, NEW p \in Nat, EncapsFails(E, r, p) PROVE Moves
  BY <1>4 DEF Moves, EncapsFails
<1>5. ASSUME NEW r, NEW g \in Generators, r \notin DOMAIN rng, g.pos <= g.limit, NewRng(r, g) PROVE Moves
  BY <1>5 DEF Moves
<1>6. ASSUME UNCHANGED rng PROVE Moves
  BY <1>6 DEF Moves
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6
  DEF Next, sysvars, GenerateFrom, EncapsFrom, Decaps, Load, LoadRejected, TakePublic, Clone, Drop

Kept == \A h \in DOMAIN store \cap DOMAIN store' : store'[h] = store[h]

LEMMA Overlay ==
  ASSUME NEW f, NEW g
  PROVE  /\ DOMAIN (f @@ g) = DOMAIN f \cup DOMAIN g
         /\ \A x \in DOMAIN f : (f @@ g)[x] = f[x]
         /\ \A x \in DOMAIN g \ DOMAIN f : (f @@ g)[x] = g[x]
<1>1. (f @@ g) = [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
  BY Over
<1> QED BY <1>1

LEMMA Point ==
  ASSUME NEW h, NEW o
  PROVE  DOMAIN (h :> o) = {h} /\ (h :> o)[h] = o
<1>1. (h :> o) = [x \in {h} |-> o]
  BY Single
<1> QED BY <1>1

LEMMA OneMore ==
  ASSUME NEW h, New(h), NEW o, store' = (h :> o) @@ store
  PROVE Kept
<1>1. DOMAIN (h :> o) = {h}
  BY Point
<1>2. \A x \in DOMAIN store \ DOMAIN (h :> o) : ((h :> o) @@ store)[x] = store[x]
  BY Overlay
<1> QED BY <1>1, <1>2 DEF New, Kept

LEMMA TwoMore ==
  ASSUME NEW h, New(h), NEW k, New(k), NEW o, NEW p, store' = (h :> o) @@ (k :> p) @@ store
  PROVE Kept
<1> DEFINE m == (h :> o) @@ (k :> p)
<1>1. DOMAIN (h :> o) = {h} /\ DOMAIN (k :> p) = {k}
  BY Point
<1>2. DOMAIN m = {h} \cup {k}
  BY <1>1, Overlay
<1>3. store' = m @@ store
  OBVIOUS
<1> HIDE DEF m
<1>4. \A x \in DOMAIN store \ DOMAIN m : (m @@ store)[x] = store[x]
  BY Overlay
<1> QED BY <1>2, <1>3, <1>4 DEF New, Kept

LEMMA EveryCallKeeps == Types /\ [Next]_sysvars => Kept
<1> SUFFICES ASSUME Types, [Next]_sysvars PROVE Kept
  OBVIOUS
<1>1. ASSUME NEW D, NEW E, New(D), New(E), NEW a, NEW x, KeepPair(D, E, a, x) PROVE Kept
  BY <1>1, TwoMore DEF KeepPair
<1>2. ASSUME NEW S, NEW C, New(S), New(C), NEW E, NEW x, KeepSealed(S, C, E, x) PROVE Kept
  BY <1>2, TwoMore DEF KeepSealed
<1>3. ASSUME NEW S, New(S), NEW D, NEW C, Decaps(S, D, C) PROVE Kept
  BY <1>3, OneMore DEF Decaps
<1>4. ASSUME NEW kind, NEW h, New(h), NEW a, NEW b, Load(kind, h, a, b) PROVE Kept
  BY <1>4, OneMore DEF Load
<1>5. ASSUME NEW E, New(E), NEW D, TakePublic(E, D) PROVE Kept
  BY <1>5, OneMore DEF TakePublic
<1>6. ASSUME NEW h2, New(h2), NEW h, Clone(h2, h) PROVE Kept
  BY <1>6, OneMore DEF Clone
<1>7. ASSUME NEW h, Drop(h) PROVE Kept
  BY <1>7 DEF Drop, Kept
<1>8. ASSUME UNCHANGED store PROVE Kept
  BY <1>8 DEF Kept, Types
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8
  DEF Next, sysvars, NewRng, Generate, GenerateFrom, GenerateFails, Failing, Encaps, EncapsFrom, EncapsFails, LoadRejected

LEMMA MovesTypes ==
  Types /\ Moves =>
    /\ rng' \in [DOMAIN rng' -> Generators]
    /\ \A q \in DOMAIN rng' : rng'[q].pos <= rng'[q].limit
    /\ \A q \in DOMAIN rng \cap DOMAIN rng' : rng'[q].pos >= rng[q].pos
<1> SUFFICES ASSUME Types, Moves PROVE
    /\ rng' \in [DOMAIN rng' -> Generators]
    /\ \A q \in DOMAIN rng' : rng'[q].pos <= rng'[q].limit
    /\ \A q \in DOMAIN rng \cap DOMAIN rng' : rng'[q].pos >= rng[q].pos
  OBVIOUS
<1>1. CASE UNCHANGED rng
  BY <1>1 DEF Types, Generators
<1>2. CASE \E r \in DOMAIN rng, p \in Nat : p >= rng[r].pos /\ p <= rng[r].limit /\ rng' = [rng EXCEPT ![r].pos = p]
  BY <1>2, AdvanceFacts
<1>3. CASE \E r \in DOMAIN rng, p \in Nat : Failing(r, p)
  BY <1>3, FailingFacts
<1>4. CASE \E r : \E g \in Generators : r \notin DOMAIN rng /\ g.pos <= g.limit /\ NewRng(r, g)
  <2> PICK r, g : g \in Generators /\ r \notin DOMAIN rng /\ g.pos <= g.limit /\ NewRng(r, g)
    BY <1>4
  <2>1. rng' = (r :> g) @@ rng
    BY DEF NewRng
  <2>2. DOMAIN (r :> g) = {r} /\ (r :> g)[r] = g
    BY Point
  <2>3. DOMAIN rng' = {r} \cup DOMAIN rng /\ rng'[r] = g /\ \A q \in DOMAIN rng \ {r} : rng'[q] = rng[q]
    BY <2>1, <2>2, Overlay
  <2>4. rng' = [q \in DOMAIN rng' |-> rng'[q]]
    <3>1. ((r :> g) @@ rng) = [x \in DOMAIN (r :> g) \cup DOMAIN rng |-> IF x \in DOMAIN (r :> g) THEN (r :> g)[x] ELSE rng[x]]
      BY Over
    <3> QED BY <3>1, <2>1
  <2>5. \A q \in DOMAIN rng' : rng'[q] \in Generators /\ rng'[q].pos <= rng'[q].limit
    BY <2>3 DEF Types
  <2>6. \A q \in DOMAIN rng \cap DOMAIN rng' : rng'[q] = rng[q] /\ rng[q] \in Generators
    BY <2>3 DEF Types
  <2> QED BY <2>4, <2>5, <2>6 DEF Generators
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Moves

LEMMA TypesStep == Types /\ [Next]_sysvars => Types'
BY EveryCallMoves, EveryCallKeeps, MovesTypes DEF Types, Kept

THEOREM AlwaysTypes == Spec => []Types
BY TypesInit, TypesStep, PTL DEF Spec

Keep == \A h \in DOMAIN store \cap DOMAIN store' : store'[h] = store[h]
Onward == \A r \in DOMAIN rng \cap DOMAIN rng' : (rng'[r].data = rng[r].data) => rng'[r].pos >= rng[r].pos /\ rng'[r].pos <= rng'[r].limit
Nothing == (\E r \in DOMAIN rng \cap DOMAIN rng' : rng'[r].failed > rng[r].failed) => UNCHANGED <<store, sealed, made, opened>>

LEMMA StepKeep == Types /\ [Next]_sysvars => [Keep]_store
BY EveryCallKeeps DEF Kept, Keep

LEMMA StepOnward == Types /\ [Next]_sysvars => [Onward]_rng
BY EveryCallMoves, MovesTypes DEF Onward

LEMMA StepNothing == Types /\ [Next]_sysvars => [Nothing]_sysvars
<1> SUFFICES ASSUME Types, [Next]_sysvars, NEW r \in DOMAIN rng \cap DOMAIN rng', rng'[r].failed > rng[r].failed
    PROVE UNCHANGED <<store, sealed, made, opened>>
  BY DEF Nothing
<1>0. rng[r] \in Generators
  BY DEF Types
<1>1. CASE UNCHANGED rng
  BY <1>0, <1>1 DEF Generators
<1>2. CASE \E q \in DOMAIN rng, p \in Nat : p >= rng[q].pos /\ p <= rng[q].limit /\ rng' = [rng EXCEPT ![q].pos = p]
  <2>1. rng'[r].failed = rng[r].failed
    BY <1>2, AdvanceFacts
  <2> QED BY <2>1, <1>0 DEF Generators
<1>3. CASE \E q \in DOMAIN rng, p \in Nat : Failing(q, p)
  BY <1>3, FailingFacts
<1>4. CASE \E q : \E g \in Generators : q \notin DOMAIN rng /\ g.pos <= g.limit /\ NewRng(q, g)
  <2> PICK q, g : g \in Generators /\ q \notin DOMAIN rng /\ NewRng(q, g)
    BY <1>4
  <2>1. rng' = (q :> g) @@ rng
    BY DEF NewRng
  <2>2. DOMAIN (q :> g) = {q}
    BY Point
  <2>3. rng'[r] = rng[r]
    BY <2>1, <2>2, Overlay
  <2> QED BY <2>3, <1>0 DEF Generators
<1> QED BY <1>1, <1>2, <1>3, <1>4, EveryCallMoves DEF Moves

THEOREM Values == Spec => Immutable
BY AlwaysTypes, StepKeep, PTL DEF Spec, Immutable, Keep

THEOREM Onwards == Spec => Forward
BY AlwaysTypes, StepOnward, PTL DEF Spec, Forward, Onward

THEOREM Failures == Spec => FailSafe
BY AlwaysTypes, StepNothing, PTL DEF Spec, FailSafe, Nothing
=============================================================================
