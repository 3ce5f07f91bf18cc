----------------------------- MODULE KemSystem -----------------------------
(***************************************************************************)
(* The system: what a program can do with the KEMs of this repository.      *)
(*                                                                         *)
(* A store of immutable values (private keys, public keys, ciphertexts,      *)
(* shared secrets) under handles, and random generators that deliver a       *)
(* stream of bytes, fail when their limit is reached and may recover from    *)
(* that.  One action per API call.  What the calls compute is left to constant operators, so that the  *)
(* same machine is run over a term algebra (KemSym: exhaustive checking,     *)
(* generation of behaviours) and over bytes (KemTrace: conformance).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  TakeGen(_, _),    \* (alg, generator) -> [ok, pos, x]: what key generation draws
  TakeEnc(_, _),    \* the same for encapsulation
  KeyPair(_, _),    \* (alg, x) -> [dk, ek]
  PublicOf(_, _),   \* (alg, dk) -> ek
  Seal(_, _, _),    \* (alg, ek, x) -> [ct, ss]
  Open(_, _, _),    \* (alg, dk, ct) -> ss
  Encode(_, _, _),  \* (kind, alg, value) -> bytes
  Decode(_, _, _),  \* (kind, alg, bytes) -> [ok, val]
  SameDraw(_, _, _),  \* (alg, x, y): the two draws are the same secret
  SameShare(_, _, _), \* (alg, v, w): the KEM does not tell the two public values apart
                      \* (bare Diffie-Hellman: both signs of a point; encodings of one u)
  Degenerate(_, _)    \* (alg, ss): the peer's value left nothing of the secret

VARIABLES
  store,            \* handle -> [kind, alg, val]
  rng,              \* generator -> [data, pos, limit, after, failed]: it fails when `limit' is
                    \* reached, and from then on `after' is its limit (recovered, if larger);
                    \* failed: how often it has
  made,             \* ghost: key pairs generated            [alg, dk, ek, x]
  sealed,           \* ghost: encapsulations performed       [alg, ek, x, ct, ss]
  opened            \* ghost: decapsulations performed       [alg, dk, ct, ss]

sysvars == <<store, rng, made, sealed, opened>>

Obj(kind, alg, val) == [kind |-> kind, alg |-> alg, val |-> val]

SysInit ==
  /\ store = <<>>
  /\ rng = <<>>
  /\ made = {}
  /\ sealed = {}
  /\ opened = {}

Is(h, kind) == h \in DOMAIN store /\ store[h].kind = kind

NewRng(r, g) ==
  /\ rng' = (r :> g) @@ rng
  /\ UNCHANGED <<store, made, sealed, opened>>

-----------------------------------------------------------------------------
(* Key generation *)

KeepPair(D, E, a, x) ==
  LET kp == KeyPair(a, x)
  IN /\ store' = (D :> Obj("dk", a, kp.dk)) @@ (E :> Obj("ek", a, kp.ek)) @@ store
     /\ made' = made \union {[alg |-> a, dk |-> kp.dk, ek |-> kp.ek, x |-> x]}
     /\ UNCHANGED <<sealed, opened>>

Generate(D, E, a, r) ==
  LET t == TakeGen(a, rng[r])
  IN /\ t.ok
     /\ rng' = [rng EXCEPT ![r].pos = t.pos]
     /\ KeepPair(D, E, a, t.x)

\* the caller supplies the randomness
GenerateFrom(D, E, a, x) == KeepPair(D, E, a, x) /\ UNCHANGED rng

\* a generator that cannot deliver: the call returns nothing
Failing(r, pos) ==
  /\ pos >= rng[r].pos
  /\ pos <= rng[r].after
  /\ rng' = [rng EXCEPT ![r].pos = pos, ![r].failed = rng[r].failed + 1, ![r].limit = rng[r].after]
  /\ UNCHANGED <<store, made, sealed, opened>>

GenerateFails(a, r, pos) == ~TakeGen(a, rng[r]).ok /\ Failing(r, pos)

-----------------------------------------------------------------------------
(* Encapsulation and decapsulation *)

KeepSealed(S, C, E, x) ==
  LET a == store[E].alg
      o == Seal(a, store[E].val, x)
  IN /\ store' = (S :> Obj("ss", a, o.ss)) @@ (C :> Obj("ct", a, o.ct)) @@ store
     /\ sealed' = sealed \union {[alg |-> a, ek |-> store[E].val, x |-> x, ct |-> o.ct, ss |-> o.ss]}
     /\ UNCHANGED <<made, opened>>

Encaps(S, C, E, r) ==
  LET t == TakeEnc(store[E].alg, rng[r])
  IN /\ Is(E, "ek")
     /\ t.ok
     /\ rng' = [rng EXCEPT ![r].pos = t.pos]
     /\ KeepSealed(S, C, E, t.x)

EncapsFrom(S, C, E, x) == Is(E, "ek") /\ KeepSealed(S, C, E, x) /\ UNCHANGED rng

EncapsFails(E, r, pos) == Is(E, "ek") /\ ~TakeEnc(store[E].alg, rng[r]).ok /\ Failing(r, pos)

\* decapsulation is total: any ciphertext, any private key of the algorithm
Decaps(S, D, C) ==
  /\ Is(D, "dk") /\ Is(C, "ct") /\ store[D].alg = store[C].alg
  /\ LET a == store[D].alg
         k == Open(a, store[D].val, store[C].val)
     IN /\ store' = (S :> Obj("ss", a, k)) @@ store
        /\ opened' = opened \union {[alg |-> a, dk |-> store[D].val, ct |-> store[C].val, ss |-> k]}
  /\ UNCHANGED <<rng, made, sealed>>

-----------------------------------------------------------------------------
(* Handling of values *)

\* any bytes whatever, from anywhere
Load(kind, h, a, b) ==
  LET d == Decode(kind, a, b)
  IN /\ d.ok
     /\ store' = (h :> Obj(kind, a, d.val)) @@ store
     /\ UNCHANGED <<rng, made, sealed, opened>>

LoadRejected(kind, a, b) == ~Decode(kind, a, b).ok /\ UNCHANGED sysvars

TakePublic(E, D) ==
  /\ Is(D, "dk")
  /\ store' = (E :> Obj("ek", store[D].alg, PublicOf(store[D].alg, store[D].val))) @@ store
  /\ UNCHANGED <<rng, made, sealed, opened>>

Clone(h2, h) ==
  /\ h \in DOMAIN store
  /\ store' = (h2 :> store[h]) @@ store
  /\ UNCHANGED <<rng, made, sealed, opened>>

Drop(h) ==
  /\ h \in DOMAIN store
  /\ store' = [k \in DOMAIN store \ {h} |-> store[k]]
  /\ UNCHANGED <<rng, made, sealed, opened>>

EncodingOf(h) == Encode(store[h].kind, store[h].alg, store[h].val)

-----------------------------------------------------------------------------
(* Properties *)

\* C01, C16, C18: whoever holds a generated private key opens what was sealed
\* to its public key, to the same secret
Agreement ==
  \A p \in made, s \in sealed, o \in opened :
     (p.alg = s.alg /\ s.alg = o.alg /\ s.ek = p.ek /\ o.dk = p.dk /\ o.ct = s.ct) => o.ss = s.ss

\* C05, C16, C20: no other ciphertext and no other key pair yields that secret
NoOtherWay ==
  \A s \in sealed, o \in opened :
     (s.alg = o.alg /\ o.ss = s.ss /\ ~Degenerate(s.alg, s.ss)) =>
        /\ SameShare(s.alg, o.ct, s.ct)
        /\ SameShare(s.alg, PublicOf(o.alg, o.dk), s.ek)

\* C05: each (key, ciphertext) that is rejected has a secret of its own
OneSecretPerCiphertext ==
  \A o1, o2 \in opened :
     (o1.alg = o2.alg /\ o1.dk = o2.dk /\ o1.ss = o2.ss /\ ~Degenerate(o1.alg, o1.ss))
        => SameShare(o1.alg, o1.ct, o2.ct)

\* C12: results are functions of the arguments
Functional ==
  /\ \A o1, o2 \in opened : (o1.alg = o2.alg /\ o1.dk = o2.dk /\ o1.ct = o2.ct) => o1.ss = o2.ss
  /\ \A s1, s2 \in sealed : (s1.alg = s2.alg /\ s1.ek = s2.ek /\ s1.x = s2.x) => s1 = s2

\* C07: distinct draws give distinct results
Fresh ==
  \A s1, s2 \in sealed :
     (s1.alg = s2.alg /\ s1.ek = s2.ek /\ ~SameDraw(s1.alg, s1.x, s2.x)) =>
        /\ s1.ct # s2.ct
        /\ s1.ss = s2.ss => SameShare(s1.alg, s1.ct, s2.ct) \/ Degenerate(s1.alg, s1.ss)

\* C02, C06, C15: the public key inside a generated private key is its public key
PublicInside == \A p \in made : PublicOf(p.alg, p.dk) = p.ek

\* C06, C17: encoding and decoding are inverse on every value of the store
Lossless ==
  \A h \in DOMAIN store : store[h].kind # "ss" =>
     LET d == Decode(store[h].kind, store[h].alg, EncodingOf(h)) IN d.ok /\ d.val = store[h].val

\* C12: nothing changes a value that exists
Immutable == [][\A h \in DOMAIN store \cap DOMAIN store' : store'[h] = store[h]]_store

\* C07: generators only move forward, within their limit
Forward == [][\A r \in DOMAIN rng \cap DOMAIN rng' :
                 (rng'[r].data = rng[r].data) => rng'[r].pos >= rng[r].pos /\ rng'[r].pos <= rng'[r].limit]_rng

\* C08: a call whose generator failed, for the first time or again, leaves nothing behind
FailSafe == [][(\E r \in DOMAIN rng \cap DOMAIN rng' : rng'[r].failed > rng[r].failed) => UNCHANGED <<store, sealed, made, opened>>]_sysvars
=============================================================================
