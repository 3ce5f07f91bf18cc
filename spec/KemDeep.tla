------------------------------- MODULE KemDeep -------------------------------
(***************************************************************************)
(* KemSym further out.  Decapsulation takes nothing away and makes nothing    *)
(* that other calls use, so whatever a history can open it can open last:     *)
(* here nothing is ever opened, and in every state every private key there is *)
(* is taken to have opened every ciphertext there is.  Dropping, recoding and *)
(* cloning lead to no new values and are left out as well.                    *)
(***************************************************************************)
EXTENDS KemModel

Openings ==
  {[alg |-> store[q[1]].alg, dk |-> store[q[1]].val, ct |-> store[q[2]].val,
    ss |-> Open(store[q[1]].alg, store[q[1]].val, store[q[2]].val)]
   : q \in {p \in Hs("dk") \X Hs("ct") : store[p[1]].alg = store[p[2]].alg}}

All == INSTANCE KemSystem WITH opened <- Openings
DAgreement == All!Agreement
DNoOtherWay == All!NoOtherWay
DOneSecret == All!OneSecretPerCiphertext
DRejectionOwn == RejectionOwnIn(Openings)
DApart == ApartIn(Openings)
\* C05, C16: a ciphertext nobody made, or made for another key, opens to a secret nobody has
DForeign ==
  \A o \in Openings :
    (\A s \in sealed : s.alg = o.alg => s.ct # o.ct) => \A s \in sealed : s.alg = o.alg /\ s.ss = o.ss => SameShare(o.alg, s.ct, o.ct)

DeepNext == Begin \/ DoGen \/ DoEnc \/ DoPub \/ DoSplice \/ DoJunk \/ DoCast
DeepView == <<{store[h] : h \in {k \in DOMAIN store : store[k].kind # "ss"}}, rng, made, sealed, forged>>
=============================================================================
