------------------------------- MODULE KemSym -------------------------------
(***************************************************************************)
(* KemSystem over terms, explored exhaustively up to MaxCalls calls, with an  *)
(* environment that loads anything it can build from the parts of values it   *)
(* has seen (or has made up).  Also the source of the behaviours that are      *)
(* replayed against the implementation: `hist' records the calls.             *)
(***************************************************************************)
EXTENDS KemSystem, KemTerms, Json

CONSTANTS Algs,        \* the algorithms in use
          Streams,     \* the generators: [data, limit, after] (a sequence of them)
          MaxCalls,
          Recording,   \* keep hist
          Loads        \* how many forged values

VARIABLES calls, forged, hist
vars == <<store, rng, made, sealed, opened, calls, forged, hist>>

SymUnit(a) == 1
SymAtom(s) == Atom(s[1])

Init ==
  /\ SysInit /\ calls = 0 /\ forged = 0 /\ hist = <<>>

Started == DOMAIN rng = 1..Len(Streams)
Begin ==
  /\ ~Started
  /\ rng' = [r \in 1..Len(Streams) |-> [data |-> Streams[r].data, pos |-> 0, limit |-> Streams[r].limit, after |-> Streams[r].after, failed |-> 0]]
  /\ UNCHANGED <<store, made, sealed, opened, calls, forged, hist>>

\* handles are numbered in the order they are made
Fresh1 == 2 * calls + 1
Fresh2 == 2 * calls + 2

Log(rec) == hist' = IF Recording THEN Append(hist, rec) ELSE hist
Call(rec) == Started /\ calls < MaxCalls /\ calls' = calls + 1 /\ Log(rec)

Hs(kind) == {h \in DOMAIN store : store[h].kind = kind}

DoGen == \E a \in Algs, r \in DOMAIN rng :
  /\ Call([op |-> "gen", d |-> Fresh1, e |-> Fresh2, alg |-> a, r |-> r])
  /\ Generate(Fresh1, Fresh2, a, r) \/ GenerateFails(a, r, rng[r].limit)
  /\ UNCHANGED forged
DoEnc == \E e \in Hs("ek"), r \in DOMAIN rng :
  /\ Call([op |-> "enc", s |-> Fresh1, c |-> Fresh2, e |-> e, r |-> r])
  /\ Encaps(Fresh1, Fresh2, e, r) \/ EncapsFails(e, r, rng[r].limit)
  /\ UNCHANGED forged
DoDec == \E d \in Hs("dk"), c \in Hs("ct") :
  /\ Call([op |-> "dec", s |-> Fresh1, d |-> d, c |-> c])
  /\ Decaps(Fresh1, d, c)
  /\ UNCHANGED forged
DoPub == \E d \in Hs("dk") :
  /\ store[d].alg \in TMl \union {"xwing"}
  /\ Call([op |-> "pub", e |-> Fresh1, d |-> d])
  /\ TakePublic(Fresh1, d)
  /\ UNCHANGED forged
\* export and import again
DoRecode == \E h \in DOMAIN store :
  /\ store[h].kind # "ss" /\ ~(store[h].kind = "dk" /\ store[h].alg \in TDh)
  /\ Call([op |-> "recode", h |-> Fresh1, src |-> h])
  /\ Load(store[h].kind, Fresh1, store[h].alg, EncodingOf(h))
  /\ UNCHANGED forged
DoDrop == \E h \in DOMAIN store :
  /\ Call([op |-> "drop", h |-> h])
  /\ Drop(h)
  /\ UNCHANGED forged
\* a part of one value in the place of the same part of another of its kind
Importable(h) == store[h].kind # "ss" /\ ~(store[h].kind = "dk" /\ store[h].alg \in TDh)
DoSplice == \E h1, h2 \in DOMAIN store :
  /\ h1 # h2 /\ forged < Loads
  /\ Importable(h1) /\ store[h1].kind = store[h2].kind /\ store[h1].alg = store[h2].alg
  /\ \E p \in 1..Len(store[h1].val) :
       /\ store[h1].val[p] # store[h2].val[p]
       /\ Len(store[h1].val) > 1
       /\ Call([op |-> "splice", h |-> Fresh1, h1 |-> h1, h2 |-> h2, p |-> p])
       /\ Load(store[h1].kind, Fresh1, store[h1].alg, [store[h1].val EXCEPT ![p] = store[h2].val[p]])
  /\ forged' = forged + 1
\* a part made up
DoJunk == \E h \in DOMAIN store :
  /\ forged < Loads /\ Importable(h)
  \* (a point nobody made is not made up byte by byte)
  /\ store[h].alg \notin TDh \ {"x25519"}
  /\ \E p \in 1..Len(store[h].val) :
       /\ Call([op |-> "junk", h |-> Fresh1, src |-> h, p |-> p])
       /\ Load(store[h].kind, Fresh1, store[h].alg,
               [store[h].val EXCEPT ![p] = T("junk", <<Atom(ToString(forged))>>)])
  /\ forged' = forged + 1
\* the public values of one side used as those of the other
DoCast == \E h \in Hs("ek") \union Hs("ct") :
  /\ forged < Loads /\ store[h].alg \in TDh
  /\ LET k == IF store[h].kind = "ek" THEN "ct" ELSE "ek"
     IN /\ Call([op |-> "cast", h |-> Fresh1, src |-> h, kind |-> k])
        /\ Load(k, Fresh1, store[h].alg, store[h].val)
  /\ forged' = forged + 1

\* (recording only: the end of a behaviour, reached once)
Finish ==
  /\ Recording /\ calls = MaxCalls
  /\ calls' = calls + 1
  /\ UNCHANGED <<store, rng, made, sealed, opened, forged, hist>>

Next == Begin \/ Finish \/ DoGen \/ DoEnc \/ DoDec \/ DoPub \/ DoRecode \/ DoDrop \/ DoSplice \/ DoJunk \/ DoCast
Spec == Init /\ [][Next]_vars

\* simulation: the last state of each behaviour writes the calls made
Dump == calls > MaxCalls => PrintT("BEHAVIOUR " \o ToJson(hist))

-----------------------------------------------------------------------------
\* C05: a rejection key depends on z and on every part of the ciphertext
RejectionOwnIn(op) ==
  \A o1, o2 \in op :
    (o1.alg \in TMl /\ o2.alg = o1.alg /\ o1.ss = o2.ss /\ o1.ss.f = "J") =>
       o1.dk[5] = o2.dk[5] /\ o1.ct = o2.ct
RejectionOwn == RejectionOwnIn(opened)
\* C16: the secret names every part of the exchange
Bound ==
  \A s1, s2 \in sealed : (s1.alg = "xwing" /\ s2.alg = "xwing" /\ s1.ss = s2.ss) => s1.ct = s2.ct /\ s1.ek = s2.ek
\* C20: secrets of different algorithms differ
ApartIn(op) == \A s1 \in sealed, o2 \in op : s1.alg # o2.alg => s1.ss # o2.ss
Apart == ApartIn(opened)
\* C07, C08: whatever was drawn had been delivered, and nothing was drawn twice
Delivered ==
  LET D == UNION {{Atom(rng[r].data[j]) : j \in 1..rng[r].pos} : r \in DOMAIN rng}
  IN \A s \in made \union sealed : \A i \in 1..Len(s.x) : s.x[i] \in D
DrawnOnce ==
  /\ \A s \in made \union sealed : \A i, j \in 1..Len(s.x) : i # j => s.x[i] # s.x[j]
  /\ \A s1, s2 \in made \union sealed :
       s1 # s2 => \A i \in 1..Len(s1.x), j \in 1..Len(s2.x) : s1.x[i] # s2.x[j]
\* C07: a call that makes two values (a key pair, or a ciphertext and its secret) takes from
\* one generator; no other call touches any
Randomness ==
  [][LET n == Cardinality(DOMAIN store' \ DOMAIN store)
         moved == {r \in DOMAIN rng : rng'[r] # rng[r]}
     IN Started => /\ n = 2 => Cardinality(moved) = 1 /\ \A r \in moved : rng'[r].pos > rng[r].pos
                   /\ n = 1 => moved = {}]_vars
\* Handles are only names: states that hold the same values have the same future
View == <<{store[h] : h \in DOMAIN store}, rng, made, sealed, opened, calls, forged>>
=============================================================================
