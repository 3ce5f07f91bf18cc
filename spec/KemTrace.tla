------------------------------ MODULE KemTrace ------------------------------
(***************************************************************************)
(* Conformance: executions recorded from the real code must be behaviours    *)
(* of KemSystem with the byte-level operators of KemBytes.                   *)
(*                                                                         *)
(* One initial state per recorded trace; each event must be explained by     *)
(* the action of the call it records, and every recorded result must be the  *)
(* value the action computes.  An event that nothing explains leaves the      *)
(* trace without a successor, which TLC reports as a deadlock.               *)
(***************************************************************************)
EXTENDS KemSystem, Accel, Json, IOUtils

\* (TLC takes a bound identifier for a variable of the same name, and then no longer
\* precomputes the constants that use it; these names occur nowhere else.)
VARIABLES tr, cur, mem
vars == <<store, rng, made, sealed, opened, tr, cur, mem>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev     == Traces[tr].ev
HasField(e, f) == f \in DOMAIN e

Init == SysInit /\ tr \in 1..Len(Traces) /\ cur = 1 /\ mem = {}

Gen(e) ==
  \/ /\ e.out = "ok" /\ ~HasField(e, "post") /\ e.p0 = rng[e.r].pos
     /\ Generate(e.dk, e.ek, e.alg, e.r)
     /\ Encode("dk", e.alg, store'[e.dk].val) = Bytes(e.dkb)
     /\ Encode("ek", e.alg, store'[e.ek].val) = Bytes(e.ekb)
     /\ rng'[e.r].pos = e.p1
     /\ e.failed = 0
  \/ /\ e.out # "ok" /\ e.p0 = rng[e.r].pos
     /\ GenerateFails(e.alg, e.r, e.p1)
     /\ e.failed > 0

GenDet(e) ==
  /\ e.out = "ok"
  /\ GenerateFrom(e.dk, e.ek, e.alg, Bytes(e.seed))
  /\ Encode("dk", e.alg, store'[e.dk].val) = Bytes(e.dkb)
  /\ Encode("ek", e.alg, store'[e.ek].val) = Bytes(e.ekb)

Enc(e) ==
  \/ /\ e.out = "ok" /\ e.p0 = rng[e.r].pos
     /\ Encaps(e.ss, e.ct, e.ek, e.r)
     /\ Encode("ct", e.alg, store'[e.ct].val) = Bytes(e.ctb)
     /\ store'[e.ss].val = Bytes(e.ssb)
     /\ rng'[e.r].pos = e.p1
     /\ e.failed = 0
  \/ /\ e.out # "ok" /\ e.p0 = rng[e.r].pos
     /\ EncapsFails(e.ek, e.r, e.p1)
     /\ e.failed > 0

EncDet(e) ==
  /\ e.out = "ok"
  /\ EncapsFrom(e.ss, e.ct, e.ek, Bytes(e.m))
  /\ Encode("ct", e.alg, store'[e.ct].val) = Bytes(e.ctb)
  /\ store'[e.ss].val = Bytes(e.ssb)

Dec(e) ==
  /\ e.out = "ok"
  /\ Decaps(e.ss, e.dk, e.ct)
  /\ store'[e.ss].val = Bytes(e.ssb)

Loading(e) ==
  \/ /\ e.out = "ok"
     /\ Load(e.kind, e.h, e.alg, Bytes(e.in))
     /\ Encode(e.kind, e.alg, store'[e.h].val) = Bytes(e.b)
  \/ e.out = "err" /\ LoadRejected(e.kind, e.alg, Bytes(e.in))

\* the bytes of h again: the same value
Recoding(e) == Bytes(e.in) = EncodingOf(e.src) /\ Loading(e) /\ store'[e.h].val = store[e.src].val
\* other bytes of the same value
Alias(e)  == Loading(e) /\ store'[e.h].val = store[e.src].val

Public(e) ==
  /\ e.out = "ok"
  /\ TakePublic(e.ek, e.dk)
  /\ Encode("ek", e.alg, store'[e.ek].val) = Bytes(e.ekb)

Cloning(e) ==
  /\ e.out = "ok"
  /\ Clone(e.h, e.src)
  /\ EncodingOf(e.src) = Bytes(e.b)

Equal(e) ==
  /\ e.out = "ok"
  /\ e.res = BSame(store[e.h1].kind, store[e.h1].alg, store[e.h1].val, store[e.h2].val)
  /\ UNCHANGED sysvars

Reading(e) == e.out = "ok" /\ Bytes(e.b) = EncodingOf(e.h) /\ UNCHANGED sysvars

\* C14.  The memory left behind by a private key is independent of the secret:
\* whatever has the same public part leaves the same memory.
PublicPart(o) == IF o.alg \in MlkemAlgs THEN SubSeq(o.val, 384 * ParamsOf(o.alg).k + 1, Len(o.val) - 32) ELSE <<>>
Erasing(e) ==
  LET me == [op |-> e.op, alg |-> e.alg, pub |-> PublicPart(store[e.h]), val |-> store[e.h].val,
             before |-> e.before, after |-> e.after]
  IN /\ e.out = "ok"
     /\ \A o \in mem : (o.op = me.op /\ o.alg = me.alg /\ o.pub = me.pub) => o.after = me.after
     /\ mem' = mem \union {me}
     /\ Drop(e.h)

-----------------------------------------------------------------------------
(* Sweeps: many variants of one value in one event.  pt is a list of patches  *)
(* (positions and values), each applied to the base value.                   *)

DecSweepOk(x) ==
  LET a == x[1]  dk == x[2]  ct == x[3]  pt == x[4]  ks == x[5]
      seen(t) == ks[t] # "failed"
  IN Len(ks) = Len(pt) /\
     IF a \in MlkemAlgs
     THEN LET P == ParamsOf(a)
              X == ExpandDk(P, dk)
          IN \A t \in 1..Len(pt) : seen(t) /\ Bytes(ks[t]) = DecapsWith(P, X, Patched(ct, pt[t])).K
     ELSE IF a = "xwing"
     THEN LET X  == XwExpand(dk)
              XM == ExpandDk(MLKEM768, X.dkM)
          IN \A t \in 1..Len(pt) : seen(t) /\ Bytes(ks[t]) = XwDecapsWith(X, XM, Patched(ct, pt[t]))
     ELSE \A t \in 1..Len(pt) : seen(t) /\ Bytes(ks[t]) = BOpen(a, dk, Patched(ct, pt[t]))
DecSweep(e) == Pure(DecSweepOk, <<e.alg, store[e.dk].val, store[e.ct].val, e.pt, e.ks>>)

\* C05: ct is an honest ciphertext of dk, so any change of it is rejected
RejSweepOk(x) ==
  LET a == x[1]  dk == x[2]  ct == x[3]  pt == x[4]  ks == x[5]
      P == ParamsOf(a)
  IN Len(ks) = Len(pt) /\ \A t \in 1..Len(pt) :
       LET c == Patched(ct, pt[t])
       IN /\ ks[t] # "failed"
          /\ Bytes(ks[t]) = (IF c = ct THEN BOpen(a, dk, ct) ELSE RejectionKey(P, dk, c))
RejSweep(e) ==
  /\ \E s \in sealed : s.alg = e.alg /\ s.ct = store[e.ct].val
                        /\ s.ek = PublicOf(e.alg, store[e.dk].val)
  /\ Pure(RejSweepOk, <<e.alg, store[e.dk].val, store[e.ct].val, e.pt, e.ks>>)

DkSweepOk(x) ==
  LET a == x[1]  dk == x[2]  ct == x[3]  pt == x[4]  ks == x[5]
  IN Len(ks) = Len(pt) /\ \A t \in 1..Len(pt) :
       /\ ks[t] # "failed"
       /\ Bytes(ks[t]) = BOpen(a, BDecode("dk", a, Patched(dk, pt[t])).val, ct)
DkSweep(e) == Pure(DkSweepOk, <<e.alg, store[e.dk].val, store[e.ct].val, e.pt, e.ks>>)

EncSweepOk(x) ==
  LET a == x[1]  ek == x[2]  m == x[3]  pt == x[4]  ks == x[5]  cs == x[6]
  IN Len(ks) = Len(pt) /\ Len(cs) = Len(pt) /\ \A t \in 1..Len(pt) :
       LET d == BDecode("ek", a, Patched(ek, pt[t]))
           o == BSeal(a, d.val, m)
       IN IF d.ok THEN ks[t] # "failed" /\ Bytes(ks[t]) = o.ss /\ Bytes(cs[t]) = o.ct
          ELSE ks[t] = "failed"
EncSweep(e) == Pure(EncSweepOk, <<e.alg, store[e.ek].val, Bytes(e.m), e.pt, e.ks, e.cs>>)

EqSweepOk(x) ==
  LET k == x[1]  a == x[2]  v == x[3]  pt == x[4]  rs == x[5]
  IN Len(rs) = Len(pt) /\ \A t \in 1..Len(pt) :
       LET d == BDecode(k, a, Patched(v, pt[t]))
       IN rs[t] = IF ~d.ok THEN 8 ELSE IF BSame(k, a, v, d.val) THEN 3 ELSE 0
EqSweep(e) == Pure(EqSweepOk, <<e.kind, e.alg, store[e.h].val, e.pt, e.rs>>)

LoadSweepOk(x) ==
  LET k == x[1]  a == x[2]  v == x[3]  pt == x[4]  bs == x[5]
  IN Len(bs) = Len(pt) /\ \A t \in 1..Len(pt) :
       LET d == BDecode(k, a, Patched(v, pt[t]))
       IN IF d.ok THEN bs[t] \notin {"failed", "rejected"} /\ Bytes(bs[t]) = d.val
          ELSE bs[t] = "rejected"
LoadSweep(e) == Pure(LoadSweepOk, <<e.kind, e.alg, store[e.h].val, e.pt, e.bs>>)

\* the secrets of both sides of e.cnt honest exchanges
Honest(e) ==
  /\ Len(e.ks) = e.cnt /\ Len(e.kr) = e.cnt
  /\ \A t \in 1..e.cnt : e.ks[t] = e.kr[t]

\* C12: calls repeated on many threads at once; of each job every outcome that was seen.
\* x, y: key and message, key and ciphertext, algorithm and randomness
Outcome(j) ==
  CASE j.k = "enc" -> LET o == Seal(j.alg, store[j.x].val, Bytes(j.y))
                      IN <<o.ct, o.ss, Encode("ek", j.alg, store[j.x].val)>>
    [] j.k = "dec" -> <<Open(j.alg, store[j.x].val, store[j.y].val),
                        IF j.alg \in MlkemAlgs \union {"xwing"} THEN Encode("dk", j.alg, store[j.x].val) ELSE <<>> >>
    [] j.k = "gen" -> LET o == KeyPair(j.alg, Bytes(j.y))
                      IN <<IF j.alg \in MlkemAlgs \union {"xwing"} THEN Encode("dk", j.alg, o.dk) ELSE <<>>,
                           Encode("ek", j.alg, o.ek)>>
Race(e) ==
  \A i \in 1..Len(e.jobs) :
    LET j == e.jobs[i]
    IN /\ Len(j.outs) = 1
       /\ j.outs[1] # <<"failed">>
       /\ [t \in 1..Len(j.outs[1]) |-> Bytes(j.outs[1][t])] = Outcome(j)

(* C19: each row is an operation through the wrapper and on the wrapped key *)
RowNames(a) ==
  {"ek into_inner", "ek as_ref", "ek clone", "ek copy", "ek eq", "pair ek", "dk as_ref", "dk decapsulate", "dk from", "dk into_inner"}
  \union (IF a = "x25519" THEN {"ek hash", "dk clone"} ELSE {"ek point", "ek compressed", "ek cmp", "ek ops", "ek total"})
  \union {kind_ \o name_ : kind_ \in {"encapsulator ", "decapsulator "},
                           name_ \in {"into_inner", "as_ref", "clone", "eq", "eq self", "partial_cmp", "cmp", "ops", "max", "hash",
                          "default", "copy", "copy value", "unordered", "clone_from", "drops"}}
WrapOk(x) ==
  LET a == x[1]  sk == x[2]  A == x[3]  rows == x[4]  B == x[5]
      row(name) == CHOOSE j \in 1..Len(rows) : rows[j][1] = name
      seen(name) == Bytes(rows[row(name)][2])
  IN /\ RowNames(a) \subseteq {rows[j][1] : j \in 1..Len(rows)}
     /\ \A j \in 1..Len(rows) : Len(rows[j]) = 3 /\ rows[j][2] = rows[j][3]
     /\ seen("pair ek") = BKeyPair(a, sk).ek
     /\ seen("dk decapsulate") = BOpen(a, sk, A)
     /\ seen("dk into_inner") = BOpen(a, sk, A)
     /\ seen("dk from") = BOpen(a, sk, B)
     /\ IF a = "x25519" THEN seen("ek as_ref") = A
        ELSE LET C == CurveOf(a) IN
             /\ seen("ek point") = A
             /\ seen("ek compressed") = Sec1C(C, UnSec1(C, A))
Wrapping(e) ==
  LET t == TakeGen(e.alg, rng[e.r])
  IN /\ e.out = "ok" /\ t.ok /\ e.p0 = rng[e.r].pos /\ e.p1 = t.pos
     /\ Pure(WrapOk, <<e.alg, t.x, Bytes(e.a), e.rows, Bytes(e.b)>>)
     /\ rng' = [rng EXCEPT ![e.r].pos = t.pos]
     /\ UNCHANGED <<store, made, sealed, opened>>

-----------------------------------------------------------------------------

Explains(e) ==
  CASE e.op = "rng" -> NewRng(e.r, [data |-> Bytes(e.data), pos |-> 0, limit |-> e.limit, after |-> e.after, failed |-> 0])
    [] e.op \in {"gen", "gen2"} -> Gen(e)
    [] e.op = "gendet" -> GenDet(e)
    [] e.op = "enc"    -> Enc(e)
    [] e.op = "encdet" -> EncDet(e)
    [] e.op = "dec"    -> Dec(e)
    [] e.op \in {"load", "xor", "splice", "cast"} -> Loading(e)
    [] e.op = "recode" -> Recoding(e)
    [] e.op = "alias"  -> Alias(e)
    [] e.op = "pub"    -> Public(e)
    [] e.op = "clone"  -> Cloning(e)
    [] e.op = "eq"     -> Equal(e)
    [] e.op = "bytes"  -> Reading(e)
    [] e.op = "drop"   -> Drop(e.h)
    [] e.op = "decsweep"  -> DecSweep(e) /\ UNCHANGED sysvars
    [] e.op = "rejsweep"  -> RejSweep(e) /\ UNCHANGED sysvars
    [] e.op = "dksweep"   -> DkSweep(e) /\ UNCHANGED sysvars
    [] e.op = "encsweep"  -> EncSweep(e) /\ UNCHANGED sysvars
    [] e.op = "eqsweep"   -> EqSweep(e) /\ UNCHANGED sysvars
    [] e.op = "loadsweep" -> LoadSweep(e) /\ UNCHANGED sysvars
    [] e.op = "honest"    -> Honest(e) /\ UNCHANGED sysvars
    [] e.op = "race"      -> Race(e) /\ UNCHANGED sysvars
    [] e.op = "wrap"      -> Wrapping(e)
    [] OTHER -> FALSE

Step ==
  /\ cur <= Len(Ev)
  /\ cur' = cur + 1
  /\ UNCHANGED tr
  /\ IF Ev[cur].op \in {"scan", "wipe"} THEN Erasing(Ev[cur]) ELSE Explains(Ev[cur]) /\ UNCHANGED mem

Accepted_ == cur > Len(Ev)
Done == Accepted_ /\ UNCHANGED vars

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

\* The system's properties on the recorded values, once a trace is complete
AtEnd == Accepted_ => Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ Fresh

Where == [trace |-> Traces[tr].id, event |-> cur,
          line |-> IF cur <= Len(Ev) THEN Ev[cur].n ELSE 0,
          op |-> IF cur <= Len(Ev) THEN Ev[cur].op ELSE "end"]
View == <<tr, cur>>
=============================================================================
