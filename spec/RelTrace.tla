------------------------------ MODULE RelTrace ------------------------------
(***************************************************************************)
(* Relational conformance: executions recorded from the real code must be     *)
(* behaviours of KemSystem over terms, under one bijection between terms and   *)
(* byte strings.  Two values that the model builds in the same way must have   *)
(* the same bytes, and values it builds differently must have different bytes. *)
(* No cryptographic function is computed here.                                *)
(*                                                                         *)
(* Strings of hexadecimal digits stand for bytes; positions count digits.     *)
(***************************************************************************)
EXTENDS KemSystem, KemTerms, Json, IOUtils

VARIABLES tr, cur, name     \* name: the pairs <<hex, term>> seen so far
vars == <<store, rng, made, sealed, opened, tr, cur, name>>

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev     == Traces[tr].ev
HasField(e, f) == f \in DOMAIN e

KOf(a) == CASE a = "mlkem512" -> 2 [] a \in {"mlkem768", "xwing"} -> 3 [] a = "mlkem1024" -> 4
Digits(a) == CASE a = "p384" -> 96 [] a = "p521" -> 132 [] OTHER -> 64
HexAtom(s) == Atom(s)

\* lengths of the parts of an encoding
Lens(kind, a) ==
  CASE a \in TMl /\ kind = "dk" -> <<768 * KOf(a), 768 * KOf(a), 64, 64, 64>>
    [] a \in TMl /\ kind = "ek" -> <<768 * KOf(a), 64>>
    [] a \in TMl /\ kind = "ct" -> IF a = "mlkem1024" THEN <<2816, 320>> ELSE <<640 * KOf(a), 256>>
    [] a = "xwing" /\ kind = "dk" -> <<64>>
    [] a = "xwing" /\ kind = "ek" -> <<2304, 64, 64>>
    [] a = "xwing" /\ kind = "ct" -> <<1920, 256, 64>>
    [] a \in TDh -> <<IF a = "x25519" THEN 64 ELSE 2 * Digits(a) + 2>>

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
\* the parts of a string of digits
Cut(kind, a, b) ==
  LET ls == Lens(kind, a)
  IN [i \in 1..Len(ls) |-> SubSeq(b, SumTo(ls, i - 1) + 1, SumTo(ls, i))]
RightSize(kind, a, b) == Len(b) = SumTo(Lens(kind, a), Len(Lens(kind, a)))

Pairs(kind, a, v, b) == LET c == Cut(kind, a, b) IN {<<c[i], v[i]>> : i \in 1..Len(c)}
\* does the set of pairs extend the bijection?
Consistent(ps) == \A x \in ps, y \in name \union ps : (x[1] = y[1]) = (x[2] = y[2])
Names(ps) == Consistent(ps) /\ name' = name \union ps

\* the value that bytes stand for: known parts by name, others are made up
Meaning(kind, a, b) ==
  LET c == Cut(kind, a, b)
  IN [i \in 1..Len(c) |->
        IF \E p \in name : p[1] = c[i] THEN (CHOOSE p \in name : p[1] = c[i])[2] ELSE T("junk", <<Atom(c[i])>>)]

Init == SysInit /\ tr \in 1..Len(Traces) /\ cur = 1 /\ name = {}

Same == UNCHANGED name

Gen(e) ==
  \/ /\ e.out = "ok"
     /\ Generate(e.dk, e.ek, e.alg, e.r)
     /\ rng'[e.r].pos = 2 * e.p1
     /\ Names(Pairs("ek", e.alg, store'[e.ek].val, e.ekb)
              \union (IF e.alg \in TDh THEN {} ELSE Pairs("dk", e.alg, store'[e.dk].val, e.dkb)))
  \/ /\ e.out # "ok"
     /\ GenerateFails(e.alg, e.r, 2 * e.p1) /\ e.failed > 0
     /\ Same

Enc(e) ==
  \/ /\ e.out = "ok"
     /\ Encaps(e.ss, e.ct, e.ek, e.r)
     /\ rng'[e.r].pos = 2 * e.p1
     /\ Names(Pairs("ct", e.alg, store'[e.ct].val, e.ctb) \union {<<e.ssb, store'[e.ss].val>>})
  \/ /\ e.out # "ok"
     /\ EncapsFails(e.ek, e.r, 2 * e.p1) /\ e.failed > 0
     /\ Same

Dec(e) ==
  /\ e.out = "ok"
  /\ Decaps(e.ss, e.dk, e.ct)
  /\ Names({<<e.ssb, store'[e.ss].val>>})

\* imports: what comes out again is what the bytes mean (made-up coefficients may come out
\* reduced, so the meaning is that of the re-exported bytes, known parts unchanged)
Loading(e) ==
  /\ e.out = "ok"
  /\ RightSize(e.kind, e.alg, e.in)
  /\ LET cin == Cut(e.kind, e.alg, e.in)
         cout == Cut(e.kind, e.alg, e.b)
     IN \A i \in 1..Len(cin) : (\E p \in name : p[1] = cin[i]) => cout[i] = cin[i]
  /\ Load(e.kind, e.h, e.alg, Meaning(e.kind, e.alg, e.b))
  /\ Names(Pairs(e.kind, e.alg, store'[e.h].val, e.b))

Recoding(e) == Loading(e) /\ store'[e.h].val = store[e.src].val

Public(e) ==
  /\ e.out = "ok"
  /\ TakePublic(e.ek, e.dk)
  /\ Names(Pairs("ek", e.alg, store'[e.ek].val, e.ekb))

Explains(e) ==
  CASE e.op = "rng" -> NewRng(e.r, [data |-> e.data, pos |-> 0, limit |-> 2 * e.limit, after |-> 2 * e.after, failed |-> 0]) /\ Same
    [] e.op \in {"gen", "gen2"} -> Gen(e)
    [] e.op = "enc"    -> Enc(e)
    [] e.op = "dec"    -> Dec(e)
    [] e.op \in {"load", "xor", "splice", "cast"} -> Loading(e)
    [] e.op = "recode" -> Recoding(e)
    [] e.op = "pub"    -> Public(e)
    [] e.op = "clone"  -> e.out = "ok" /\ Clone(e.h, e.src) /\ Same
    [] e.op = "eq"     -> e.out = "ok" /\ (e.res \in BOOLEAN) /\ e.res = (store[e.h1].val = store[e.h2].val) /\ UNCHANGED sysvars /\ Same
    [] e.op = "drop"   -> Drop(e.h) /\ Same
    [] OTHER -> FALSE

Step ==
  /\ cur <= Len(Ev)
  /\ Explains(Ev[cur])
  /\ cur' = cur + 1
  /\ UNCHANGED tr
Accepted_ == cur > Len(Ev)
Done == Accepted_ /\ UNCHANGED vars
Next == Step \/ Done

AtEnd == Accepted_ => Agreement /\ NoOtherWay /\ OneSecretPerCiphertext /\ Functional /\ Fresh /\ PublicInside

Where == [trace |-> Traces[tr].id, event |-> cur,
          line |-> IF cur <= Len(Ev) THEN Ev[cur].n ELSE 0,
          op |-> IF cur <= Len(Ev) THEN Ev[cur].op ELSE "end"]
View == <<tr, cur>>
=============================================================================
