------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Arithmetic modulo a prime on naturals too big for TLC's integers.  A     *)
(* natural is a sequence of bytes, LEAST significant first, of the length    *)
(* of the modulus; operands are always < the modulus.                       *)
(*                                                                         *)
(* XDef is the definition of X.  TLC evaluates X through java/vp/Accel.java *)
(* when that is loaded; Accel.tla checks that they agree.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

BnZero(len)     == [i \in 1..len |-> 0]
BnSmall(x, len) == [i \in 1..len |-> IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256
                                     ELSE IF i = 3 THEN x \div 65536 ELSE 0]
BnBit(a, i)     == (a[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2

RECURSIVE BnGeqFrom(_, _, _)
BnGeqFrom(a, b, i) == IF i = 0 THEN TRUE
                      ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE BnGeqFrom(a, b, i - 1)
\* a >= b
BnGeq(a, b) == BnGeqFrom(a, b, Len(a))
BnIsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* sum with the carry as an extra top byte
BnAdd(a, b) ==
  LET f == FoldLeft(LAMBDA acc, i :
             LET s == a[i] + b[i] + acc[2] IN << Append(acc[1], s % 256), s \div 256 >>,
             << <<>>, 0 >>, [i \in 1..Len(a) |-> i])
  IN TLCEval(Append(f[1], f[2]))

\* a - b for a >= b
BnSub(a, b) ==
  LET f == FoldLeft(LAMBDA acc, i :
             LET s == a[i] - b[i] - acc[2] IN << Append(acc[1], s % 256), IF s < 0 THEN 1 ELSE 0 >>,
             << <<>>, 0 >>, [i \in 1..Len(a) |-> i])
  IN TLCEval(f[1])

AddModDef(a, b, p) ==
  LET s  == BnAdd(a, b)
      pp == Append(p, 0)
  IN SubSeq(IF BnGeq(s, pp) THEN BnSub(s, pp) ELSE s, 1, Len(p))

SubModDef(a, b, p) == SubSeq(IF BnGeq(a, b) THEN BnSub(a, b) ELSE BnSub(BnAdd(a, p), Append(b, 0)), 1, Len(p))

\* double-and-add over the bits of b, most significant first
MulModDef(a, b, p) ==
  LET bits == 8 * Len(b)
  IN TLCEval(FoldLeft(LAMBDA acc, t :
        LET d == AddModDef(acc, acc, p)
        IN IF BnBit(b, bits - t) = 1 THEN AddModDef(d, a, p) ELSE d,
        BnZero(Len(p)), [t \in 1..bits |-> t]))

AddMod(a, b, p) == TLCEval(AddModDef(a, b, p))
SubMod(a, b, p) == TLCEval(SubModDef(a, b, p))
MulMod(a, b, p) == TLCEval(MulModDef(a, b, p))

\* square-and-multiply over the bits of e, most significant first
PowModDef(a, e, p) ==
  LET bits == 8 * Len(e)
  IN TLCEval(FoldLeft(LAMBDA acc, t :
        LET s == MulMod(acc, acc, p)
        IN IF BnBit(e, bits - t) = 1 THEN MulMod(s, a, p) ELSE s,
        BnSmall(1, Len(p)), [t \in 1..bits |-> t]))
PowMod(a, e, p) == PowModDef(a, e, p)

\* the inverse of a # 0 modulo a prime (Fermat)
InvMod(a, p) == PowMod(a, BnSub(p, BnSmall(2, Len(p))), p)
=============================================================================
