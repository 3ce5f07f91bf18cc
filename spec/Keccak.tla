------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Executable definition of the FIPS 202 functions that ML-KEM and X-Wing  *)
(* are built on: KECCAK-f[1600], SHA3-256, SHA3-512, SHAKE128, SHAKE256.    *)
(*                                                                         *)
(* TLC integers are 32-bit, so a 64-bit lane is four 16-bit limbs, little   *)
(* end first: the state is a function on 0..99 where index 20*y + 4*x + l   *)
(* is limb l of lane (x, y).  Byte strings are sequences over 0..255.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC, SequencesExt

LOCAL Limb == 65536

\* rho rotation offsets, indexed by lane number x + 5*y  (FIPS 202, 3.2.2)
LOCAL RhoOffset == <<  0,  1, 62, 28, 27,
                      36, 44,  6, 55, 20,
                       3, 10, 43, 25, 39,
                      41, 45, 15, 21,  8,
                      18,  2, 61, 56, 14 >>

\* iota round constants as four limbs, least significant first (FIPS 202, 3.2.5)
LOCAL RC == <<
  <<1, 0, 0, 0>>,          <<32898, 0, 0, 0>>,      <<32906, 0, 0, 32768>>,
  <<32768, 32768, 0, 32768>>, <<32907, 0, 0, 0>>,   <<1, 32768, 0, 0>>,
  <<32897, 32768, 0, 32768>>, <<32777, 0, 0, 32768>>, <<138, 0, 0, 0>>,
  <<136, 0, 0, 0>>,        <<32777, 32768, 0, 0>>,  <<10, 32768, 0, 0>>,
  <<32907, 32768, 0, 0>>,  <<139, 0, 0, 32768>>,    <<32905, 0, 0, 32768>>,
  <<32771, 0, 0, 32768>>,  <<32770, 0, 0, 32768>>,  <<128, 0, 0, 32768>>,
  <<32778, 0, 0, 0>>,      <<10, 32768, 0, 32768>>, <<32897, 32768, 0, 32768>>,
  <<32896, 0, 0, 32768>>,  <<1, 32768, 0, 0>>,      <<32776, 32768, 0, 32768>> >>

\* theta: column parity index tables
LOCAL DPrev  == [k \in 0..19 |-> (((k \div 4) + 4) % 5) * 4 + (k % 4)]
LOCAL DNext  == [k \in 0..19 |-> (((k \div 4) + 1) % 5) * 4 + (k % 4)]
LOCAL DNextC == [k \in 0..19 |-> (((k \div 4) + 1) % 5) * 4 + ((k + 3) % 4)]

\* rho and pi together.  Lane (x,y) of the result is lane ((x+3y)%5, x) of
\* the input (FIPS 202, 3.2.3), rotated left by that lane's offset.
LOCAL PiSrc == [lane \in 0..24 |->
                  LET x == lane % 5  y == lane \div 5
                  IN ((x + 3 * y) % 5) + 5 * x]
LOCAL RotOf(lane) == RhoOffset[PiSrc[lane] + 1]
LOCAL BHi  == [k \in 0..99 |-> LET lane == k \div 4  l == k % 4 IN
                 4 * PiSrc[lane] + ((l + 8 - (RotOf(lane) \div 16)) % 4)]
LOCAL BLo  == [k \in 0..99 |-> LET lane == k \div 4  l == k % 4 IN
                 4 * PiSrc[lane] + ((l + 7 - (RotOf(lane) \div 16)) % 4)]
LOCAL BMul == [k \in 0..99 |-> 2 ^ (RotOf(k \div 4) % 16)]
LOCAL BDiv == [k \in 0..99 |-> 2 ^ (16 - (RotOf(k \div 4) % 16))]

\* chi: the two neighbours in the same plane
LOCAL X1 == [k \in 0..99 |-> (k \div 20) * 20 + (((k % 20) + 4) % 20)]
LOCAL X2 == [k \in 0..99 |-> (k \div 20) * 20 + (((k % 20) + 8) % 20)]

Round(S, rc) ==
  LET C == TLCEval([k \in 0..19 |-> (((S[k] ^^ S[k+20]) ^^ S[k+40]) ^^ S[k+60]) ^^ S[k+80]])
      D == TLCEval([k \in 0..19 |->
              C[DPrev[k]] ^^ (((C[DNext[k]] * 2) % Limb) + (C[DNextC[k]] \div 32768))])
      T == TLCEval([k \in 0..99 |-> S[k] ^^ D[k % 20]])
      B == TLCEval([k \in 0..99 |-> ((T[BHi[k]] * BMul[k]) % Limb) + (T[BLo[k]] \div BDiv[k])])
      X == TLCEval([k \in 0..99 |-> B[k] ^^ ((65535 - B[X1[k]]) & B[X2[k]])])
  IN [X EXCEPT ![0] = @ ^^ rc[1], ![1] = @ ^^ rc[2], ![2] = @ ^^ rc[3], ![3] = @ ^^ rc[4]]

\* The definition.
KeccakFDef(S) == TLCEval(FoldLeft(Round, S, RC))

\* The same operator under the name the sponge uses.  TLC evaluates this one
\* through java/vp/Accel.java when that class is on its class path; the module
\* Accel checks, in every TLC run that loads it, that both agree.
KeccakF(S) == KeccakFDef(S)

-----------------------------------------------------------------------------
(* The sponge.  rate is in bytes; suffix is the domain-separation byte with  *)
(* the first padding bit (0x06 for SHA3, 0x1F for SHAKE).                    *)

LOCAL Zero == TLCEval([k \in 0..99 |-> 0])

\* message with pad10*1, always a non-zero multiple of rate long
LOCAL Pad(msg, rate, suffix) ==
  LET r == rate - (Len(msg) % rate)
  IN IF r = 1 THEN Append(msg, suffix ^^ 128)
     ELSE msg \o <<suffix>> \o [i \in 1..(r-2) |-> 0] \o <<128>>

LOCAL AbsorbBlock(S, P, off, rate) ==
  KeccakF(TLCEval([k \in 0..99 |->
     IF 2 * k < rate THEN S[k] ^^ (P[off + 2*k + 1] + 256 * P[off + 2*k + 2]) ELSE S[k]]))

Absorb(msg, rate, suffix) ==
  LET P == TLCEval(Pad(msg, rate, suffix))
      n == Len(P) \div rate
  IN FoldLeft(LAMBDA S, b: AbsorbBlock(S, P, (b-1) * rate, rate), Zero, [b \in 1..n |-> b])

BlockBytes(S, rate) == [i \in 1..rate |-> IF i % 2 = 1 THEN S[(i-1) \div 2] % 256
                                                       ELSE S[(i-1) \div 2] \div 256]

RECURSIVE SqueezeBlocks(_, _, _)
SqueezeBlocks(S, rate, n) ==
  IF n = 1 THEN BlockBytes(S, rate)
  ELSE BlockBytes(S, rate) \o SqueezeBlocks(KeccakF(S), rate, n - 1)

SpongeDef(msg, rate, suffix, outlen) ==
  TLCEval(SubSeq(SqueezeBlocks(Absorb(msg, rate, suffix), rate, (outlen + rate - 1) \div rate),
                 1, outlen))

Sponge(msg, rate, suffix, outlen) == SpongeDef(msg, rate, suffix, outlen)

SHA3_256(msg)      == Sponge(msg, 136,  6, 32)
SHA3_512(msg)      == Sponge(msg,  72,  6, 64)
SHAKE128(msg, len) == Sponge(msg, 168, 31, len)
SHAKE256(msg, len) == Sponge(msg, 136, 31, len)
=============================================================================
