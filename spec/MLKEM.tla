------------------------------- MODULE MLKEM -------------------------------
(***************************************************************************)
(* FIPS 203 (ML-KEM), written as TLA+ operators in the structure of the     *)
(* standard: section 4 auxiliary algorithms, section 5 K-PKE, section 6 the *)
(* internal (deterministic) ML-KEM algorithms.  A parameter set is a record  *)
(* and an argument of every operator that depends on it.                    *)
(*                                                                         *)
(* Bytes are sequences over 0..255.  A polynomial, in either domain, is a   *)
(* function on 0..255 with values in 0..q-1; a vector of polynomials is a   *)
(* function on 0..k-1.                                                      *)
(***************************************************************************)
EXTENDS Keccak

q == 3329
n == 256

MLKEM512  == [name |-> "mlkem512",  k |-> 2, eta1 |-> 3, eta2 |-> 2, du |-> 10, dv |-> 4]
MLKEM768  == [name |-> "mlkem768",  k |-> 3, eta1 |-> 2, eta2 |-> 2, du |-> 10, dv |-> 4]
MLKEM1024 == [name |-> "mlkem1024", k |-> 4, eta1 |-> 2, eta2 |-> 2, du |-> 11, dv |-> 5]

ParamsOf(alg) == CASE alg = "mlkem512"  -> MLKEM512
                   [] alg = "mlkem768"  -> MLKEM768
                   [] alg = "mlkem1024" -> MLKEM1024

EkSize(P) == 384 * P.k + 32
DkSize(P) == 768 * P.k + 96
CtSize(P) == 32 * (P.du * P.k + P.dv)

Idx    == 0..255
ZeroPoly == TLCEval([i \in Idx |-> 0])

-----------------------------------------------------------------------------
(* 4.2.1  Conversion and compression                                        *)

\* Every operator named XDef is the definition of X; TLC evaluates X through
\* java/vp/Accel.java, and Accel.tla compares the two.

\* Algorithms 3-6 of the standard, bit by bit
BytesToBits(B) == TLCEval([i \in 0..(8 * Len(B) - 1) |-> (B[(i \div 8) + 1] \div (2 ^ (i % 8))) % 2])
BitsToBytes(b, len) == TLCEval([i \in 1..len |->
     b[8*(i-1)] + 2 * b[8*(i-1)+1] + 4 * b[8*(i-1)+2] + 8 * b[8*(i-1)+3]
     + 16 * b[8*(i-1)+4] + 32 * b[8*(i-1)+5] + 64 * b[8*(i-1)+6] + 128 * b[8*(i-1)+7]])

ByteEncodeDef(d, F) ==
  BitsToBytes(TLCEval([t \in 0..(256 * d - 1) |-> (F[t \div d] \div (2 ^ (t % d))) % 2]), 32 * d)
ByteEncode(d, F) == ByteEncodeDef(d, F)

RECURSIVE SumBits(_, _, _, _)
SumBits(b, base, j, d) == IF j = d THEN 0 ELSE b[base + j] * (2 ^ j) + SumBits(b, base, j + 1, d)

ModulusOf(d) == IF d = 12 THEN q ELSE 2 ^ d

ByteDecodeDef(d, B) ==
  LET b == BytesToBits(B)
  IN TLCEval([i \in Idx |-> SumBits(b, i * d, 0, d) % ModulusOf(d)])
ByteDecode(d, B) == ByteDecodeDef(d, B)

\* Compress_d(x) = round((2^d / q) x) mod 2^d,  Decompress_d(y) = round((q / 2^d) y)
\* with round(a/b) = floor((2a + b) / 2b)
CompressInt(d, x)   == ((2 * x * (2 ^ d) + q) \div (2 * q)) % (2 ^ d)
DecompressInt(d, y) == (2 * q * y + 2 ^ d) \div (2 ^ (d + 1))

CompressDef(d, F)   == TLCEval([i \in Idx |-> CompressInt(d, F[i])])
DecompressDef(d, F) == TLCEval([i \in Idx |-> DecompressInt(d, F[i])])
Compress(d, F)   == CompressDef(d, F)
Decompress(d, F) == DecompressDef(d, F)

-----------------------------------------------------------------------------
(* 4.1  Cryptographic functions                                             *)

G(c)         == SHA3_512(c)
H(s)         == SHA3_256(s)
J(s)         == SHAKE256(s, 32)
PRF(eta,s,b) == SHAKE256(Append(s, b), 64 * eta)

-----------------------------------------------------------------------------
(* 4.2.2  Sampling                                                          *)

\* The candidates of SampleNTT: every 3 bytes of the stream give two 12-bit numbers.
Candidates(B) ==
  TLCEval([i \in 1..(2 * (Len(B) \div 3)) |->
     LET o == 3 * ((i - 1) \div 2)
     IN IF i % 2 = 1 THEN B[o+1] + 256 * (B[o+2] % 16)
                     ELSE (B[o+2] \div 16) + 16 * B[o+3]])

AcceptedDef(B) == SelectSeq(Candidates(B), LAMBDA c : c < q)
Accepted(B) == AcceptedDef(B)

\* SampleNTT on the first bytes of a stream; defined only when they suffice.
SampleFrom(B) == LET A == Accepted(B) IN TLCEval([i \in Idx |-> A[i + 1]])

\* SampleNTT(seed), squeezing SHAKE128 one 168-byte block (56 triples) at a time
RECURSIVE SampleLoop(_, _)
SampleLoop(S, acc) ==
  LET acc2 == TLCEval(acc \o Accepted(BlockBytes(S, 168)))
  IN IF Len(acc2) >= 256 THEN TLCEval([i \in Idx |-> acc2[i + 1]])
     ELSE SampleLoop(KeccakF(S), acc2)

SampleNTTDef(seed) == SampleLoop(Absorb(seed, 168, 31), <<>>)
SampleNTT(seed) == SampleNTTDef(seed)

\* SamplePolyCBD_eta: coefficient i is the number of ones among eta bits minus
\* the number among the next eta bits.
SamplePolyCBDDef(eta, B) ==
  LET b == BytesToBits(B)
      ones(base) == b[base] + b[base + 1] + (IF eta = 3 THEN b[base + 2] ELSE 0)
  IN TLCEval([i \in Idx |-> (ones(2 * i * eta) + q - ones(2 * i * eta + eta)) % q])
SamplePolyCBD(eta, B) == SamplePolyCBDDef(eta, B)

-----------------------------------------------------------------------------
(* 4.3  The number-theoretic transform                                      *)

BitRev7(i) == ((i \div 64) % 2) + 2 * ((i \div 32) % 2) + 4 * ((i \div 16) % 2) + 8 * ((i \div 8) % 2)
              + 16 * ((i \div 4) % 2) + 32 * ((i \div 2) % 2) + 64 * (i % 2)

RECURSIVE ZPow(_, _)
ZPow(b, e) == IF e = 0 THEN 1 ELSE (b * ZPow(b, e - 1)) % q

Zeta  == TLCEval([i \in 0..127 |-> ZPow(17, BitRev7(i))])
Gamma == TLCEval([i \in 0..127 |-> ZPow(17, 2 * BitRev7(i) + 1)])

\* One layer of Algorithm 9: butterflies at distance len
NttLayer(f, len) ==
  TLCEval([j \in Idx |->
    IF j % (2 * len) < len
    THEN (f[j] + Zeta[(128 \div len) + (j \div (2 * len))] * f[j + len]) % q
    ELSE (f[j - len] + (q - Zeta[(128 \div len) + (j \div (2 * len))]) * f[j]) % q])

NTTDef(f) == FoldLeft(NttLayer, f, <<128, 64, 32, 16, 8, 4, 2>>)

NTT(f) == NTTDef(f)

\* One layer of Algorithm 10
InvLayer(f, len) ==
  TLCEval([j \in Idx |->
    IF j % (2 * len) < len
    THEN (f[j] + f[j + len]) % q
    ELSE (Zeta[(256 \div len) - 1 - (j \div (2 * len))] * ((f[j] + q - f[j - len]) % q)) % q])

NTTInvDef(g) == LET f == FoldLeft(InvLayer, g, <<2, 4, 8, 16, 32, 64, 128>>)
                IN TLCEval([i \in Idx |-> (f[i] * 3303) % q])
NTTInv(g) == NTTInvDef(g)

\* Algorithms 11 and 12
BaseMul(f, g, i) ==
  IF i % 2 = 0
  THEN (f[i] * g[i] + ((f[i+1] * g[i+1]) % q) * Gamma[i \div 2]) % q
  ELSE (f[i-1] * g[i] + f[i] * g[i-1]) % q

MultiplyNTTsDef(f, g) == TLCEval([i \in Idx |-> BaseMul(f, g, i)])
MultiplyNTTs(f, g) == MultiplyNTTsDef(f, g)

PolyAddDef(f, g) == TLCEval([i \in Idx |-> (f[i] + g[i]) % q])
PolySubDef(f, g) == TLCEval([i \in Idx |-> (f[i] + q - g[i]) % q])
PolyAdd(f, g) == PolyAddDef(f, g)
PolySub(f, g) == PolySubDef(f, g)

RECURSIVE DotFrom(_, _, _, _)
DotFrom(u, v, i, k) ==
  IF i = k THEN ZeroPoly ELSE PolyAdd(MultiplyNTTs(u[i], v[i]), DotFrom(u, v, i + 1, k))
Dot(u, v, k) == DotFrom(u, v, 0, k)

-----------------------------------------------------------------------------
(* 5  K-PKE                                                                 *)

RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(f, i, k) == IF i = k THEN <<>> ELSE f[i] \o ConcatFrom(f, i + 1, k)
Concat(f, k) == TLCEval(ConcatFrom(f, 0, k))

EncodeVec(d, v, k) == Concat([i \in 0..(k-1) |-> ByteEncode(d, v[i])], k)
DecodeVec(d, B, k) == TLCEval([i \in 0..(k-1) |-> ByteDecode(d, SubSeq(B, 32*d*i + 1, 32*d*(i+1)))])

\* A_hat[i,j] = SampleNTT(rho || j || i)
MatrixA(rho, k) == TLCEval([ij \in (0..(k-1)) \X (0..(k-1)) |-> SampleNTT(rho \o <<ij[2], ij[1]>>)])

CbdVec(eta, s, start, k) == TLCEval([i \in 0..(k-1) |-> SamplePolyCBD(eta, PRF(eta, s, start + i))])

KPkeKeyGen(P, d) ==
  LET g   == G(Append(d, P.k))
      rho == SubSeq(g, 1, 32)
      sig == SubSeq(g, 33, 64)
      k   == P.k
      A   == MatrixA(rho, k)
      s   == CbdVec(P.eta1, sig, 0, k)
      e   == CbdVec(P.eta1, sig, k, k)
      sh  == TLCEval([i \in 0..(k-1) |-> NTT(s[i])])
      eh  == TLCEval([i \in 0..(k-1) |-> NTT(e[i])])
      th  == TLCEval([i \in 0..(k-1) |-> PolyAdd(Dot([j \in 0..(k-1) |-> A[<<i,j>>]], sh, k), eh[i])])
  IN [ek |-> TLCEval(EncodeVec(12, th, k) \o rho), dk |-> EncodeVec(12, sh, k)]

\* what encryption derives from the public key alone
ExpandEk(P, ek) ==
  TLCEval([th |-> DecodeVec(12, SubSeq(ek, 1, 384 * P.k), P.k),
           A  |-> MatrixA(SubSeq(ek, 384 * P.k + 1, 384 * P.k + 32), P.k)])

KPkeEncryptWith(P, X, m, r) ==
  LET k   == P.k
      y   == CbdVec(P.eta1, r, 0, k)
      e1  == CbdVec(P.eta2, r, k, k)
      e2  == SamplePolyCBD(P.eta2, PRF(P.eta2, r, 2 * k))
      yh  == TLCEval([i \in 0..(k-1) |-> NTT(y[i])])
      u   == TLCEval([i \in 0..(k-1) |->
               PolyAdd(NTTInv(Dot([j \in 0..(k-1) |-> X.A[<<j,i>>]], yh, k)), e1[i])])
      mu  == Decompress(1, ByteDecode(1, m))
      v   == PolyAdd(PolyAdd(NTTInv(Dot(X.th, yh, k)), e2), mu)
      c1  == Concat([i \in 0..(k-1) |-> ByteEncode(P.du, Compress(P.du, u[i]))], k)
      c2  == ByteEncode(P.dv, Compress(P.dv, v))
  IN TLCEval(c1 \o c2)

KPkeEncrypt(P, ek, m, r) == KPkeEncryptWith(P, ExpandEk(P, ek), m, r)

\* The noisy message polynomial w = v' - s^T u'
KPkeNoisyWith(P, sh, c) ==
  LET k  == P.k
      uc == DecodeVec(P.du, SubSeq(c, 1, 32 * P.du * k), k)
      u  == TLCEval([i \in 0..(k-1) |-> Decompress(P.du, uc[i])])
      v  == Decompress(P.dv, ByteDecode(P.dv, SubSeq(c, 32 * P.du * k + 1, 32 * (P.du * k + P.dv))))
      uh == TLCEval([i \in 0..(k-1) |-> NTT(u[i])])
  IN PolySub(v, NTTInv(Dot(sh, uh, k)))

KPkeNoisy(P, dk, c) == KPkeNoisyWith(P, DecodeVec(12, dk, P.k), c)

KPkeDecryptWith(P, sh, c) == ByteEncode(1, Compress(1, KPkeNoisyWith(P, sh, c)))
KPkeDecrypt(P, dk, c) == KPkeDecryptWith(P, DecodeVec(12, dk, P.k), c)

-----------------------------------------------------------------------------
(* 6  ML-KEM internal algorithms                                            *)

KeyGenInternal(P, d, z) ==
  LET kp == KPkeKeyGen(P, d)
  IN [ek |-> kp.ek, dk |-> TLCEval(kp.dk \o kp.ek \o H(kp.ek) \o z)]

EncapsWith(P, X, hek, m) ==
  LET g == G(m \o hek)
  IN [K |-> SubSeq(g, 1, 32), c |-> KPkeEncryptWith(P, X, m, SubSeq(g, 33, 64))]

EncapsInternal(P, ek, m) == EncapsWith(P, ExpandEk(P, ek), H(ek), m)

DkPke(P, dk) == SubSeq(dk, 1, 384 * P.k)
DkEk(P, dk)  == SubSeq(dk, 384 * P.k + 1, 768 * P.k + 32)
DkH(P, dk)   == SubSeq(dk, 768 * P.k + 33, 768 * P.k + 64)
DkZ(P, dk)   == SubSeq(dk, 768 * P.k + 65, 768 * P.k + 96)

RejectionKey(P, dk, c) == J(DkZ(P, dk) \o c)

\* what decapsulation derives from the private key alone
ExpandDk(P, dk) ==
  TLCEval([sh |-> DecodeVec(12, DkPke(P, dk), P.k), X |-> ExpandEk(P, DkEk(P, dk)),
           h |-> DkH(P, dk), z |-> DkZ(P, dk)])

\* the result and which of the two branches produced it
DecapsWith(P, X, c) ==
  LET m  == KPkeDecryptWith(P, X.sh, c)
      g  == G(m \o X.h)
      c2 == KPkeEncryptWith(P, X.X, m, SubSeq(g, 33, 64))
  IN IF c = c2 THEN [ok |-> TRUE,  K |-> SubSeq(g, 1, 32)]
               ELSE [ok |-> FALSE, K |-> J(X.z \o c)]

DecapsFull(P, dk, c) == DecapsWith(P, ExpandDk(P, dk), c)

DecapsInternal(P, dk, c) == DecapsFull(P, dk, c).K

-----------------------------------------------------------------------------
(* What decoding and re-encoding a key yields: every 12-bit coefficient is   *)
(* reduced mod q (ByteDecode_12), everything else is kept.                   *)

Recode(P, B) == EncodeVec(12, DecodeVec(12, B, P.k), P.k)
CanonEk(P, ek) == TLCEval(Recode(P, SubSeq(ek, 1, 384 * P.k)) \o SubSeq(ek, 384 * P.k + 1, 384 * P.k + 32))
CanonDk(P, dk) == TLCEval(Recode(P, DkPke(P, dk)) \o CanonEk(P, DkEk(P, dk)) \o DkH(P, dk) \o DkZ(P, dk))
=============================================================================
