------------------------------- MODULE Lemmas -------------------------------
(***************************************************************************)
(* The standard's algorithms, as specified in MLKEM, compute what they are    *)
(* for.  The transforms are linear by construction (each layer is), so        *)
(* agreement on the basis is agreement everywhere; the other statements are   *)
(* exhaustive.  One state per case, so that TLC spreads them over workers.    *)
(***************************************************************************)
EXTENDS Ring, Accel
CONSTANT Basis       \* which basis vectors to try

AllIdx == 0..255

VARIABLES lem, arg, tried

Unit(i, c) == TLCEval([j \in Idx |-> IF j = i THEN c ELSE 0])
Ds == {1, 4, 5, 10, 11}
Cases ==
  ({"ntt", "inv", "mul", "shift"} \X Basis) \union ({"comp", "decomp", "noise"} \X Ds)
  \union {<<"zeta", 0>>, <<"gamma", 0>>} \union ({"bits"} \X {1, 4, 5, 10, 11, 12})
  \union ({"accept"} \X (0..15)) \union ({"cbd"} \X {2, 3})

Init == (\E c \in Cases : lem = c[1] /\ arg = c[2]) /\ tried = FALSE
Next == tried' = TRUE /\ UNCHANGED <<lem, arg>>

\* a dense polynomial that depends on i
Dense(i) == TLCEval([j \in Idx |-> (j * j * 577 + (i + 1) * 1237 * j + 97 * i + 3) % q])

Holds(c) ==
  LET l == c[1]
      p == c[2]
  IN CASE l = "ntt" -> NTT(Unit(p, 1)) = ToT(Unit(p, 1)) /\ (p % 32 = 0 => NTT(Dense(p)) = ToT(Dense(p)))
       [] l = "inv" -> NTTInv(ToT(Unit(p, 1))) = Unit(p, 1)
       \* multiplication by X^p is multiplication of the transforms
       [] l = "mul" -> LET f == Dense(p) IN
                         MultiplyNTTs(NTT(f), NTT(Unit(p, 1))) = NTT([j \in Idx |-> IF j >= p THEN f[j - p] ELSE (q - f[256 + j - p]) % q])
       [] l = "shift" -> MultiplyNTTs(Dense(p), Dense(p + 7)) = TMul(Dense(p), Dense(p + 7))
       [] l = "zeta" -> \A j \in 0..127 : Zeta[j] = ZPow(17, BitRev7(j)) /\ ZPow(17, 128) = q - 1
       [] l = "gamma" -> \A j \in 0..127 : (Gamma[j] = (Zeta[j] * Zeta[j] * 17) % q) /\ ZPow(Gamma[j], 128) = q - 1
                            /\ \A e \in 0..127 : GammaPow[j][e] = ZPow(Gamma[j], e)
       [] l = "comp" -> \A x \in 0..(q - 1) : IsCompressed(p, x, CompressInt(p, x))
       [] l = "decomp" -> \A y \in 0..(2 ^ p - 1) :
                            /\ IsDecompressed(p, y, DecompressInt(p, y)) /\ DecompressInt(p, y) < q
                            /\ CompressInt(p, DecompressInt(p, y)) = y
       \* the error of a round trip is at most round(q / 2^(d+1))
       [] l = "noise" -> \A x \in 0..(q - 1) :
                           LET z == (DecompressInt(p, CompressInt(p, x)) + q - x) % q
                               b == (q + 2 ^ p) \div (2 ^ (p + 1))
                           IN z <= b \/ q - z <= b
       [] l = "bits" -> \A s \in 0..3 :
                          LET F == [j \in Idx |-> (Dense(s)[j]) % ModulusOf(p)]
                              B == [j \in 1..(32 * p) |-> (j * j * 37 + 11 * j + s * 91) % 256]
                          IN /\ ByteDecode(p, ByteEncode(p, F)) = F
                             /\ p < 12 => ByteEncode(p, ByteDecode(p, B)) = B
       \* candidates: every value of one triple's two numbers
       [] l = "accept" -> \A b0 \in {0, 1, 254, 255}, b2 \in {0, 1, 207, 208, 209, 254, 255} : \A mid \in (16 * p)..(16 * p + 15) :
                            LET c1 == b0 + 256 * (mid % 16)
                                c2 == (mid \div 16) + 16 * b2
                            IN Accepted(<<b0, mid, b2>>) = (IF c1 < q THEN <<c1>> ELSE <<>>) \o (IF c2 < q THEN <<c2>> ELSE <<>>)
       [] l = "cbd" -> LET B == [j \in 1..(64 * p) |-> (j * 73 + 29) % 256]
                           b == BytesToBits(B)
                           f == SamplePolyCBD(p, B)
                       IN \A j \in Idx : f[j] = (Ones(b, 2 * p * j, p) + q - Ones(b, 2 * p * j + p, p)) % q

Correct == tried => Pure(Holds, <<lem, arg>>)
=============================================================================
