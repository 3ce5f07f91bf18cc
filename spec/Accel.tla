------------------------------- MODULE Accel -------------------------------
(* Every TLC run that uses an accelerated operator checks it against its    *)
(* TLA+ definition first.                                                   *)
EXTENDS KemBytes, Tables

LOCAL Probe1 == TLCEval([k \in 0..99 |-> 0])
LOCAL Probe2 == TLCEval([k \in 0..99 |-> (k * k * 613 + 40503 * k + 977) % 65536])

ASSUME AccelKeccak == \A S \in {Probe1, Probe2} : KeccakF(S) = KeccakFDef(S)

LOCAL Nat1(len) == [i \in 1..len |-> IF i = len THEN 0 ELSE (i * i * 61 + 7 * i + 200) % 256]
LOCAL Nat2(len) == [i \in 1..len |-> IF i = len THEN 0 ELSE (i * i * i * 23 + 91 * i + 3) % 256]

ASSUME AccelBigNum ==
  \A p \in {P256.p, P25519} :
    \A a, b \in {Nat1(32), Nat2(32), BnZero(32), BnSub(p, BnSmall(1, 32))} :
       /\ AddMod(a, b, p) = AddModDef(a, b, p)
       /\ SubMod(a, b, p) = SubModDef(a, b, p)
ASSUME AccelMul ==
  /\ MulMod(Nat1(32), Nat2(32), P25519) = MulModDef(Nat1(32), Nat2(32), P25519)
  /\ MulMod(BnSub(P256.p, BnSmall(1, 32)), Nat2(32), P256.p)
       = MulModDef(BnSub(P256.p, BnSmall(1, 32)), Nat2(32), P256.p)
  /\ MulMod(Nat1(66), Nat2(66), P521.p) = MulModDef(Nat1(66), Nat2(66), P521.p)
ASSUME AccelPow ==
  PowMod(Nat1(32), Nat2(32), P25519) = PowModDef(Nat1(32), Nat2(32), P25519)
ASSUME AccelBytes ==
  /\ Bytes("00ff7f80a5c31e") = BytesDef("00ff7f80a5c31e")
  /\ Bytes("") = <<>>
LOCAL Msg(len) == TLCEval([i \in 1..len |-> (i * i * 37 + 11 * i + len) % 256])
LOCAL Poly1 == TLCEval([i \in Idx |-> (i * i * 577 + 1237 * i + 3328) % q])
LOCAL Poly2 == TLCEval([i \in Idx |-> (i * i * i * 91 + 3 * i * i + 2222) % q])
LOCAL Poly3 == TLCEval([i \in Idx |-> q - 1])
ASSUME AccelSponge ==
  /\ \A len \in {0, 135, 136, 137} : Sponge(Msg(len), 136, 6, 32) = SpongeDef(Msg(len), 136, 6, 32)
  /\ Sponge(Msg(71), 72, 6, 64) = SpongeDef(Msg(71), 72, 6, 64)
  /\ Sponge(Msg(34), 168, 31, 337) = SpongeDef(Msg(34), 168, 31, 337)
ASSUME AccelCodec ==
  \A d \in {1, 4, 5, 10, 11, 12} :
    /\ ByteDecode(d, Msg(32 * d)) = ByteDecodeDef(d, Msg(32 * d))
    /\ LET F == [i \in Idx |-> Poly1[i] % (2 ^ d)] IN
         /\ ByteEncode(d, F) = ByteEncodeDef(d, F)
         /\ d < 12 => Decompress(d, F) = DecompressDef(d, F)
    /\ d < 12 => \A f \in {Poly1, Poly2, Poly3} : Compress(d, f) = CompressDef(d, f)
ASSUME AccelSampling ==
  /\ Accepted(Msg(168)) = AcceptedDef(Msg(168))
  /\ SampleNTT(Msg(34)) = SampleNTTDef(Msg(34))
  /\ \A eta \in {2, 3} : SamplePolyCBD(eta, Msg(64 * eta)) = SamplePolyCBDDef(eta, Msg(64 * eta))
ASSUME AccelRing ==
  /\ \A f \in {Poly1, Poly2, Poly3} : NTT(f) = NTTDef(f) /\ NTTInv(f) = NTTInvDef(f)
  /\ \A f, g \in {Poly1, Poly2, Poly3} :
       /\ MultiplyNTTs(f, g) = MultiplyNTTsDef(f, g)
       /\ PolyAdd(f, g) = PolyAddDef(f, g)
       /\ PolySub(f, g) = PolySubDef(f, g)
ASSUME AccelTables ==
  /\ \A o \in 0..2 : RowsDigest(o, 3327, 2) = RowsDigestDef(o, 3327, 2)
  /\ \A mode \in 0..1 : SumsDigest(3328, 3326, 1776, 2, mode) = SumsDigestDef(3328, 3326, 1776, 2, mode)
  /\ \A dir \in 0..1 : UnitsDigest(dir, 77, 3327, 2) = UnitsDigestDef(dir, 77, 3327, 2)
ASSUME AccelCurves ==
  /\ X25519(Nat1(32), Nat2(32)) = X25519Def(Nat1(32), Nat2(32))
  /\ \A C \in {P256, K256} :
       \A k \in {BnSmall(0, 32), BnSmall(2, 32), BnSmall(77, 32), BnSub(C.n, BnSmall(1, 32))} :
          PtMul(C, k, Base(C)) = PtMulDef(C, k, Base(C))
ASSUME AccelPatched == Patched(Msg(9), <<0, 255, 8, 1, 0, 7>>) = PatchedDef(Msg(9), <<0, 255, 8, 1, 0, 7>>)
LOCAL ProbeOp(x) == [a |-> x[1] + 1, b |-> [k \in 1..x[2] |-> k * x[1]]]
ASSUME AccelPure == Pure(ProbeOp, <<5, 7>>) = ProbeOp(<<5, 7>>)
=============================================================================
