------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The Diffie-Hellman groups of dhkem and X-Wing.                           *)
(*                                                                         *)
(* Short Weierstrass curves y^2 = x^3 + ax + b over GF(p) with generator G   *)
(* of prime order n (SEC 2 / FIPS 186-4): NIST P-256, P-384, P-521 and        *)
(* secp256k1, in affine coordinates; and the X25519 function of RFC 7748.    *)
(* Field elements are little-endian byte sequences of the field length.      *)
(***************************************************************************)
EXTENDS BigNum

P256 == [name |-> "p256", len |-> 32,
  p |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 255, 255, 255>>,
  a |-> <<252, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 255, 255, 255>>,
  b |-> <<75, 96, 210, 39, 62, 60, 206, 59, 246, 176, 83, 204, 176, 6, 29, 101, 188, 134, 152, 118, 85, 189, 235, 179, 231, 147, 58, 170, 216, 53, 198, 90>>,
  n |-> <<81, 37, 99, 252, 194, 202, 185, 243, 132, 158, 23, 167, 173, 250, 230, 188, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255>>,
  gx |-> <<150, 194, 152, 216, 69, 57, 161, 244, 160, 51, 235, 45, 129, 125, 3, 119, 242, 64, 164, 99, 229, 230, 188, 248, 71, 66, 44, 225, 242, 209, 23, 107>>,
  gy |-> <<245, 81, 191, 55, 104, 64, 182, 203, 206, 94, 49, 107, 87, 51, 206, 43, 22, 158, 15, 124, 74, 235, 231, 142, 155, 127, 26, 254, 226, 66, 227, 79>>]

P384 == [name |-> "p384", len |-> 48,
  p |-> <<255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,
  a |-> <<252, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,
  b |-> <<239, 42, 236, 211, 237, 200, 133, 42, 157, 209, 46, 138, 141, 57, 86, 198, 90, 135, 19, 80, 143, 8, 20, 3, 18, 65, 129, 254, 110, 156, 29, 24, 25, 45, 248, 227, 107, 5, 142, 152, 228, 231, 62, 226, 167, 47, 49, 179>>,
  n |-> <<115, 41, 197, 204, 106, 25, 236, 236, 122, 167, 176, 72, 178, 13, 26, 88, 223, 45, 55, 244, 129, 77, 99, 199, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,
  gx |-> <<183, 10, 118, 114, 56, 94, 84, 58, 108, 41, 85, 191, 93, 242, 2, 85, 56, 42, 84, 130, 224, 65, 247, 89, 152, 155, 167, 139, 98, 59, 29, 110, 116, 173, 32, 243, 30, 199, 177, 142, 55, 5, 139, 190, 34, 202, 135, 170>>,
  gy |-> <<95, 14, 234, 144, 124, 29, 67, 122, 157, 129, 126, 29, 206, 177, 96, 10, 192, 184, 240, 181, 19, 49, 218, 233, 124, 20, 154, 40, 189, 29, 244, 248, 41, 220, 146, 146, 191, 152, 158, 93, 111, 44, 38, 150, 74, 222, 23, 54>>]

P521 == [name |-> "p521", len |-> 66,
  p |-> <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>,
  a |-> <<252, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>,
  b |-> <<0, 63, 80, 107, 212, 31, 69, 239, 241, 52, 44, 61, 136, 223, 115, 53, 7, 191, 177, 59, 189, 192, 82, 22, 123, 147, 126, 236, 81, 57, 25, 86, 225, 9, 241, 142, 145, 137, 180, 184, 243, 21, 179, 153, 91, 114, 218, 162, 238, 64, 133, 182, 160, 33, 154, 146, 31, 154, 28, 142, 97, 185, 62, 149, 81, 0>>,
  n |-> <<9, 100, 56, 145, 30, 183, 111, 187, 174, 71, 156, 137, 184, 201, 181, 59, 208, 165, 9, 247, 72, 1, 204, 127, 107, 150, 47, 191, 131, 135, 134, 81, 250, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>,
  gx |-> <<102, 189, 229, 194, 49, 126, 126, 249, 155, 66, 106, 133, 193, 179, 72, 51, 222, 168, 255, 162, 39, 193, 29, 254, 40, 89, 231, 239, 119, 94, 75, 161, 186, 61, 77, 107, 96, 175, 40, 248, 33, 181, 63, 5, 57, 129, 100, 156, 66, 180, 149, 35, 102, 203, 62, 158, 205, 233, 4, 4, 183, 6, 142, 133, 198, 0>>,
  gy |-> <<80, 102, 209, 159, 118, 148, 190, 136, 64, 194, 114, 162, 134, 112, 60, 53, 97, 7, 173, 63, 1, 185, 80, 197, 64, 38, 244, 94, 153, 114, 238, 151, 44, 102, 62, 39, 23, 189, 175, 23, 104, 68, 155, 87, 73, 68, 245, 152, 217, 27, 125, 44, 180, 95, 138, 92, 4, 192, 59, 154, 120, 106, 41, 57, 24, 1>>]

K256 == [name |-> "k256", len |-> 32,
  p |-> <<47, 252, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,
  a |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  b |-> <<7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
  n |-> <<65, 65, 54, 208, 140, 94, 210, 191, 59, 160, 72, 175, 230, 220, 174, 186, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,
  gx |-> <<152, 23, 248, 22, 91, 129, 242, 89, 217, 40, 206, 45, 219, 252, 155, 2, 7, 11, 135, 206, 149, 98, 160, 85, 172, 187, 220, 249, 126, 102, 190, 121>>,
  gy |-> <<184, 212, 16, 251, 143, 208, 71, 156, 25, 84, 133, 166, 72, 180, 23, 253, 168, 8, 17, 14, 252, 251, 164, 93, 101, 196, 163, 38, 119, 218, 58, 72>>]

CurveOf(alg) == CASE alg = "p256" -> P256 [] alg = "p384" -> P384
                  [] alg = "p521" -> P521 [] alg = "k256" -> K256

Infinity == [inf |-> TRUE, x |-> <<>>, y |-> <<>>]
Pt(x, y) == [inf |-> FALSE, x |-> x, y |-> y]
Base(C)  == Pt(C.gx, C.gy)

\* the right-hand side x^3 + ax + b
CurveRhs(C, x) ==
  AddMod(MulMod(AddMod(MulMod(x, x, C.p), C.a, C.p), x, C.p), C.b, C.p)

InField(C, x) == ~BnGeq(x, C.p)
OnCurve(C, P) == P.inf \/ (InField(C, P.x) /\ InField(C, P.y) /\ MulMod(P.y, P.y, C.p) = CurveRhs(C, P.x))

PtNeg(C, P) == IF P.inf THEN P ELSE Pt(P.x, SubMod(BnZero(C.len), P.y, C.p))

\* third intersection, reflected, of the line of slope s through P and a point
\* with abscissa x2
LineThird(C, P, x2, s) ==
  LET x == SubMod(SubMod(MulMod(s, s, C.p), P.x, C.p), x2, C.p)
  IN TLCEval(Pt(x, SubMod(MulMod(s, SubMod(P.x, x, C.p), C.p), P.y, C.p)))

PtDouble(C, P) ==
  IF P.inf THEN Infinity ELSE IF BnIsZero(P.y) THEN Infinity
  ELSE LET xx  == MulMod(P.x, P.x, C.p)
           num == AddMod(AddMod(xx, AddMod(xx, xx, C.p), C.p), C.a, C.p)
       IN LineThird(C, P, P.x, MulMod(num, InvMod(AddMod(P.y, P.y, C.p), C.p), C.p))

PtAdd(C, P, Q) ==
  IF P.inf THEN Q ELSE IF Q.inf THEN P
  ELSE IF P.x = Q.x THEN (IF P.y = Q.y THEN PtDouble(C, P) ELSE Infinity)
  ELSE LineThird(C, P, Q.x, MulMod(SubMod(Q.y, P.y, C.p), InvMod(SubMod(Q.x, P.x, C.p), C.p), C.p))

\* k P for a little-endian k, by double-and-add from the top bit
PtMulDef(C, k, P) ==
  LET bits == 8 * Len(k)
  IN FoldLeft(LAMBDA acc, t :
        LET d == TLCEval(PtDouble(C, acc))
        IN TLCEval(IF BnBit(k, bits - t) = 1 THEN PtAdd(C, d, P) ELSE d),
        Infinity, [t \in 1..bits |-> t])

PtMul(C, k, P) == PtMulDef(C, k, P)

\* SEC 1 octet strings (big-endian coordinates)
Sec1(C, P)  == IF P.inf THEN <<0>> ELSE TLCEval(<<4>> \o Reverse(P.x) \o Reverse(P.y))
Sec1C(C, P) == IF P.inf THEN <<0>> ELSE TLCEval(<<2 + (P.y[1] % 2)>> \o Reverse(P.x))

\* the point an uncompressed SEC 1 string stands for
UnSec1(C, s) == Pt(TLCEval(Reverse(SubSeq(s, 2, C.len + 1))),
                   TLCEval(Reverse(SubSeq(s, C.len + 2, 2 * C.len + 1))))

\* a big-endian scalar candidate is a secret key when 1 <= s < n
ScalarOk(C, be) == LET k == TLCEval(Reverse(be)) IN ~BnIsZero(k) /\ ~BnGeq(k, C.n)

EcPublic(C, be)    == PtMul(C, TLCEval(Reverse(be)), Base(C))
\* the Diffie-Hellman secret is the big-endian x-coordinate of the product
EcShared(C, be, P) == TLCEval(Reverse(PtMul(C, TLCEval(Reverse(be)), P).x))

-----------------------------------------------------------------------------
(* X25519 (RFC 7748, section 5)                                             *)

P25519 == <<237, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127>>

\* decodeScalar25519
Clamp(k) == [k EXCEPT ![1] = @ - (@ % 8), ![32] = (@ % 64) + 64]
\* decodeUCoordinate: the top bit is ignored and the value taken mod p
DecodeU(u) == LET m == [u EXCEPT ![32] = @ % 128]
              IN TLCEval(IF BnGeq(m, P25519) THEN BnSub(m, P25519) ELSE m)

LOCAL A24 == TLCEval(BnSmall(121665, 32))
LOCAL FA(a, b) == AddMod(a, b, P25519)
LOCAL FS(a, b) == SubMod(a, b, P25519)
LOCAL FM(a, b) == MulMod(a, b, P25519)

\* one step of the Montgomery ladder on s = <<x2, z2, x3, z3>>
LadderStep(x1, s) ==
  LET A  == FA(s[1], s[2])
      AA == FM(A, A)
      B  == FS(s[1], s[2])
      BB == FM(B, B)
      E  == FS(AA, BB)
      DA == FM(FS(s[3], s[4]), A)
      CB == FM(FA(s[3], s[4]), B)
      P  == FA(DA, CB)
      M  == FS(DA, CB)
  IN TLCEval(<< FM(AA, BB), FM(E, FA(AA, FM(A24, E))), FM(P, P), FM(x1, FM(M, M)) >>)

Swap(s, b) == IF b = 1 THEN <<s[3], s[4], s[1], s[2]>> ELSE s

X25519Def(scalar, u) ==
  LET k  == TLCEval(Clamp(scalar))
      x1 == DecodeU(u)
      r  == FoldLeft(LAMBDA s, t :
              LET b == BnBit(k, 255 - t) IN TLCEval(Swap(LadderStep(x1, Swap(s, b)), b)),
              << BnSmall(1, 32), BnZero(32), x1, BnSmall(1, 32) >>, [t \in 1..255 |-> t])
  IN TLCEval(FM(r[1], InvMod(r[2], P25519)))

X25519(scalar, u) == X25519Def(scalar, u)

X25519Base == TLCEval(BnSmall(9, 32))
X25519Public(scalar) == X25519(scalar, X25519Base)
=============================================================================
