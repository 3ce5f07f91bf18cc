------------------------------ MODULE KemBytes ------------------------------
(***************************************************************************)
(* The operators of KemSystem over bytes, for the nine KEMs of the           *)
(* repository: mlkem512/768/1024, xwing, p256, p384, p521, k256, x25519.      *)
(* An x25519 or NIST private key is its scalar (x25519: 32 bytes as drawn;    *)
(* NIST: big-endian); NIST public keys are uncompressed SEC 1 strings.        *)
(***************************************************************************)
EXTENDS XWing, Bytes, Pure

MlkemAlgs == {"mlkem512", "mlkem768", "mlkem1024"}
NistAlgs  == {"p256", "p384", "p521", "k256"}
DhAlgs    == NistAlgs \union {"x25519"}

\* the next len bytes of a generator
Take(len, g) ==
  IF g.pos + len <= g.limit
  THEN [ok |-> TRUE, pos |-> g.pos + len, x |-> SubSeq(g.data, g.pos + 1, g.pos + len)]
  ELSE [ok |-> FALSE, pos |-> g.limit, x |-> <<>>]

\* uniform scalars by rejection: field-size blocks until one is in 1..n-1
RECURSIVE TakeScalar(_, _)
TakeScalar(C, g) ==
  LET t == Take(C.len, g)
  IN IF ~t.ok THEN t ELSE IF ScalarOk(C, t.x) THEN t
     ELSE TakeScalar(C, [g EXCEPT !.pos = t.pos])

BTakeGen(a, g) ==
  CASE a \in MlkemAlgs -> Take(64, g)     \* d, then z
    [] a = "xwing"     -> Take(32, g)
    [] a = "x25519"    -> Take(32, g)
    [] a \in NistAlgs  -> TakeScalar(CurveOf(a), g)

BTakeEnc(a, g) ==
  CASE a \in MlkemAlgs -> Take(32, g)     \* m
    [] a = "xwing"     -> Take(64, g)     \* m, then the X25519 secret
    [] a = "x25519"    -> Take(32, g)
    [] a \in NistAlgs  -> TakeScalar(CurveOf(a), g)

BKeyPair(a, x) ==
  CASE a \in MlkemAlgs -> KeyGenInternal(ParamsOf(a), SubSeq(x, 1, 32), SubSeq(x, 33, 64))
    [] a = "xwing"     -> [dk |-> x, ek |-> XwPublic(x)]
    [] a = "x25519"    -> [dk |-> x, ek |-> X25519Public(x)]
    [] a \in NistAlgs  -> [dk |-> x, ek |-> Sec1(CurveOf(a), EcPublic(CurveOf(a), x))]

BPublicOf(a, dk) ==
  IF a \in MlkemAlgs THEN TLCEval(DkEk(ParamsOf(a), dk)) ELSE BKeyPair(a, dk).ek

BSeal(a, ek, x) ==
  CASE a \in MlkemAlgs ->
         LET o == EncapsInternal(ParamsOf(a), ek, x) IN [ct |-> o.c, ss |-> o.K]
    [] a = "xwing"     ->
         LET o == XwEncaps(ek, SubSeq(x, 1, 32), SubSeq(x, 33, 64)) IN [ct |-> o.c, ss |-> o.K]
    [] a = "x25519"    -> [ct |-> X25519Public(x), ss |-> X25519(x, ek)]
    [] a \in NistAlgs  ->
         LET C == CurveOf(a)
         IN [ct |-> Sec1(C, EcPublic(C, x)), ss |-> EcShared(C, x, UnSec1(C, ek))]

BOpen(a, dk, ct) ==
  CASE a \in MlkemAlgs -> DecapsInternal(ParamsOf(a), dk, ct)
    [] a = "xwing"     -> XwDecaps(dk, ct)
    [] a = "x25519"    -> X25519(dk, ct)
    [] a \in NistAlgs  -> LET C == CurveOf(a) IN EcShared(C, dk, UnSec1(C, ct))

\* private keys of DHKEM have no encoding
BEncode(kind, a, v) == IF kind = "dk" /\ a \in DhAlgs THEN <<>> ELSE v

EncSize(kind, a) ==
  CASE a \in MlkemAlgs -> (CASE kind = "dk" -> DkSize(ParamsOf(a))
                             [] kind = "ek" -> EkSize(ParamsOf(a))
                             [] kind = "ct" -> CtSize(ParamsOf(a)))
    [] a = "xwing"     -> (CASE kind = "dk" -> XwDkSize [] kind = "ek" -> XwEkSize [] kind = "ct" -> XwCtSize)
    [] a = "x25519"    -> 32
    [] a \in NistAlgs  -> 2 * CurveOf(a).len + 1

\* importing: the value that right-sized bytes stand for
BDecode(kind, a, b) ==
  LET sized == Len(b) = EncSize(kind, a)
  IN CASE ~sized -> [ok |-> FALSE, val |-> <<>>]
       [] sized /\ a \in NistAlgs ->
            [ok |-> b[1] = 4 /\ OnCurve(CurveOf(a), UnSec1(CurveOf(a), b)), val |-> b]
       [] sized /\ kind = "ek" /\ a \in MlkemAlgs -> [ok |-> TRUE, val |-> CanonEk(ParamsOf(a), b)]
       [] sized /\ kind = "dk" /\ a \in MlkemAlgs -> [ok |-> TRUE, val |-> CanonDk(ParamsOf(a), b)]
       [] sized /\ kind = "ek" /\ a = "xwing" -> [ok |-> TRUE, val |-> XwCanonEk(b)]
       [] OTHER -> [ok |-> TRUE, val |-> b]

\* `==' of two values of one kind
BSame(kind, a, v, w) ==
  IF a = "x25519" THEN DecodeU(v) = DecodeU(w)   \* x25519-dalek compares field elements
  ELSE v = w

ClampedScalar(x) == [x EXCEPT ![1] = 8 * (@ \div 8), ![32] = 64 + (@ % 64)]

BSameDraw(a, x, y) ==
  CASE a = "x25519" -> ClampedScalar(x) = ClampedScalar(y)
    [] a = "xwing"  -> /\ SubSeq(x, 1, 32) = SubSeq(y, 1, 32)
                       /\ ClampedScalar(SubSeq(x, 33, 64)) = ClampedScalar(SubSeq(y, 33, 64))
    [] OTHER        -> x = y

BSameShare(a, v, w) ==
  CASE a = "x25519"    -> DecodeU(v) = DecodeU(w)
    [] a \in NistAlgs  -> LET fl == CurveOf(a).len IN SubSeq(v, 2, fl + 1) = SubSeq(w, 2, fl + 1)
    [] OTHER           -> v = w

BDegenerate(a, ss) == a = "x25519" /\ \A j \in 1..32 : ss[j] = 0

-----------------------------------------------------------------------------
(* The same, evaluated outside any state *)
LOCAL TakeGen1(t) == BTakeGen(t[1], t[2])
LOCAL TakeEnc1(t) == BTakeEnc(t[1], t[2])
LOCAL KeyPair1(t) == BKeyPair(t[1], t[2])
LOCAL PublicOf1(t) == BPublicOf(t[1], t[2])
LOCAL Seal1(t)    == BSeal(t[1], t[2], t[3])
LOCAL Open1(t)    == BOpen(t[1], t[2], t[3])
LOCAL Decode1(t)  == BDecode(t[1], t[2], t[3])
PTakeGen(a, g)    == Pure(TakeGen1, <<a, g>>)
PTakeEnc(a, g)    == Pure(TakeEnc1, <<a, g>>)
PKeyPair(a, x)    == Pure(KeyPair1, <<a, x>>)
PPublicOf(a, dk)  == Pure(PublicOf1, <<a, dk>>)
PSeal(a, ek, x)   == Pure(Seal1, <<a, ek, x>>)
POpen(a, dk, ct)  == Pure(Open1, <<a, dk, ct>>)
PDecode(k, a, b)  == Pure(Decode1, <<k, a, b>>)
=============================================================================
