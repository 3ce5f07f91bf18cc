------------------------------- MODULE XWing -------------------------------
(***************************************************************************)
(* X-Wing (draft-connolly-cfrg-xwing-kem-04): ML-KEM-768 and X25519 combined *)
(* by SHA3-256 over the label, both shared secrets, the X25519 ciphertext    *)
(* and the X25519 public key.                                               *)
(***************************************************************************)
EXTENDS MLKEM, Curves

XwEkSize == 1216
XwDkSize == 32
XwCtSize == 1120

\* the ASCII string  \.//^\
XwLabel == <<92, 46, 47, 47, 94, 92>>

XwExpand(sk) ==
  LET e  == SHAKE128(sk, 96)
      kp == KeyGenInternal(MLKEM768, SubSeq(e, 1, 32), SubSeq(e, 33, 64))
      sx == SubSeq(e, 65, 96)
  IN TLCEval([dkM |-> kp.dk, ekM |-> kp.ek, skX |-> sx, pkX |-> X25519Public(sx)])

XwPublic(sk) == LET x == XwExpand(sk) IN TLCEval(x.ekM \o x.pkX)

XwEkM(ek) == SubSeq(ek, 1, 1184)
XwEkX(ek) == SubSeq(ek, 1185, 1216)
XwCtM(ct) == SubSeq(ct, 1, 1088)
XwCtX(ct) == SubSeq(ct, 1089, 1120)

XwCombine(ssM, ssX, ctX, pkX) == SHA3_256(XwLabel \o ssM \o ssX \o ctX \o pkX)

\* m is the ML-KEM message, ex the ephemeral X25519 secret
XwEncaps(ek, m, ex) ==
  LET e   == EncapsInternal(MLKEM768, XwEkM(ek), m)
      ctX == X25519Public(ex)
      ssX == X25519(ex, XwEkX(ek))
  IN [K |-> XwCombine(e.K, ssX, ctX, XwEkX(ek)), c |-> TLCEval(e.c \o ctX)]

\* X is XwExpand(sk), XM is ExpandDk of its ML-KEM key
XwDecapsWith(X, XM, ct) ==
  XwCombine(DecapsWith(MLKEM768, XM, XwCtM(ct)).K, X25519(X.skX, XwCtX(ct)), XwCtX(ct), X.pkX)

XwDecaps(sk, ct) ==
  LET X == XwExpand(sk) IN XwDecapsWith(X, ExpandDk(MLKEM768, X.dkM), ct)

\* the secret when the ML-KEM part is rejected
XwRejection(X, ct) ==
  XwCombine(RejectionKey(MLKEM768, X.dkM, XwCtM(ct)), X25519(X.skX, XwCtX(ct)), XwCtX(ct), X.pkX)

XwCanonEk(ek) == TLCEval(CanonEk(MLKEM768, XwEkM(ek)) \o XwEkX(ek))
=============================================================================
