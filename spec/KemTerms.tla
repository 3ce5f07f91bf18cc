------------------------------ MODULE KemTerms ------------------------------
(***************************************************************************)
(* The operators of KemSystem over a free term algebra: every cryptographic  *)
(* function is a constructor, so two values are equal exactly when they are   *)
(* built in the same way.  Values are sequences of the parts their encodings  *)
(* consist of, which is what an adversary can cut and recombine:              *)
(*                                                                         *)
(*   ML-KEM   private key  s t rho h z      public key  t rho   ciphertext  u v  *)
(*   X-Wing   private key  seed       public key  t rho pub     ciphertext  u v pub *)
(*   DHKEM    private key  scalar     public key  pub           ciphertext  pub    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS UnitOf(_),       \* length of one draw of the algorithm's generator
          AtomOf(_)        \* the atom that a drawn piece of the stream is

TMl == {"mlkem512", "mlkem768", "mlkem1024"}
TDh == {"p256", "p384", "p521", "k256", "x25519"}

\* every term has this shape, so that TLC can compare any two
T(f, ts) == [f |-> f, ts |-> ts]
Atom(s)  == T(s, <<>>)

-----------------------------------------------------------------------------
Draws(cnt, a, g) ==
  LET len == UnitOf(a)
  IN IF g.pos + cnt * len <= g.limit
     THEN [ok |-> TRUE, pos |-> g.pos + cnt * len,
           x |-> [i \in 1..cnt |-> AtomOf(SubSeq(g.data, g.pos + (i - 1) * len + 1, g.pos + i * len))]]
     ELSE [ok |-> FALSE, pos |-> g.limit, x |-> <<>>]

TTakeGen(a, g) == Draws(IF a \in TMl THEN 2 ELSE 1, a, g)
TTakeEnc(a, g) == Draws(IF a = "xwing" THEN 2 ELSE 1, a, g)

\* K-PKE: s, t, rho from d; u, v from the public key, the message and the coins G(m, h)
Sec(a, d) == T("s", <<Atom(a), d>>)
Pub(a, d) == <<T("t", <<Atom(a), d>>), T("rho", <<Atom(a), d>>)>>
Hash(ek)  == T("H", ek)
UV(ek, m, h) == <<T("u", <<ek[2], m, h>>), T("v", <<ek[1], m, h>>)>>
Key(m, h) == T("K", <<m, h>>)
Rej(z, uv) == T("J", <<z>> \o uv)

MlPair(a, d, z) == [dk |-> <<Sec(a, d)>> \o Pub(a, d) \o <<Hash(Pub(a, d)), z>>, ek |-> Pub(a, d)]
MlSeal(ek, m) == [ct |-> UV(ek, m, Hash(ek)), ss |-> Key(m, Hash(ek))]

\* what decryption recovers: the message, if u and v were made together for this secret
Recovers(s, uv) ==
  /\ s.f = "s" /\ uv[1].f = "u" /\ uv[2].f = "v"
  /\ uv[1].ts[1] = T("rho", s.ts) /\ uv[2].ts[1] = T("t", s.ts)
  /\ uv[1].ts[2] = uv[2].ts[2] /\ uv[1].ts[3] = uv[2].ts[3]

MlOpen(dk, uv) ==
  IF Recovers(dk[1], uv) /\ UV(<<dk[2], dk[3]>>, uv[1].ts[2], dk[4]) = uv
  THEN Key(uv[1].ts[2], dk[4])
  ELSE Rej(dk[5], uv)

\* Diffie-Hellman: a share is the public value of a secret, or a value from elsewhere
Share(a, x) == T("pub", <<Atom(a), x>>)
IdOf(sh) == IF sh.f = "pub" THEN sh.ts[2] ELSE sh
Dh(a, x, sh) ==
  LET S == {x, IdOf(sh)}
      p == CHOOSE e \in S : TRUE
      r == IF S = {p} THEN p ELSE CHOOSE e \in S : e # p
  IN T("dh", <<Atom(a), p, r>>)

XwD(s) == T("xd", <<s>>)
XwZ(s) == T("xz", <<s>>)
XwX(s) == T("xx", <<s>>)
Combine(k, dh, c, p) == T("xw", <<k, dh, c, p>>)

TKeyPair(a, x) ==
  CASE a \in TMl   -> MlPair(a, x[1], x[2])
    [] a = "xwing" -> [dk |-> <<x[1]>>, ek |-> Append(Pub(a, XwD(x[1])), Share(a, XwX(x[1])))]
    [] a \in TDh   -> [dk |-> <<x[1]>>, ek |-> <<Share(a, x[1])>>]

TPublicOf(a, dk) == IF a \in TMl THEN <<dk[2], dk[3]>> ELSE TKeyPair(a, dk).ek

TSeal(a, ek, x) ==
  CASE a \in TMl   -> MlSeal(ek, x[1])
    [] a = "xwing" ->
         LET o == MlSeal(<<ek[1], ek[2]>>, x[1])
             c == Share(a, x[2])
         IN [ct |-> Append(o.ct, c), ss |-> Combine(o.ss, Dh(a, x[2], ek[3]), c, ek[3])]
    [] a \in TDh   -> [ct |-> <<Share(a, x[1])>>, ss |-> Dh(a, x[1], ek[1])]

TOpen(a, dk, ct) ==
  CASE a \in TMl   -> MlOpen(dk, ct)
    [] a = "xwing" ->
         LET s  == dk[1]
             kp == MlPair(a, XwD(s), XwZ(s))
         IN Combine(MlOpen(kp.dk, <<ct[1], ct[2]>>), Dh(a, XwX(s), ct[3]), ct[3], Share(a, XwX(s)))
    [] a \in TDh   -> Dh(a, dk[1], ct[1])

TEncode(kind, a, v) == v
TDecode(kind, a, b) == [ok |-> TRUE, val |-> b]

TSameDraw(a, x, y)  == x = y
TSameShare(a, v, w) == v = w
TDegenerate(a, ss)  == FALSE
=============================================================================
