------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Whole tables of the arithmetic of Z_q and of the products in T_q, each    *)
(* summed up by a digest, so that every pair of operands can be compared.    *)
(***************************************************************************)
EXTENDS MLKEM

LOCAL Low(z) == z % 256
LOCAL High(z) == z \div 256
Arith(o, u, v) == CASE o = 0 -> (u + v) % q [] o = 1 -> (u + q - v) % q [] o = 2 -> (u * v) % q

\* the digest of rows lo .. lo + rows - 1 of the table of an operation
RowsDigestDef(o, lo, rows) ==
  LET bytes == TLCEval([z \in 1..(2 * q * rows) |->
        LET w == (z - 1) \div 2
            r == Arith(o, lo + (w \div q), w % q)
        IN IF z % 2 = 1 THEN Low(r) ELSE High(r)])
  IN CHOOSE r \in {SHA3_256(b) : b \in {bytes}} : TRUE
RowsDigest(o, lo, rows) == RowsDigestDef(o, lo, rows)

\* products of two elements of T_q in which component i multiplies u + v X by s + t X (mode 0) or by
\* s + (t / Gamma[i]) X (mode 1): u t + v s, or u s + v t, with s from lo .. lo + rows - 1, and t all of Z_q
GammaInv == TLCEval([i \in 0..127 |-> ZPow(Gamma[i], 255)])      \* Gamma[i]^256 = 1
Least(g, h) == IF g < h THEN g ELSE h
ColPolys == (q + 127) \div 128
SumLeft(u, v) == TLCEval([i \in Idx |-> IF i % 2 = 0 THEN u ELSE v])
SumRight(s, blk, mode) ==
  TLCEval([i \in Idx |-> IF i % 2 = 0 THEN s
                         ELSE LET t == Least(128 * blk + (i \div 2), q - 1)
                              IN IF mode = 0 THEN t ELSE (t * GammaInv[i \div 2]) % q])
LOCAL Raw(p) == TLCEval([z \in 1..512 |-> IF z % 2 = 1 THEN Low(p[(z - 1) \div 2]) ELSE High(p[(z - 1) \div 2])])
SumsDigestDef(u, v, lo, rows, mode) ==
  LET polys == [j \in 1..(rows * ColPolys) |->
                  Raw(MultiplyNTTs(SumLeft(u, v), SumRight(lo + ((j - 1) \div ColPolys), (j - 1) % ColPolys, mode)))]
      bytes == TLCEval(FoldLeft(LAMBDA done, p: done \o p, <<>>, polys))
  \* (bound, so that TLC evaluates them once)
  IN CHOOSE r \in {SHA3_256(b) : b \in {bytes}} : TRUE

\* the transforms (dir 0) or inverse transforms (dir 1) of the multiples lo .. lo + rows - 1 of X^at
UnitsDigestDef(dir, at, lo, rows) ==
  LET mult(v) == TLCEval([i \in Idx |-> IF i = at THEN v ELSE 0])
      polys == [j \in 1..rows |-> Raw(IF dir = 0 THEN NTT(mult(lo + j - 1)) ELSE NTTInv(mult(lo + j - 1)))]
      bytes == TLCEval(FoldLeft(LAMBDA done, p: done \o p, <<>>, polys))
  IN CHOOSE r \in {SHA3_256(b) : b \in {bytes}} : TRUE
UnitsDigest(dir, at, lo, rows) == UnitsDigestDef(dir, at, lo, rows)
SumsDigest(u, v, lo, rows, mode) == SumsDigestDef(u, v, lo, rows, mode)
=============================================================================
