-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* What ML-KEM's algorithms are for, in plain algebra: Z_q, the ring         *)
(* R_q = Z_q[X]/(X^256+1), the isomorphic T_q, and rounding.  The operators   *)
(* of MLKEM (the standard's algorithms) are compared with these in Lemmas,    *)
(* and the implementation's internal functions with both in InternalTrace.   *)
(***************************************************************************)
EXTENDS MLKEM

RECURSIVE SumTerms(_, _, _)
\* balanced, so that the recursion stays shallow
SumTerms(t(_), lo, hi) ==
  IF lo > hi THEN 0
  ELSE IF lo = hi THEN t(lo)
  ELSE LET mid == (lo + hi) \div 2 IN (SumTerms(t, lo, mid) + SumTerms(t, mid + 1, hi)) % q

\* the product of two polynomials modulo X^256 + 1
RingMul(f, g) ==
  TLCEval([i \in Idx |->
    LET term(j) == IF j <= i THEN (f[j] * g[i - j]) % q ELSE q - ((f[j] * g[256 + i - j]) % q)
    IN SumTerms(term, 0, 255) % q])

\* 17 has order 256, and Gamma[i] is an odd power of it (Lemmas)
Pow17 == TLCEval([e \in 0..255 |-> ZPow(17, e)])
GammaPow == TLCEval([i \in 0..127 |-> [j \in 0..127 |-> Pow17[((2 * BitRev7(i) + 1) * j) % 256]]])

\* the isomorphism R_q -> T_q: component i is f mod (X^2 - Gamma[i])
ToT(f) ==
  TLCEval([c \in Idx |->
    LET i == c \div 2
        term(j) == (f[2 * j + (c % 2)] * GammaPow[i][j]) % q
    IN SumTerms(term, 0, 127) % q])

\* the product of components i: (f0 + f1 X)(g0 + g1 X) modulo X^2 - Gamma[i]
TMul(f, g) ==
  TLCEval([c \in Idx |->
    LET i == c \div 2
    IN IF c % 2 = 0 THEN (f[c] * g[c] + Gamma[i] * ((f[c+1] * g[c+1]) % q)) % q
       ELSE (f[c-1] * g[c] + f[c] * g[c-1]) % q])

\* y is x * 2^d / q rounded to the nearest integer (no ties: q is odd), mod 2^d
IsCompressed(d, x, y) ==
  /\ y \in 0..(2 ^ d - 1)
  /\ \E w \in {y, y + 2 ^ d} : 2 * w * q - 2 * x * (2 ^ d) \in (-q)..q
\* y is x * q / 2^d rounded, ties upwards
IsDecompressed(d, x, y) == 2 * y * (2 ^ d) - 2 * x * q \in (1 - 2 ^ d)..(2 ^ d)

\* number of ones
Ones(b, base, eta) == b[base] + b[base + 1] + (IF eta = 3 THEN b[base + 2] ELSE 0)
=============================================================================
