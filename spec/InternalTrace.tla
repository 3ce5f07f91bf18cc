--------------------------- MODULE InternalTrace ---------------------------
(***************************************************************************)
(* Conformance of ml-kem's internal functions (recorded by the internals      *)
(* harness): every result must be the exact value.                          *)
(***************************************************************************)
EXTENDS Ring, Accel, Json, IOUtils

VARIABLES tr, cur

Traces == ndJsonDeserialize(IOEnv.TRACE)
Ev     == Traces[tr].ev

Init == tr \in 1..Len(Traces) /\ cur = 1

PolyAt(B, at) == TLCEval([i \in Idx |-> B[at + 2 * i + 1] + 256 * B[at + 2 * i + 2]])
Poly(B) == PolyAt(B, 0)
Vec(B, k) == TLCEval([i \in 0..(k-1) |-> PolyAt(B, 512 * i)])
Each(op(_), v, k) == TLCEval([i \in 0..(k-1) |-> op(v[i])])

\* the value the operation has to return: a polynomial, a vector, or bytes
InternalOk(e) ==
  LET x == Bytes(e.x)
      y == Bytes(e.y)
      r == Bytes(e.res)
      k == e.a
      isPoly(p) == Len(r) = 512 /\ Poly(r) = p
      isVec(v)  == Len(r) = 512 * k /\ Vec(r, k) = v
  IN CASE e.op = "ftab" ->
            /\ Len(r) = 2 * q
            /\ \A b \in 0..(q - 1) :
                 r[2*b + 1] + 256 * r[2*b + 2] =
                   (CASE e.a = 0 -> (e.b + b) % q [] e.a = 1 -> (e.b + q - b) % q [] e.a = 2 -> (e.b * b) % q)
       \* the digest of rows of the whole table; of products over all pairs
       [] e.op = "fall" -> r = RowsDigest(e.a, e.b, Least(64, q - e.b))
       [] e.op = "sums" -> r = SumsDigest(x[1] + 256 * x[2], x[3] + 256 * x[4], e.b, Least(64, q - e.b), e.a)
       [] e.op = "units" -> r = UnitsDigest(e.a, e.b, 0, q)
       [] e.op \in {"padd", "nadd"} -> isPoly(PolyAdd(Poly(x), Poly(y)))
       [] e.op = "psub" -> isPoly(PolySub(Poly(x), Poly(y)))
       [] e.op = "smul" -> LET f == Poly(x) IN isPoly([i \in Idx |-> (e.a * f[i]) % q])
       [] e.op = "nmul" -> isPoly(MultiplyNTTs(Poly(x), Poly(y)))
       [] e.op = "ntt"  -> isPoly(NTT(Poly(x)))
       [] e.op = "inv"  -> isPoly(NTTInv(Poly(x)))
       [] e.op = "ring" -> isPoly(RingMul(Poly(x), Poly(y)))
       [] e.op = "comp"   -> LET f == Poly(x) g == Poly(r) IN Len(r) = 512 /\ \A i \in Idx : IsCompressed(e.a, f[i], g[i])
       [] e.op = "decomp" -> LET f == Poly(x) g == Poly(r) IN Len(r) = 512 /\ \A i \in Idx : IsDecompressed(e.a, f[i], g[i])
       [] e.op \in {"enc", "nenc"} -> r = ByteEncode(IF e.op = "enc" THEN e.a ELSE 12, Poly(x))
       [] e.op \in {"dec", "ndec"} -> isPoly(ByteDecode(IF e.op = "dec" THEN e.a ELSE 12, x))
       [] e.op = "unif" -> isPoly(SampleFrom(x))
       [] e.op = "cbd"  -> isPoly(SamplePolyCBD(e.a, x))
       [] e.op = "prf"  -> r = PRF(e.a, x, e.b)
       [] e.op = "xof"  -> r = SHAKE128(x \o <<e.a, e.b>>, 504)
       [] e.op = "hash" -> r = (CASE e.a = 0 -> H(x) [] e.a = 1 -> G(x \o y) [] e.a = 2 -> J(x \o y))
       [] e.op = "vadd" \/ e.op = "vpadd" -> LET u == Vec(x, k) v == Vec(y, k) IN isVec([i \in 0..(k-1) |-> PolyAdd(u[i], v[i])])
       [] e.op = "vdot" -> isPoly(Dot(Vec(x, k), Vec(y, k), k))
       [] e.op = "vntt" -> isVec(Each(NTT, Vec(x, k), k))
       [] e.op = "vinv" -> isVec(Each(NTTInv, Vec(x, k), k))
       [] e.op = "mat"  ->
            LET A == MatrixA(x, k)  v == Vec(y, k)
            IN isVec([i \in 0..(k-1) |-> Dot([j \in 0..(k-1) |-> IF e.b = 1 THEN A[<<j,i>>] ELSE A[<<i,j>>]], v, k)])
       [] e.op = "vcomp"   -> isVec(LET u == Vec(x, k) IN [i \in 0..(k-1) |-> Compress(e.b, u[i])])
       [] e.op = "vdecomp" -> isVec(LET u == Vec(x, k) IN [i \in 0..(k-1) |-> Decompress(e.b, u[i])])
       [] e.op = "venc" -> r = EncodeVec(e.b, Vec(x, k), k)
       [] e.op = "vdec" -> isVec(DecodeVec(e.b, x, k))
       [] e.op = "vcbd" -> isVec(CbdVec(e.b, x, e.s, k))
       [] OTHER -> FALSE

Step ==
  /\ cur <= Len(Ev)
  /\ Ev[cur].out = "ok"
  /\ Pure(InternalOk, Ev[cur])
  /\ cur' = cur + 1
  /\ UNCHANGED tr

Done == cur > Len(Ev) /\ UNCHANGED <<tr, cur>>
Next == Step \/ Done

Where == [trace |-> Traces[tr].id, event |-> cur,
          line |-> IF cur <= Len(Ev) THEN Ev[cur].n ELSE 0,
          op |-> IF cur <= Len(Ev) THEN Ev[cur].op ELSE "end"]
=============================================================================
