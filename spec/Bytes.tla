------------------------------- MODULE Bytes -------------------------------
(* Byte strings, and their hexadecimal form in recorded traces.             *)
EXTENDS Integers, Sequences, TLC

LOCAL HexDigits == "0123456789abcdef"
LOCAL HexVal(c) == CHOOSE i \in 0..15 : SubSeq(HexDigits, i + 1, i + 1) = c

\* the bytes that a hexadecimal string denotes
BytesDef(s) == [i \in 1..(Len(s) \div 2) |->
                  16 * HexVal(SubSeq(s, 2*i - 1, 2*i - 1)) + HexVal(SubSeq(s, 2*i, 2*i))]
Bytes(s) == TLCEval(BytesDef(s))

RECURSIVE XorBits(_, _, _)
XorBits(a, b, n) == IF n = 0 THEN 0
                    ELSE ((a + b) % 2) + 2 * XorBits(a \div 2, b \div 2, n - 1)
XorByte(a, b) == XorBits(a, b, 8)

\* pt = <<pos, val, pos, val, ...>> with 0-based positions
RECURSIVE PatchedDef(_, _)
PatchedDef(B, pt) ==
  IF pt = <<>> THEN B
  ELSE PatchedDef([B EXCEPT ![pt[1] + 1] = XorByte(@, pt[2])], SubSeq(pt, 3, Len(pt)))

Patched(B, pt) == PatchedDef(B, pt)

\* len bytes of src from off2 written over B at off (0-based)
Spliced(B, off, len, src, off2) ==
  TLCEval([i \in 1..Len(B) |-> IF i > off /\ i <= off + len THEN src[i - off + off2] ELSE B[i]])
=============================================================================
