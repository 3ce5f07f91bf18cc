------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* A buffered sampler of uniform coefficients refines Algorithm 7 of FIPS 203. *)
(*                                                                         *)
(* The stream is a sequence of triples of bytes; a triple holds two 12-bit    *)
(* candidates, each below q (taken) or not.  The standard takes candidates in  *)
(* order and keeps those below q until it has Need of them (`Kept`).  An       *)
(* implementation reads Buf triples at a time, hands out one coefficient per   *)
(* call, and keeps the second candidate of a triple for the next call.         *)
(*                                                                         *)
(* A candidate is identified with its number in the stream, so that losing,    *)
(* repeating and reordering candidates are all visible in `out`.               *)
(*                                                                         *)
(* Every pattern of rejections is explored for small Need and Buf.  With the    *)
(* implementation's numbers the module generates streams (`Mood` varies the     *)
(* density of rejections from buffer to buffer); what the real sampler makes    *)
(* of them is checked by InternalTrace.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS
  Need,      \* coefficients wanted
  Buf,       \* triples read at a time
  Longest,   \* bound on the triples of a stream
  Recording  \* print every stream when it is used up

VARIABLES
  tape,   \* the triples met so far: <<first candidate taken?, second?>>
  mood,   \* which triples the stream delivers at present
  start,  \* triples of the buffer used up
  fills,  \* how often the buffer was filled
  next,   \* a candidate kept for the next call (0: none)
  out     \* the coefficients handed out
vars == <<tape, mood, start, fills, next, out>>

Pairs == {<<x, y>> : x, y \in BOOLEAN}
Moods == [any |-> Pairs, all |-> {<<TRUE, TRUE>>}, none |-> {<<FALSE, FALSE>>},
          first |-> {<<TRUE, FALSE>>}, second |-> {<<FALSE, TRUE>>}, one |-> {<<TRUE, FALSE>>, <<FALSE, TRUE>>},
          most |-> Pairs \ {<<FALSE, FALSE>>}]

\* the numbers of the candidates that the standard keeps of the first n triples
RECURSIVE Kept(_, _)
Kept(t, n) == IF n = 0 THEN <<>>
              ELSE Kept(t, n - 1) \o (IF t[n][1] THEN <<2 * n - 1>> ELSE <<>>) \o (IF t[n][2] THEN <<2 * n>> ELSE <<>>)

Init == tape = <<>> /\ mood \in (IF Recording THEN DOMAIN Moods ELSE {"any"}) /\ start = 0 /\ fills = 1 /\ next = 0 /\ out = <<>>

\* a call that finds a kept candidate
FromKept ==
  /\ next # 0 /\ Len(out) < Need
  /\ out' = Append(out, next) /\ next' = 0
  /\ UNCHANGED <<tape, mood, start, fills>>

Refill ==
  /\ next = 0 /\ Len(out) < Need /\ start = Buf
  /\ start' = 0 /\ fills' = fills + 1
  /\ mood' \in (IF Recording THEN DOMAIN Moods ELSE {mood})
  /\ UNCHANGED <<tape, next, out>>

\* a triple that yields two, one or no coefficient
Triple ==
  /\ next = 0 /\ Len(out) < Need /\ start < Buf /\ Len(tape) < Longest
  /\ \E p \in Moods[mood] :
       LET n == Len(tape) + 1
       IN /\ tape' = Append(tape, p)
          /\ out' = IF p[1] THEN Append(out, 2 * n - 1) ELSE IF p[2] THEN Append(out, 2 * n) ELSE out
          /\ next' = IF p[1] /\ p[2] THEN 2 * n ELSE 0
  /\ start' = start + 1
  /\ UNCHANGED <<mood, fills>>

Full == Len(out) = Need
Stop == ~Recording /\ Full /\ UNCHANGED vars
Next == FromKept \/ Refill \/ Triple \/ Stop

-----------------------------------------------------------------------------
\* nothing lost, repeated, reordered or invented, at every moment
Faithful == (IF next = 0 THEN out ELSE Append(out, next)) = Kept(tape, Len(tape))
\* the result is the first Need candidates that the standard keeps
Exact == Full => out = SubSeq(Kept(tape, Len(tape)), 1, Need)
\* the stream is read in order, without gaps, and no further than one buffer
Position == Len(tape) = Buf * (fills - 1) + start
\* the sampler is stuck only when the stream ends
Progress == (~Full /\ Len(tape) < Longest) => ENABLED Next
TypeOK == start \in 0..Buf /\ Len(out) <= Need /\ Len(tape) <= Longest

\* the standard itself as a machine that takes one candidate at a time
Std == INSTANCE SampleNTT WITH taken <- out, at <- (IF next = 0 THEN 2 * Len(tape) ELSE next - 1)
Refines == Std!Spec

Spec == Init /\ [][Next]_vars

\* simulation: the stream, two bits per triple
Dump == (Recording /\ Full) => PrintT("STREAM " \o ToJson([i \in 1..Len(tape) |-> (IF tape[i][1] THEN 2 ELSE 0) + (IF tape[i][2] THEN 1 ELSE 0)]))
=============================================================================
