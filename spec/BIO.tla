-------------------------------- MODULE BIO --------------------------------
(***************************************************************************)
(* Histories of calls of the runtime library, abstractly: which stream a   *)
(* call writes to, and which part of the input it consumes.  All histories *)
(* with MaxLen calls are enumerated and handed to the harness, which makes *)
(* programs of them with arguments of its own; BMachine predicts the bytes.*)
(*                                                                         *)
(* An output call is the number of the kind of call (the harness has as    *)
(* many renderings for it as it likes), "F0" and "F1" set fout.  Kinds     *)
(* in Direct name their stream themselves (nwrite).  An input call is      *)
(* "r" (read), a number (nread of at most that many bytes) or a call       *)
(* in Other (char, lchar, nread of a bad file, nread elsewhere).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,           \* calls in a history
          Printing,         \* kinds of calls that print through fout
          Direct,           \* kinds of calls that print to a stream they name
          Silent,           \* kinds that print nothing
          Counts,           \* counts for nread
          Lengths,          \* lengths of the input
          Other             \* input calls that consume nothing

VARIABLES hist,             \* the calls so far
          fout,             \* stream selected: 0 or 1
          wrote,            \* what was written: <<stream or "own", number of the call>>
          len, pos,         \* length of the input, bytes consumed
          got               \* per call: bytes consumed, and end of input seen?

vars == <<hist, fout, wrote, len, pos, got>>

OutCalls == Printing \cup Direct \cup Silent \cup {"F0", "F1"}
InCalls == (IF Lengths = {0} THEN {} ELSE {"r"}) \cup {ToString(k) : k \in Counts} \cup Other
Min(a, b) == IF a < b THEN a ELSE b

Init == hist = <<>> /\ fout = 0 /\ wrote = <<>> /\ len \in Lengths /\ pos = 0 /\ got = <<>>

Output(c) ==
  /\ c \in OutCalls
  /\ hist' = Append(hist, c)
  /\ fout' = IF c = "F0" THEN 0 ELSE IF c = "F1" THEN 1 ELSE fout
  /\ wrote' = IF c \in Printing THEN Append(wrote, <<fout, Len(hist) + 1>>)
              ELSE IF c \in Direct THEN Append(wrote, <<2, Len(hist) + 1>>) ELSE wrote
  /\ UNCHANGED <<len, pos, got>>

Input(c) ==
  /\ c \in InCalls
  /\ hist' = Append(hist, c)
  /\ LET k == IF c = "r" THEN Min(1, len - pos)
              ELSE IF c \in Other THEN 0
                 ELSE Min(CHOOSE k \in Counts : ToString(k) = c, len - pos)
     IN pos' = pos + k /\ got' = Append(got, k)
  /\ UNCHANGED <<fout, wrote, len>>

Next == Len(hist) < MaxLen /\ \E c \in OutCalls \cup InCalls : Output(c) \/ Input(c)

InputNext == Len(hist) < MaxLen /\ \E c \in InCalls : Input(c)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every call that prints printed once, in order, to the stream selected by the
\* last change of fout before it
Selected(i) ==
  LET s == {j \in 1..(i - 1) : hist[j] \in {"F0", "F1"}} IN
  IF s = {} THEN 0
  ELSE IF hist[CHOOSE j \in s : \A k \in s : k <= j] = "F0" THEN 0 ELSE 1

InOrder == \A i, j \in DOMAIN wrote : i < j => wrote[i][2] < wrote[j][2]
NothingLost ==
  {wrote[i][2] : i \in DOMAIN wrote} = {i \in DOMAIN hist : hist[i] \in Printing \cup Direct}
ToItsStream ==
  \A i \in DOMAIN wrote : hist[wrote[i][2]] \in Printing => wrote[i][1] = Selected(wrote[i][2])

\* The input is consumed once, front to back, by whatever call
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Consumed == pos = Sum(got) /\ pos <= len
EndStays == \A i, j \in DOMAIN got : (i < j /\ hist[i] = "r" /\ got[i] = 0) => got[j] = 0

Emit == Len(hist) = MaxLen => PrintT("IO " \o ToJson([h |-> hist, len |-> len]))
=============================================================================
