------------------------------ MODULE BGrammar ------------------------------
(***************************************************************************)
(* The grammar as a state machine that reads one token at a time: every    *)
(* token sequence up to a length, in a context given by the tokens before  *)
(* and after it.  A sequence is viable when some continuation of it may be *)
(* well formed, which the recognizer of BParse shows by failing only at    *)
(* the end of what has been read.  The machine extends viable sequences by *)
(* every token of the alphabet; so the states are all viable sequences and *)
(* all shortest sequences that are not.  Each is emitted with the verdict  *)
(* of the whole text.                                                      *)
(***************************************************************************)
EXTENDS BParse, Json

CONSTANT MaxLen

\* [alphabet |-> <<bytes, ...>>, before |-> bytes, after |-> bytes]
In == JsonDeserialize("grammar.json")

LOCAL Body(b) == LET t == Lex(b) IN SubSeq(t, 1, Len(t) - 5)
Toks == TLCEval([i \in 1..Len(In.alphabet) |-> Body(In.alphabet[i])])
Before == TLCEval(Body(In.before))
After == TLCEval(Body(In.after))
Ends == <<Eof, Eof, Eof, Eof, Eof>>

VARIABLES seq,              \* the sequence read, as positions in the alphabet
          viable            \* may it continue?
vars == <<seq, viable>>

Text(s) == FoldLeft(LAMBDA acc, i : acc \o Toks[i], Before, s)

Viable(s) ==
  LET t == Text(s)
      r == Parse(t \o Ends)
  IN r[1] = "ok" \/ (r[1] = "err" /\ r[3] > Len(t))
Verdict(s) == Parse(Text(s) \o After \o Ends)[1]

Init == seq = <<>> /\ viable = TRUE
Read(i) ==
  /\ viable /\ Len(seq) < MaxLen
  /\ seq' = Append(seq, i)
  /\ viable' = Viable(seq')
Next == \E i \in 1..Len(Toks) : Read(i)
Spec == Init /\ [][Next]_vars

\* A sequence that is not viable is not accepted whatever follows
Sound == ~viable => Verdict(seq) # "ok"
Emit == PrintT("SEQ " \o ToJson([s |-> seq, v |-> Verdict(seq)]))
=============================================================================
