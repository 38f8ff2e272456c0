------------------------------ MODULE BLayout ------------------------------
(***************************************************************************)
(* Layout: what white space and comments may change.                       *)
(*                                                                         *)
(* A layout of a token sequence is the sequence with a gap before every    *)
(* token and at the end.  Edit is the transition that changes one gap; it  *)
(* is meaning preserving when the token sequence read back is the same.    *)
(*                                                                         *)
(* Two uses.  (1) As a model of its own (SpecPairs): over one text of      *)
(* every token shape and all gaps, Neutral says that a non-empty gap never *)
(* changes the tokens, and Munch that joining two texts yields either the  *)
(* same two tokens or a longer first token.  (2) As conformance of layouts *)
(* of real programs (SpecCases): layouts.json holds base programs, with    *)
(* whether the compiler accepted each and the digest of its translation,   *)
(* and variants of them with the same; for a variant that reads back as    *)
(* the base's tokens, acceptance has to be the same ("verdict"); a         *)
(* translation that is not the same is reported so that its program is run *)
(* ("run"); variants with other tokens are programs of their own ("new").  *)
(***************************************************************************)
EXTENDS BLex, Json

VARIABLES n, res
vars == <<n, res>>

-----------------------------------------------------------------------------
(* (1) *)
\* One text for every kind of token; the bytes of: a _b1 if else auto extrn
\* switch case goto return while 0 17 'c' '*'' "s" "*"" and all operators
Texts == JsonDeserialize("texts.json")
Gaps == JsonDeserialize("gaps.json")

LOCAL Body(b) == LET t == Lex(b) IN SubSeq(t, 1, Len(t) - 5)

InitPairs == n \in (1..Len(Texts)) \X (1..Len(Texts)) /\ res = "pair"
NextPairs == UNCHANGED vars
SpecPairs == InitPairs /\ [][NextPairs]_vars

Single == \A i \in 1..Len(Texts) : Len(Body(Texts[i])) = 1
Neutral ==
  LET a == Texts[n[1]]  b == Texts[n[2]] IN
  \A g \in 1..Len(Gaps) :
     \* (a slash before a comment would begin one by itself)
     (a = <<47>> /\ Gaps[g][1] = 47) \/ (a = <<61>> /\ Gaps[g][1] = 47 /\ Gaps[g][2] # 42) \/
     Body(a \o Gaps[g] \o b) = Body(a) \o Body(b)
Munch ==
  LET a == Texts[n[1]]  b == Texts[n[2]]
      j == Body(a \o b) IN
  \/ j = Body(a) \o Body(b)
  \/ Len(j) < 2 \/ Head(j)[1] \in {"bad", "any"} \/ Head(j) # Head(Body(a))

-----------------------------------------------------------------------------
(* (2) *)
Data == JsonDeserialize("layouts.json")

\* The bases are read once
BaseTokens == TLCEval([i \in 1..Len(Data.bases) |-> Lex(Data.bases[i].text)])

\* A variant replaces the bytes of a base after from, up to to, by ins
Edited(b, v) == SubSeq(b, 1, v.from) \o v.ins \o SubSeq(b, v.to + 1, Len(b))

InitCases == n \in 1..Len(Data.variants) /\ res = "todo"
Judge ==
  LET v == Data.variants[n]
      b == Data.bases[v.base]
  IN IF Lex(Edited(b.text, v)) # BaseTokens[v.base] THEN "new"
     ELSE IF v.ok # b.ok THEN "verdict"
     ELSE IF v.ir # b.ir THEN "run"
     ELSE "same"
NextCases ==
  /\ res = "todo"
  /\ res' = Judge
  /\ IF res' = "same" THEN TRUE ELSE PrintT("LAYOUT " \o ToString(n) \o " " \o res')
  /\ UNCHANGED n
SpecCases == InitCases /\ [][NextCases]_vars
=============================================================================
