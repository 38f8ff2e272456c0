-------------------------------- MODULE BLex --------------------------------
(***************************************************************************)
(* Lexical structure of B as implemented by blang: a source file is a      *)
(* sequence of bytes; Lex maps it to a sequence of tokens formed by the    *)
(* longest match, with white space and comments dropped.                   *)
(*                                                                         *)
(* A token is <<kind, text, word, bytes>>:                                 *)
(*   <<"id", name, _, _>>    identifier                                    *)
(*   <<"kw", name, _, _>>    keyword                                       *)
(*   <<"op", text, _, _>>    operator or punctuation                       *)
(*   <<"num", _, w, _>>      number                                        *)
(*   <<"chr", _, w, _>>      character constant                            *)
(*   <<"str", _, _, b>>      string, without the final NUL                 *)
(*   <<"eof", "", _, _>>     end of file, several times so that a parser   *)
(*                           may look ahead                                *)
(*   <<"bad", why, _, _>>    not a token: the program is malformed         *)
(*   <<"any", why, _, _>>    the language leaves the meaning open          *)
(***************************************************************************)
EXTENDS Word64, TLC

Keywords == {"auto", "extrn", "if", "else", "while", "switch", "case",
             "goto", "return"}

LOCAL Blank == {9, 10, 11, 12, 13, 32}
LOCAL Digit == 48..57
LOCAL IdStart == (65..90) \cup (97..122) \cup {95}
LOCAL IdChar == IdStart \cup Digit

\* Names become strings, so that the rest of the specification is readable
LOCAL CharName ==
  [c \in IdChar |->
     CASE c = 95 -> "_"
       [] c \in Digit -> ToString(c - 48)
       [] c \in 65..90 -> <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
            "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[c - 64]
       [] c \in 97..122 -> <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
            "n","o","p","q","r","s","t","u","v","w","x","y","z">>[c - 96]]

LOCAL Tok(kind, text, word, bytes) == <<kind, text, word, bytes>>
LOCAL Bad(why) == Tok("bad", why, WZero, <<>>)
LOCAL Open(why) == Tok("any", why, WZero, <<>>)
LOCAL Op(text) == Tok("op", text, WZero, <<>>)
Eof == Tok("eof", "", WZero, <<>>)
LOCAL EndMark == <<Eof, Eof, Eof, Eof, Eof>>

LOCAL At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1

\* The first position from i on whose byte is not in set S
LOCAL SpanEnd(b, i, S) ==
  CHOOSE j \in i..(Len(b) + 1) : j > Len(b) \/ b[j] \notin S

\* The position after the comment whose text starts at i; 0 if it never ends
LOCAL CommentEnd(b, i) ==
  LET j == CHOOSE j \in i..Len(b) + 1 :
             j >= Len(b) \/ (b[j] = 42 /\ b[j + 1] = 47)
  IN IF j >= Len(b) THEN 0 ELSE j + 2

-----------------------------------------------------------------------------
(* Escapes in strings and character constants *)
LOCAL EscapeOf ==
  [c \in {48, 101, 42, 39, 34, 40, 41, 116, 110, 114} |->
     CASE c \in {48, 101} -> 0
       [] c = 42 -> 42
       [] c = 39 -> 39
       [] c = 34 -> 34
       [] c = 40 -> 123
       [] c = 41 -> 125
       [] c = 116 -> 9
       [] c = 110 -> 10
       [] c = 114 -> 13]

\* The bytes from i up to the closing quote q: <<ok, bytes, next position>>
RECURSIVE Quoted(_, _, _, _)
Quoted(b, i, q, acc) ==
  LET c == At(b, i) IN
  IF c = -1 THEN <<FALSE, acc, i>>
  ELSE IF c = q THEN <<TRUE, acc, i + 1>>
  ELSE IF c = 42 THEN
    IF At(b, i + 1) \in DOMAIN EscapeOf
    THEN Quoted(b, i + 2, q, Append(acc, EscapeOf[At(b, i + 1)]))
    ELSE <<FALSE, acc, i>>
  ELSE Quoted(b, i + 1, q, Append(acc, c))

LOCAL Pack(bytes) ==
  WOfBytes([k \in 1..8 |-> IF k <= Len(bytes) THEN bytes[Len(bytes) + 1 - k] ELSE 0])

\* Value of a sequence of digits; base 8 after a leading zero
LOCAL NumVal(b, i, j) ==
  LET base == WFrom(IF b[i] = 48 THEN 8 ELSE 10)
  IN FoldLeft(LAMBDA acc, d : WAdd(WMul(acc, base), WFrom(d - 48)), WZero,
              SubSeq(b, i, j - 1))
\* Numbers of more than 64 bits are left open; a number of 64 bits is the word
\* of these bits.  (In base 8 the digits 8 and 9 count eight and nine, as in the
\* B manuals: 08 is 010.)
LOCAL NumOpen(b, i, j) ==
  LET f == SpanEnd(b, i, {48})
      n == j - f                            \* digits after leading zeros
  IN IF b[i] = 48
     THEN n > 22 \/ (n = 22 /\ (b[f] > 49 \/ \E k \in i..(j - 1) : b[k] > 55))
     \* (from 10^19 to 2 * 10^19, what exceeds 2^64 wraps to less than 2^63)
     ELSE n > 20 \/ (n = 20 /\ (b[f] > 49 \/ ~WNegative(NumVal(b, i, j))))

-----------------------------------------------------------------------------
(* Operators, longest first *)
LOCAL ThreeAt(b, i) ==
  LET c == At(b, i)  d == At(b, i + 1)  e == At(b, i + 2) IN
  CASE c = 61 /\ d = 61 /\ e = 61 -> "==="
    [] c = 61 /\ d = 33 /\ e = 61 -> "=!="
    [] c = 61 /\ d = 60 /\ e = 61 -> "=<="
    [] c = 61 /\ d = 60 /\ e = 60 -> "=<<"
    [] c = 61 /\ d = 62 /\ e = 61 -> "=>="
    [] c = 61 /\ d = 62 /\ e = 62 -> "=>>"
    [] OTHER -> ""
LOCAL TwoAt(b, i) ==
  LET c == At(b, i)  d == At(b, i + 1) IN
  CASE c = 61 /\ d = 61 -> "=="
    [] c = 61 /\ d = 43 -> "=+"
    [] c = 61 /\ d = 45 -> "=-"
    [] c = 61 /\ d = 42 -> "=*"
    [] c = 61 /\ d = 47 /\ At(b, i + 2) # 42 -> "=/"
    [] c = 61 /\ d = 37 -> "=%"
    [] c = 61 /\ d = 38 -> "=&"
    [] c = 61 /\ d = 124 -> "=|"
    [] c = 61 /\ d = 60 -> "=<"
    [] c = 61 /\ d = 62 -> "=>"
    [] c = 33 /\ d = 61 -> "!="
    [] c = 60 /\ d = 60 -> "<<"
    [] c = 60 /\ d = 61 -> "<="
    [] c = 62 /\ d = 62 -> ">>"
    [] c = 62 /\ d = 61 -> ">="
    [] c = 43 /\ d = 43 -> "++"
    [] c = 45 /\ d = 45 -> "--"
    [] OTHER -> ""
LOCAL OneAt(b, i) ==
  LET c == At(b, i) IN
  CASE c = 40 -> "("  [] c = 41 -> ")"  [] c = 91 -> "["  [] c = 93 -> "]"
    [] c = 123 -> "{" [] c = 125 -> "}" [] c = 44 -> ","  [] c = 59 -> ";"
    [] c = 58 -> ":"  [] c = 63 -> "?"  [] c = 33 -> "!"  [] c = 61 -> "="
    [] c = 43 -> "+"  [] c = 45 -> "-"  [] c = 42 -> "*"  [] c = 47 -> "/"
    [] c = 37 -> "%"  [] c = 38 -> "&"  [] c = 124 -> "|" [] c = 60 -> "<"
    [] c = 62 -> ">"
    [] OTHER -> ""

AssignOps == {"=", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<", "=<=",
              "=<<", "=>", "=>=", "=>>", "=!=", "==="}

LOCAL PunctStart == {33, 37, 38, 40, 41, 42, 43, 44, 45, 47, 58, 59, 60, 61, 62,
                     63, 91, 93, 123, 124, 125}

\* The token at i (not a blank, not a comment): <<token, next position>>
LOCAL TokenAt(b, i) ==
  LET c == b[i] IN
  IF c \in IdStart THEN
    LET j == SpanEnd(b, i, IdChar)
        name == FoldLeft(LAMBDA s, ch : s \o CharName[ch], "", SubSeq(b, i, j - 1))
    IN <<Tok(IF name \in Keywords THEN "kw" ELSE "id", name, WZero, <<>>), j>>
  ELSE IF c \in Digit THEN
    LET j == SpanEnd(b, i, Digit)
    IN <<IF NumOpen(b, i, j) THEN Open("number") ELSE Tok("num", "", NumVal(b, i, j), <<>>), j>>
  ELSE IF c \in PunctStart THEN
    LET three == ThreeAt(b, i)
        two == TwoAt(b, i)
    IN IF three # "" THEN <<Op(three), i + 3>>
       ELSE IF two # "" THEN <<Op(two), i + 2>>
       ELSE <<Op(OneAt(b, i)), i + 1>>
  ELSE IF c = 39 THEN
    LET q == Quoted(b, i + 1, 39, <<>>)
    IN IF ~q[1] \/ Len(q[2]) > 8 THEN <<Bad("character constant"), Len(b) + 1>>
       ELSE IF q[2] = <<>> THEN <<Open("empty character constant"), q[3]>>
       ELSE <<Tok("chr", "", Pack(q[2]), <<>>), q[3]>>
  ELSE IF c = 34 THEN
    LET q == Quoted(b, i + 1, 34, <<>>)
    IN IF ~q[1] THEN <<Bad("string"), Len(b) + 1>>
       ELSE <<Tok("str", "", WZero, q[2]), q[3]>>
  ELSE IF c >= 128 THEN <<Open("byte outside ASCII"), i + 1>>
  ELSE <<Bad("character"), i + 1>>

\* One step: skip blanks or a comment at position s.i, or take a token
LOCAL LexStep(b, s) ==
  IF s.i > Len(b) THEN s
  ELSE IF b[s.i] \in Blank THEN [s EXCEPT !.i = SpanEnd(b, s.i, Blank)]
  ELSE IF b[s.i] = 47 /\ At(b, s.i + 1) = 42 THEN
    LET e == CommentEnd(b, s.i + 2)
    IN IF e = 0 THEN [i |-> Len(b) + 1, toks |-> Append(s.toks, Bad("comment"))]
       ELSE [s EXCEPT !.i = e]
  ELSE LET t == TokenAt(b, s.i) IN [i |-> t[2], toks |-> Append(s.toks, t[1])]

\* (every step consumes at least one byte)
Lex(b) ==
  FoldLeft(LAMBDA s, k : LexStep(b, s), [i |-> 1, toks |-> <<>>], b).toks \o EndMark
=============================================================================
