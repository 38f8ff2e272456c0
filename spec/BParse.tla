------------------------------- MODULE BParse -------------------------------
(***************************************************************************)
(* Grammar of B as implemented by blang, as a recursive-descent recognizer *)
(* over tokens that yields an abstract syntax tree.                        *)
(*                                                                         *)
(* Every parsing operator P(t, p) takes the tokens t and a position p and  *)
(* yields <<"ok", tree, next>>, <<"err", why, p>> when there is no such    *)
(* phrase at p, or <<"any", why, p>> when the language leaves open whether *)
(* there is one.                                                           *)
(*                                                                         *)
(* Expressions (the first component names the kind):                       *)
(*   num w | str bytes | name n | call f args | index b i | deref e        *)
(*   addr e | neg e | not e | pre d e | post d e | bin op a b              *)
(*   asg op lv e | cond c a b | paren e                                    *)
(* Statements:                                                             *)
(*   block ss | null | expr e | if c s t | ifelse | while c s | switch e s *)
(*   case w s | label n s | goto n | return | returnv e                    *)
(*   auto decls | extrn names                                              *)
(* Definitions:                                                            *)
(*   fun name params body | var name vals | vec name size vals             *)
(***************************************************************************)
EXTENDS BLex

LOCAL Ok(tree, p) == <<"ok", tree, p>>
LOCAL Err(why, p) == <<"err", why, p>>
LOCAL Opn(why, p) == <<"any", why, p>>
LOCAL IsOp(t, p, text) == t[p][1] = "op" /\ t[p][2] = text
LOCAL IsKw(t, p, text) == t[p][1] = "kw" /\ t[p][2] = text
LOCAL IsId(t, p) == t[p][1] = "id"

\* What to report for an unexpected token at p
LOCAL Unexpected(t, p, why) ==
  IF t[p][1] = "any" THEN Opn(t[p][2], p) ELSE Err(why, p)

\* Continue with token text at p, or fail
LOCAL Need(t, p, text, node) ==
  IF IsOp(t, p, text) THEN Ok(node, p + 1) ELSE Unexpected(t, p, "expected " \o text)

Prec == [op \in {"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=",
                 "==", "!=", "&", "|"} |->
           CASE op \in {"*", "/", "%"} -> 7
             [] op \in {"+", "-"} -> 6
             [] op \in {"<<", ">>"} -> 5
             [] op \in {"<", "<=", ">", ">="} -> 4
             [] op \in {"==", "!="} -> 3
             [] op = "&" -> 2
             [] op = "|" -> 1]
LOCAL BinaryAt(t, p, min) ==
  t[p][1] = "op" /\ t[p][2] \in DOMAIN Prec /\ Prec[t[p][2]] >= min

\* Is the tree something that can be assigned to (names are judged later)?
LOCAL LvalueShape(e) == e[1] \in {"name", "deref", "index"}

RECURSIVE PExpr(_, _), PCond(_, _), PBinary(_, _, _), PBinaryRest(_, _, _, _),
          PUnary(_, _), PPostfix(_, _, _), PArgs(_, _, _)

PExpr(t, p) ==
  LET l == PCond(t, p) IN
  IF l[1] # "ok" THEN l
  ELSE IF t[l[3]][1] = "op" /\ t[l[3]][2] \in AssignOps THEN
    IF l[2][1] = "pre" THEN Opn("assignment to ++x", l[3])
    ELSE IF ~LvalueShape(l[2]) THEN Err("not an lvalue", l[3])
    ELSE LET r == PExpr(t, l[3] + 1) IN
         IF r[1] # "ok" THEN r
         ELSE Ok(<<"asg", t[l[3]][2], l[2], r[2]>>, r[3])
  ELSE l

PCond(t, p) ==
  LET c == PBinary(t, p, 1) IN
  IF c[1] # "ok" \/ ~IsOp(t, c[3], "?") THEN c
  ELSE LET a == PBinary(t, c[3] + 1, 1) IN
       IF a[1] # "ok" THEN a
       ELSE IF IsOp(t, a[3], "?") \/ (t[a[3]][1] = "op" /\ t[a[3]][2] \in AssignOps)
            THEN Opn("conditional or assignment between ? and :", a[3])
       ELSE IF ~IsOp(t, a[3], ":") THEN Unexpected(t, a[3], "expected :")
       ELSE LET b == PCond(t, a[3] + 1) IN
            IF b[1] # "ok" THEN b ELSE Ok(<<"cond", c[2], a[2], b[2]>>, b[3])

PBinary(t, p, min) ==
  LET l == PUnary(t, p) IN
  IF l[1] # "ok" THEN l ELSE PBinaryRest(t, l[3], min, l[2])

PBinaryRest(t, p, min, left) ==
  IF ~BinaryAt(t, p, min) THEN Ok(left, p)
  ELSE LET op == t[p][2]
           r == PBinary(t, p + 1, Prec[op] + 1)
       IN IF r[1] # "ok" THEN r
          ELSE PBinaryRest(t, r[3], min, <<"bin", op, left, r[2]>>)

PUnary(t, p) ==
  LET op == IF t[p][1] = "op" THEN t[p][2] ELSE "" IN
  IF op \in {"!", "-", "*", "&", "++", "--"} THEN
    LET e == PUnary(t, p + 1) IN
    IF e[1] # "ok" THEN e
    ELSE CASE op = "!" -> Ok(<<"not", e[2]>>, e[3])
           [] op = "-" -> Ok(<<"neg", e[2]>>, e[3])
           [] op = "*" -> Ok(<<"deref", e[2]>>, e[3])
           [] op \in {"&", "++", "--"} ->
                IF e[2][1] = "pre" THEN Opn("++x as an operand of & ++ --", p)
                ELSE IF ~LvalueShape(e[2]) THEN Err("not an lvalue", p)
                ELSE IF op = "&" THEN Ok(<<"addr", e[2]>>, e[3])
                ELSE Ok(<<"pre", op, e[2]>>, e[3])
  ELSE CASE t[p][1] \in {"num", "chr"} -> PPostfix(t, p + 1, <<"num", t[p][3]>>)
         [] t[p][1] = "str" -> PPostfix(t, p + 1, <<"str", t[p][4]>>)
         [] t[p][1] = "id" -> PPostfix(t, p + 1, <<"name", t[p][2]>>)
         [] op = "(" ->
              LET e == PExpr(t, p + 1) IN
              IF e[1] # "ok" THEN e
              ELSE IF ~IsOp(t, e[3], ")") THEN Unexpected(t, e[3], "expected )")
              ELSE PPostfix(t, e[3] + 1, <<"paren", e[2]>>)
         [] OTHER -> Unexpected(t, p, "expected expression")

PPostfix(t, p, left) ==
  LET op == IF t[p][1] = "op" THEN t[p][2] ELSE "" IN
  CASE op = "[" ->
         LET e == PExpr(t, p + 1) IN
         IF e[1] # "ok" THEN e
         ELSE IF ~IsOp(t, e[3], "]") THEN Unexpected(t, e[3], "expected ]")
         ELSE PPostfix(t, e[3] + 1, <<"index", left, e[2]>>)
    [] op = "(" ->
         IF IsOp(t, p + 1, ")") THEN PPostfix(t, p + 2, <<"call", left, <<>>>>)
         ELSE LET a == PArgs(t, p + 1, <<>>) IN
              IF a[1] # "ok" THEN a
              ELSE PPostfix(t, a[3], <<"call", left, a[2]>>)
    [] op \in {"++", "--"} ->
         IF ~LvalueShape(left) THEN Err("not an lvalue", p)
         ELSE PPostfix(t, p + 1, <<"post", op, left>>)
    [] OTHER -> Ok(left, p)

PArgs(t, p, acc) ==
  LET e == PExpr(t, p) IN
  IF e[1] # "ok" THEN e
  ELSE LET acc2 == Append(acc, e[2]) IN
       IF IsOp(t, e[3], ",") THEN PArgs(t, e[3] + 1, acc2)
       ELSE IF IsOp(t, e[3], ")") THEN Ok(acc2, e[3] + 1)
       ELSE Unexpected(t, e[3], "expected , or )")

-----------------------------------------------------------------------------
RECURSIVE PStmt(_, _), PBlock(_, _, _), PAuto(_, _, _), PExtrn(_, _, _)

LOCAL PParenExpr(t, p) ==
  IF ~IsOp(t, p, "(") THEN Unexpected(t, p, "expected (")
  ELSE LET e == PExpr(t, p + 1) IN
       IF e[1] # "ok" THEN e ELSE Need(t, e[3], ")", e[2])

PStmt(t, p) ==
  LET kw == IF t[p][1] = "kw" THEN t[p][2] ELSE "" IN
  CASE IsOp(t, p, "{") -> PBlock(t, p + 1, <<>>)
    [] IsOp(t, p, ";") -> Ok(<<"null">>, p + 1)
    [] kw = "return" ->
         IF IsOp(t, p + 1, ";") THEN Ok(<<"return">>, p + 2)
         ELSE LET e == PParenExpr(t, p + 1) IN
              IF e[1] # "ok" THEN e ELSE Need(t, e[3], ";", <<"returnv", e[2]>>)
    [] kw = "auto" -> PAuto(t, p + 1, <<>>)
    [] kw = "extrn" -> PExtrn(t, p + 1, <<>>)
    [] kw = "if" ->
         LET e == PParenExpr(t, p + 1) IN
         IF e[1] # "ok" THEN e
         ELSE LET s == PStmt(t, e[3]) IN
              IF s[1] # "ok" THEN s
              ELSE IF ~IsKw(t, s[3], "else") THEN Ok(<<"if", e[2], s[2]>>, s[3])
              ELSE LET r == PStmt(t, s[3] + 1) IN
                   IF r[1] # "ok" THEN r
                   ELSE Ok(<<"ifelse", e[2], s[2], r[2]>>, r[3])
    [] kw = "while" ->
         LET e == PParenExpr(t, p + 1) IN
         IF e[1] # "ok" THEN e
         ELSE LET s == PStmt(t, e[3]) IN
              IF s[1] # "ok" THEN s ELSE Ok(<<"while", e[2], s[2]>>, s[3])
    [] kw = "switch" ->
         LET e == PExpr(t, p + 1) IN
         IF e[1] # "ok" THEN e
         ELSE LET s == PStmt(t, e[3]) IN
              IF s[1] # "ok" THEN s ELSE Ok(<<"switch", e[2], s[2]>>, s[3])
    [] kw = "case" ->
         IF IsOp(t, p + 1, "-") THEN Opn("negative case", p)
         ELSE IF t[p + 1][1] \notin {"num", "chr"} THEN Unexpected(t, p + 1, "expected constant")
         ELSE IF ~IsOp(t, p + 2, ":") THEN Unexpected(t, p + 2, "expected :")
         ELSE LET s == PStmt(t, p + 3) IN
              IF s[1] # "ok" THEN s ELSE Ok(<<"case", t[p + 1][3], s[2]>>, s[3])
    [] kw = "goto" ->
         IF ~IsId(t, p + 1) THEN Unexpected(t, p + 1, "expected label")
         ELSE Need(t, p + 2, ";", <<"goto", t[p + 1][2]>>)
    [] IsId(t, p) /\ IsOp(t, p + 1, ":") ->
         LET s == PStmt(t, p + 2) IN
         IF s[1] # "ok" THEN s ELSE Ok(<<"label", t[p][2], s[2]>>, s[3])
    [] OTHER ->
         LET e == PExpr(t, p) IN
         IF e[1] # "ok" THEN e ELSE Need(t, e[3], ";", <<"expr", e[2]>>)

PBlock(t, p, acc) ==
  IF IsOp(t, p, "}") THEN Ok(<<"block", acc>>, p + 1)
  ELSE LET s == PStmt(t, p) IN
       IF s[1] # "ok" THEN s ELSE PBlock(t, s[3], Append(acc, s[2]))

\* auto declarations: <<name, words>>, words = -1 for a scalar.  Sizes are
\* words of the machine; the caller limits what it is prepared to model.
PAuto(t, p, acc) ==
  IF ~IsId(t, p) THEN Unexpected(t, p, "expected name")
  ELSE LET sized == IsOp(t, p + 1, "[")
           empty == sized /\ IsOp(t, p + 2, "]")
           const == sized /\ t[p + 2][1] \in {"num", "chr"} /\ IsOp(t, p + 3, "]")
           next == IF empty THEN p + 3 ELSE IF const THEN p + 4 ELSE p + 1
           size == IF ~sized THEN -1
                   ELSE IF empty THEN 0
                   ELSE IF WSmall(t[p + 2][3]) /\ ~WNegative(t[p + 2][3])
                        THEN WInt(t[p + 2][3]) ELSE -2
           acc2 == Append(acc, <<t[p][2], size>>)
       IN IF sized /\ ~empty /\ ~const
          THEN IF t[p + 2][1] \in {"num", "chr"} THEN Unexpected(t, p + 3, "expected ]")
               ELSE Unexpected(t, p + 2, "expected size")
          ELSE IF size = -2 \/ size > 100000 THEN Opn("huge vector", p)
          ELSE IF IsOp(t, next, ";") THEN Ok(<<"auto", acc2>>, next + 1)
          ELSE IF IsOp(t, next, ",") THEN PAuto(t, next + 1, acc2)
          ELSE Unexpected(t, next, "expected , or ;")

PExtrn(t, p, acc) ==
  IF ~IsId(t, p) THEN Unexpected(t, p, "expected name")
  ELSE LET acc2 == Append(acc, t[p][2]) IN
       IF IsOp(t, p + 1, ";") THEN Ok(<<"extrn", acc2>>, p + 2)
       ELSE IF IsOp(t, p + 1, ",") THEN PExtrn(t, p + 2, acc2)
       ELSE Unexpected(t, p + 1, "expected , or ;")

-----------------------------------------------------------------------------
RECURSIVE PParams(_, _, _), PVals(_, _, _), PDefs(_, _, _)

PParams(t, p, acc) ==
  IF ~IsId(t, p) THEN Unexpected(t, p, "expected parameter")
  ELSE LET acc2 == Append(acc, t[p][2]) IN
       IF IsOp(t, p + 1, ")") THEN Ok(acc2, p + 2)
       ELSE IF IsOp(t, p + 1, ",") THEN PParams(t, p + 2, acc2)
       ELSE Unexpected(t, p + 1, "expected , or )")

\* Initial values: <<"w", word>> or <<"s", bytes>>
PVals(t, p, acc) ==
  LET neg == IsOp(t, p, "-")
      q == IF neg THEN p + 1 ELSE p
      val == CASE t[q][1] = "num" -> <<"w", IF neg THEN WNeg(t[q][3]) ELSE t[q][3]>>
               [] t[q][1] = "chr" /\ ~neg -> <<"w", t[q][3]>>
               [] t[q][1] = "str" /\ ~neg -> <<"s", t[q][4]>>
               [] OTHER -> <<"none">>
  IN IF val = <<"none">> THEN Unexpected(t, q, "expected initial value")
     ELSE IF IsOp(t, q + 1, ";") THEN Ok(Append(acc, val), q + 2)
     ELSE IF IsOp(t, q + 1, ",") THEN PVals(t, q + 2, Append(acc, val))
     ELSE Unexpected(t, q + 1, "expected , or ;")

LOCAL PDef(t, p) ==
  LET name == t[p][2] IN
  CASE IsOp(t, p + 1, "(") ->
         LET ps == IF IsOp(t, p + 2, ")") THEN Ok(<<>>, p + 3) ELSE PParams(t, p + 2, <<>>) IN
         IF ps[1] # "ok" THEN ps
         ELSE LET s == PStmt(t, ps[3]) IN
              IF s[1] # "ok" THEN s ELSE Ok(<<"fun", name, ps[2], s[2]>>, s[3])
    [] IsOp(t, p + 1, "[") ->
         LET empty == IsOp(t, p + 2, "]")
             const == t[p + 2][1] = "num" /\ IsOp(t, p + 3, "]")
             next == IF empty THEN p + 3 ELSE p + 4
             size == IF empty THEN 0 ELSE IF WSmall(t[p + 2][3]) THEN WInt(t[p + 2][3]) ELSE -2
         IN IF ~empty /\ t[p + 2][1] = "chr" THEN Opn("character constant as vector size", p)
            ELSE IF ~empty /\ t[p + 2][1] # "num" THEN Unexpected(t, p + 2, "expected size")
            ELSE IF ~empty /\ ~const THEN Unexpected(t, p + 3, "expected ]")
            ELSE IF size < 0 \/ size > 100000 THEN Opn("huge vector", p)
            ELSE IF IsOp(t, next, ";") THEN Ok(<<"vec", name, size, <<>>>>, next + 1)
            ELSE LET v == PVals(t, next, <<>>) IN
                 IF v[1] # "ok" THEN v ELSE Ok(<<"vec", name, size, v[2]>>, v[3])
    [] IsOp(t, p + 1, ";") -> Ok(<<"var", name, <<>>>>, p + 2)
    [] OTHER ->
         LET v == PVals(t, p + 1, <<>>) IN
         IF v[1] # "ok" THEN v ELSE Ok(<<"var", name, v[2]>>, v[3])

PDefs(t, p, acc) ==
  IF t[p][1] = "eof" THEN Ok(acc, p)
  ELSE IF ~IsId(t, p) THEN Unexpected(t, p, "expected definition")
  ELSE LET d == PDef(t, p) IN
       IF d[1] # "ok" THEN d ELSE PDefs(t, d[3], Append(acc, d[2]))

\* Errors can hide behind an earlier open question: whatever follows an "any"
\* token is not judged.
Parse(t) == PDefs(t, 1, <<>>)
=============================================================================
