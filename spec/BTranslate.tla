----------------------------- MODULE BTranslate -----------------------------
(***************************************************************************)
(* Static meaning of B: which definitions a name denotes, which programs   *)
(* are rejected for misuse of names, labels and cases, and the code of     *)
(* every function for the abstract machine of module BMachine.             *)
(*                                                                         *)
(* The translation walks a file in text order with an environment:         *)
(*   st, why   "ok", "err" (rejected) or "any" (left open), with a reason  *)
(*   vars      names known as variables of the file                        *)
(*   fns       names known as functions: defined so far, or used           *)
(*   tent      names of vars that are so far only named in extrn           *)
(*   gdef      name -> its definition, for variables and vectors           *)
(*   fdef      name -> its translation, for functions                      *)
(*   strs      string constants of the program so far                      *)
(* and, inside a function:                                                 *)
(*   loc       local name -> slot                                          *)
(*   slots     number of slots                                             *)
(*   vecs      slots that point to vectors: slot -> words                  *)
(*   ext       names made visible by extrn                                 *)
(*   used      names used so far                                           *)
(*   nlab      number of code labels                                       *)
(*   labs      user label -> code label                                    *)
(*   defd      user labels defined                                         *)
(*   sw        enclosing switches, innermost last; each has its cases      *)
(*   direct    is the statement in the innermost switch, not in an if or   *)
(*             while inside it?                                            *)
(*                                                                         *)
(* Order: with rtl FALSE, the order of blang: operands, arguments and the   *)
(* function called are evaluated from left to right, and the old value of  *)
(* the left side of a compound assignment is fetched last.  B itself does  *)
(* not fix the order.  With rtl TRUE everything is the other way round: a  *)
(* program whose behaviour differs between the two depends on the order,   *)
(* and only checks that are about the order judge it.                      *)
(***************************************************************************)
EXTENDS BParse, FiniteSetsExt

RuntimeFns == {"write", "writeb", "printf", "printd", "printo", "nwrite",
               "nread", "read", "char", "lchar", "exit", "flush"}
RuntimeNames == RuntimeFns \cup {"fout"}

EmptyFn == [x \in {} |-> 0]

Env0(strs) ==
  [st |-> "ok", why |-> "", vars |-> {}, fns |-> {}, tent |-> {},
   gdef |-> EmptyFn, fdef |-> EmptyFn, strs |-> strs,
   loc |-> EmptyFn, slots |-> 0, vecs |-> EmptyFn, ext |-> {}, used |-> {}, nlab |-> 0,
   labs |-> EmptyFn, defd |-> {}, sw |-> <<>>, direct |-> TRUE, rtl |-> FALSE]

\* The first problem found decides, except that an open question found later
\* cannot make a rejected program acceptable
Fail(env, st, why) == IF env.st # "ok" THEN env ELSE [env EXCEPT !.st = st, !.why = why]

LOCAL R(code, env) == <<code, env>>
LOCAL NewLabel(env) == [env EXCEPT !.nlab = @ + 1]

\* The slot or global a variable name denotes, or a function
Denotes(env, n) ==
  IF n \in DOMAIN env.loc THEN "local"
  ELSE IF n \in env.ext THEN "global"
  ELSE IF n \in env.fns THEN "function"
  ELSE IF n \in env.vars THEN "hidden"
  ELSE "unknown"
\* In a call, a function hides a variable made visible by extrn; the two kinds
\* cannot share a name within a file, so the order makes no difference.

LOCAL Use(env, n) == [env EXCEPT !.used = @ \cup {n}]
LOCAL UseFn(env, n) == [env EXCEPT !.used = @ \cup {n}, !.fns = @ \cup {n}]

RECURSIVE RVal(_, _), LVal(_, _), Args(_, _, _)

\* Two operands: the code of both, in the order chosen, leaving a below b
LOCAL Two(env, ca, cb) ==
  IF env.rtl THEN cb \o ca \o <<<<"swap">>>> ELSE ca \o cb

LVal(e, env) ==
  CASE e[1] = "name" ->
         (LET d == Denotes(env, e[2]) IN
          CASE d = "local" -> R(<<<<"lea", env.loc[e[2]]>>>>, Use(env, e[2]))
            [] d = "global" -> R(<<<<"glob", e[2]>>>>, Use(env, e[2]))
            [] OTHER -> R(<<>>, Fail(env, "err", "not a variable: " \o e[2])))
    [] e[1] = "deref" -> RVal(e[2], env)
    [] e[1] = "index" ->
         (LET b == RVal(e[2], env)
              i == RVal(e[3], b[2])
          IN R(Two(env, b[1], i[1]) \o <<<<"index">>>>, i[2]))
    [] OTHER -> R(<<>>, Fail(env, "err", "not an lvalue"))

Args(as, env, i) ==
  IF i > Len(as) THEN R(<<>>, env)
  ELSE LET a == RVal(as[i], env)
           r == Args(as, a[2], i + 1)
       IN R(IF env.rtl THEN r[1] \o a[1] ELSE a[1] \o r[1], r[2])

RVal(e, env) ==
  CASE e[1] = "num" -> R(<<<<"w", e[2]>>>>, env)
    [] e[1] = "str" ->
         R(<<<<"str", Len(env.strs) + 1>>>>, [env EXCEPT !.strs = Append(@, e[2])])
    [] e[1] = "name" ->
         (LET d == Denotes(env, e[2]) IN
          CASE d \in {"local", "global"} ->
                 LET l == LVal(e, env) IN R(Append(l[1], <<"load">>), l[2])
            [] d = "hidden" -> R(<<>>, Fail(env, "err", "no extrn for " \o e[2]))
            [] OTHER -> R(<<<<"fn", e[2]>>>>, UseFn(env, e[2])))
    [] e[1] = "paren" -> RVal(e[2], env)
    [] e[1] = "call" ->
         (LET f == RVal(e[2], env)
              a == Args(e[3], f[2], 1)
              n == Len(e[3])
          IN R(f[1] \o a[1] \o
               (IF env.rtl /\ n > 1 THEN <<<<"rev", n>>>> ELSE <<>>) \o
               <<<<"call", n>>>>, a[2]))
    [] e[1] \in {"index", "deref"} ->
         (LET l == LVal(e, env) IN R(Append(l[1], <<"load">>), l[2]))
    [] e[1] = "addr" -> LVal(e[2], env)
    [] e[1] = "neg" -> (LET v == RVal(e[2], env) IN R(Append(v[1], <<"neg">>), v[2]))
    [] e[1] = "not" -> (LET v == RVal(e[2], env) IN R(Append(v[1], <<"not">>), v[2]))
    [] e[1] = "pre" ->
         (LET l == LVal(e[3], env)
          IN R(l[1] \o <<<<"pre", IF e[2] = "++" THEN 1 ELSE -1>>>>, l[2]))
    [] e[1] = "post" ->
         (LET l == LVal(e[3], env)
          IN R(l[1] \o <<<<"post", IF e[2] = "++" THEN 1 ELSE -1>>>>, l[2]))
    [] e[1] = "bin" ->
         (LET a == RVal(e[3], env)
              b == RVal(e[4], a[2])
          IN R(Two(env, a[1], b[1]) \o <<<<"bin", e[2]>>>>, b[2]))
    [] e[1] = "asg" ->
         (LET l == LVal(e[3], env)
              v == RVal(e[4], l[2])
          IN R(IF e[2] = "=" \/ ~env.rtl THEN Two(env, l[1], v[1]) \o <<<<"asg", e[2]>>>>
               ELSE l[1] \o <<<<"peek">>>> \o v[1] \o <<<<"upd", e[2]>>>>, v[2]))
    [] e[1] = "cond" ->
         (LET env1 == NewLabel(NewLabel(env))
              k == env1.nlab
              c == RVal(e[2], env1)
              a == RVal(e[3], c[2])
              b == RVal(e[4], a[2])
          IN R(c[1] \o <<<<"jz", k - 1>>>> \o a[1] \o <<<<"jmp", k>>, <<"lab", k - 1>>>> \o
               b[1] \o <<<<"lab", k>>>>, b[2]))

-----------------------------------------------------------------------------
RECURSIVE Stmt(_, _), Stmts(_, _, _), Autos(_, _, _), Extrns(_, _, _)

\* The code label of a user label
LOCAL WithLabel(env, n) ==
  IF n \in DOMAIN env.labs THEN env
  ELSE LET e2 == NewLabel(env) IN [e2 EXCEPT !.labs = @ @@ (n :> e2.nlab)]

LOCAL InSwitch(env) == env.sw # <<>>
LOCAL Top(env) == env.sw[Len(env.sw)]

\* A statement that is the body of an if or while
LOCAL Nested(s, env) ==
  LET r == Stmt(s, [env EXCEPT !.direct = FALSE])
  IN R(r[1], [r[2] EXCEPT !.direct = env.direct])

Stmt(s, env) ==
  IF env.st # "ok" THEN R(<<>>, env) ELSE
  CASE s[1] = "null" -> R(<<>>, env)
    [] s[1] = "block" -> Stmts(s[2], env, 1)
    [] s[1] = "expr" ->
         (LET v == RVal(s[2], env) IN R(Append(v[1], <<"pop">>), v[2]))
    [] s[1] = "return" -> R(<<<<"w", WZero>>, <<"ret">>>>, env)
    [] s[1] = "returnv" ->
         (LET v == RVal(s[2], env) IN R(Append(v[1], <<"ret">>), v[2]))
    [] s[1] = "auto" -> Autos(s[2], env, 1)
    [] s[1] = "extrn" -> Extrns(s[2], env, 1)
    [] s[1] = "if" ->
         (LET env1 == NewLabel(env)
              k == env1.nlab
              c == RVal(s[2], env1)
              a == Nested(s[3], c[2])
          IN R(c[1] \o <<<<"jz", k>>>> \o a[1] \o <<<<"lab", k>>>>, a[2]))
    [] s[1] = "ifelse" ->
         (LET env1 == NewLabel(NewLabel(env))
              k == env1.nlab
              c == RVal(s[2], env1)
              a == Nested(s[3], c[2])
              b == Nested(s[4], a[2])
          IN R(c[1] \o <<<<"jz", k - 1>>>> \o a[1] \o <<<<"jmp", k>>, <<"lab", k - 1>>>> \o
               b[1] \o <<<<"lab", k>>>>, b[2]))
    [] s[1] = "while" ->
         (LET env1 == NewLabel(NewLabel(env))
              k == env1.nlab
              c == RVal(s[2], env1)
              a == Nested(s[3], c[2])
          IN R(<<<<"lab", k - 1>>>> \o c[1] \o <<<<"jz", k>>>> \o a[1] \o
               <<<<"jmp", k - 1>>, <<"lab", k>>>>, a[2]))
    [] s[1] = "switch" ->
         (LET v == RVal(s[2], env)
              e1 == NewLabel(v[2])
              k == e1.nlab
              e2 == [e1 EXCEPT !.sw = Append(@, [cases |-> <<>>, default |-> 0]),
                               !.direct = TRUE]
              b == Stmt(s[3], e2)
              t == Top(b[2])
              e3 == [b[2] EXCEPT !.sw = env.sw, !.direct = env.direct]
          IN IF b[2].st # "ok" THEN b
             ELSE R(v[1] \o
                    <<<<"switch", t.cases, IF t.default = 0 THEN k ELSE t.default>>>> \o
                    b[1] \o <<<<"lab", k>>>>, e3))
    [] s[1] = "case" ->
         (IF ~InSwitch(env) THEN R(<<>>, Fail(env, "err", "case outside switch"))
          ELSE IF ~env.direct THEN R(<<>>, Fail(env, "any", "case inside if or while"))
          ELSE IF \E i \in DOMAIN Top(env).cases : Top(env).cases[i][1] = s[2]
               THEN R(<<>>, Fail(env, "err", "duplicate case"))
          ELSE LET e1 == NewLabel(env)
                   k == e1.nlab
                   e2 == [e1 EXCEPT !.sw[Len(env.sw)].cases = Append(@, <<s[2], k>>)]
                   b == Stmt(s[3], e2)
               IN R(<<<<"lab", k>>>> \o b[1], b[2]))
    [] s[1] = "label" ->
         (IF s[2] = "default" /\ InSwitch(env) THEN
            IF ~env.direct THEN R(<<>>, Fail(env, "any", "default inside if or while"))
            ELSE IF Top(env).default # 0 THEN R(<<>>, Fail(env, "err", "duplicate default"))
            ELSE LET e1 == NewLabel(env)
                     k == e1.nlab
                     b == Stmt(s[3], [e1 EXCEPT !.sw[Len(env.sw)].default = k])
                 IN R(<<<<"lab", k>>>> \o b[1], b[2])
          ELSE IF s[2] \in env.defd THEN R(<<>>, Fail(env, "err", "duplicate label"))
          ELSE LET e1 == WithLabel(env, s[2])
                   b == Stmt(s[3], [e1 EXCEPT !.defd = @ \cup {s[2]}])
               IN R(<<<<"lab", e1.labs[s[2]]>>>> \o b[1], b[2]))
    [] s[1] = "goto" ->
         (LET e1 == WithLabel(env, s[2]) IN R(<<<<"jmp", e1.labs[s[2]]>>>>, e1))

Stmts(ss, env, i) ==
  IF i > Len(ss) \/ env.st # "ok" THEN R(<<>>, env)
  ELSE LET a == Stmt(ss[i], env)
           r == Stmts(ss, a[2], i + 1)
       IN R(a[1] \o r[1], r[2])

\* A scalar takes one slot; a vector one slot for its pointer and one for its
\* words
Autos(ds, env, i) ==
  IF i > Len(ds) \/ env.st # "ok" THEN R(<<>>, env)
  ELSE LET n == ds[i][1]
           size == ds[i][2]
           k == env.slots + 1
           words == IF size = 0 THEN 1 ELSE size
           e1 == [env EXCEPT !.loc = @ @@ (n :> k),
                             !.slots = IF size < 0 THEN k ELSE k + 1,
                             !.vecs = IF size < 0 THEN @ ELSE @ @@ (k :> words)]
           r == Autos(ds, e1, i + 1)
       IN IF n \in DOMAIN env.loc THEN R(<<>>, Fail(env, "err", "local declared twice: " \o n))
          ELSE IF n \in env.used THEN R(<<>>, Fail(env, "any", "local declared after use: " \o n))
          ELSE R(<<<<"auto", k, IF size < 0 THEN 0 ELSE words>>>> \o r[1], r[2])

Extrns(ns, env, i) ==
  IF i > Len(ns) \/ env.st # "ok" THEN R(<<>>, env)
  ELSE LET n == ns[i]
           e1 == [env EXCEPT !.ext = @ \cup {n}, !.vars = @ \cup {n},
                             !.tent = IF n \in env.vars THEN @ ELSE @ \cup {n}]
       IN IF n \in env.fns THEN R(<<>>, Fail(env, "err", "extrn of a function: " \o n))
          ELSE Extrns(ns, e1, i + 1)

-----------------------------------------------------------------------------
\* Replace code labels by positions
LOCAL Resolve(code, nlab) ==
  LET at == FoldLeft(LAMBDA f, i : IF code[i][1] = "lab" THEN [f EXCEPT ![code[i][2]] = i] ELSE f,
                     [k \in 1..nlab |-> 0], [i \in 1..Len(code) |-> i])
  IN [i \in 1..Len(code) |->
        LET c == code[i] IN
        CASE c[1] \in {"jmp", "jz"} -> <<c[1], at[c[2]]>>
          [] c[1] = "switch" ->
               <<"switch", [j \in DOMAIN c[2] |-> <<c[2][j][1], at[c[2][j][2]]>>], at[c[3]]>>
          [] OTHER -> c]

LOCAL HasDup(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]

Define(d, env) ==
  IF env.st # "ok" THEN env
  ELSE LET n == d[2] IN
  IF n = "main" /\ d[1] # "fun" THEN Fail(env, "any", "main is a variable")
  ELSE IF d[1] = "fun" THEN
    IF n \in env.vars THEN Fail(env, "err", "variable redefined as function: " \o n)
    ELSE IF HasDup(d[3]) THEN Fail(env, "any", "parameter named twice")
    ELSE LET np == Len(d[3])
             e1 == [env EXCEPT !.fns = @ \cup {n},
                      !.loc = [p \in {d[3][i] : i \in 1..np} |->
                                 CHOOSE i \in 1..np : d[3][i] = p],
                      !.slots = np, !.vecs = EmptyFn, !.ext = {}, !.used = {}, !.nlab = 0,
                      !.labs = EmptyFn, !.defd = {}, !.sw = <<>>, !.direct = TRUE]
             b == Stmt(d[4], e1)
             e2 == b[2]
         IN IF e2.st # "ok" THEN e2
            ELSE IF DOMAIN e2.labs \ e2.defd # {} THEN Fail(e2, "err", "undefined label")
            ELSE LET code == Resolve(b[1] \o <<<<"w", WZero>>, <<"ret">>>>, e2.nlab)
                     f == [params |-> np, slots |-> e2.slots, vecs |-> e2.vecs, code |-> code]
                 IN [e2 EXCEPT !.fdef = (n :> f) @@ @]
  ELSE
    IF n \in env.fns THEN Fail(env, "err", "function redefined as variable: " \o n)
    ELSE LET vals == IF d[1] = "var" THEN d[3] ELSE d[4]
             \* string values get their place among the string constants
             k0 == Len(env.strs)
             sidx == FoldLeft(LAMBDA acc, v : IF v[1] = "s" THEN [acc EXCEPT !.i = Append(@, k0 + Len(acc.s) + 1), !.s = Append(@, v[2])]
                                              ELSE [acc EXCEPT !.i = Append(@, 0)],
                              [i |-> <<>>, s |-> <<>>], vals)
             cells == [i \in DOMAIN vals |->
                        IF vals[i][1] = "w" THEN <<"w", vals[i][2]>> ELSE <<"str", sidx.i[i]>>]
             words == IF d[1] = "var" THEN Max({1, Len(vals)})
                      ELSE Max({1, d[3], Len(vals)})
             g == [kind |-> d[1], words |-> words, vals |-> cells]
         IN [env EXCEPT !.vars = @ \cup {n}, !.tent = @ \ {n},
                        !.gdef = (n :> g) @@ @, !.strs = @ \o sidx.s]

\* One source file.  strs are the string constants of the files before it.
TranslateTree(tree, rtl, strs) ==
  FoldLeft(LAMBDA env, d : Define(d, env), [Env0(strs) EXCEPT !.rtl = rtl], tree)

TranslateUnit(bytes, rtl, strs) ==
  LET p == Parse(Lex(bytes))
  IN IF p[1] = "ok" THEN TranslateTree(p[2], rtl, strs)
     ELSE Fail(Env0(strs), p[1], p[2] \o " (token " \o ToString(p[3]) \o ")")

-----------------------------------------------------------------------------
(* Linking *)

\* The translations of all files, in order
RECURSIVE TranslateUnits(_, _, _, _)
TranslateUnits(units, rtl, i, strs) ==
  IF i > Len(units) THEN <<>>
  ELSE LET u == TranslateUnit(units[i], rtl, strs)
       IN <<u>> \o TranslateUnits(units, rtl, i + 1, u.strs)

LOCAL UNION2(us, F(_)) == UNION {F(us[i]) : i \in DOMAIN us}

\* What the members of the runtime library refer to; fout lives with writeb
LOCAL MemberRefs(n) ==
  CASE n \in {"printd", "printo"} -> {"writeb", "nwrite"}
    [] n = "printf" -> {"char", "printd", "printo", "write"}
    [] n = "write" -> {"writeb"}
    [] OTHER -> {}
LOCAL Members(ns) ==
  LET one == ns \cup UNION {MemberRefs(n) : n \in ns}
  IN one \cup UNION {MemberRefs(n) : n \in one}

\* The program, with verdicts of the compiler (front) and of the link.  A
\* reference to a function that is defined nowhere makes the link fail unless
\* the reference is dead: "unresolved", judged by whether the machine gets to
\* call it.
Program(units, rtl) ==
  LET us == TranslateUnits(units, rtl, 1, <<>>)
      front == IF \E i \in DOMAIN us : us[i].st = "err" THEN "err"
               ELSE IF \E i \in DOMAIN us : us[i].st = "any" THEN "any" ELSE "ok"
      why == IF front = "ok" THEN ""
             ELSE us[CHOOSE i \in DOMAIN us : us[i].st = front].why
      fdefs == UNION2(us, LAMBDA u : DOMAIN u.fdef)
      gdefs == UNION2(us, LAMBDA u : DOMAIN u.gdef)
      tents == UNION2(us, LAMBDA u : u.tent)
      calls == UNION2(us, LAMBDA u : u.fns)
      twice == \E i, j \in DOMAIN us : i < j /\
                 (DOMAIN us[i].fdef \cup DOMAIN us[i].gdef) \cap
                 (DOMAIN us[j].fdef \cup DOMAIN us[j].gdef) # {}
      mixed == (tents \cup gdefs) \cap (calls \cup fdefs) # {}
      open == \/ mixed
              \/ gdefs \cap RuntimeNames # {}
              \* a function of the program may take the place of one of the
              \* library's; judged when no member in use refers to it
              \/ Members(((calls \ fdefs) \cap RuntimeFns)
                         \cup (IF "fout" \in tents THEN {"writeb"} ELSE {})) \cap fdefs # {}
              \/ tents \cap RuntimeFns # {}
              \/ calls \cap {"fout"} # {}
              \/ tents \cap {"main"} # {}
      unresolved == calls \ (fdefs \cup RuntimeFns)
      link == IF twice THEN "err"
              ELSE IF open THEN "any"
              ELSE IF "main" \notin fdefs THEN "err"
              ELSE IF unresolved # {} THEN "unresolved" ELSE "ok"
  IN [front |-> front, why |-> why,
      each |-> [i \in DOMAIN us |-> us[i].st],
      link |-> IF front # "ok" THEN front ELSE link,
      fdef |-> FoldLeft(LAMBDA f, u : f @@ u.fdef, EmptyFn, us),
      gdef |-> [n \in tents \ gdefs |-> [kind |-> "var", words |-> 1, vals |-> <<>>]]
               @@ FoldLeft(LAMBDA f, u : f @@ u.gdef, EmptyFn, us),
      strs |-> IF us = <<>> THEN <<>> ELSE us[Len(us)].strs]
=============================================================================
