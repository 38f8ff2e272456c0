------------------------------- MODULE BNames -------------------------------
(***************************************************************************)
(* Histories of a file: what the definitions and functions seen so far     *)
(* make of a name, and which next definition is a misuse.  Every behaviour *)
(* is a file, one top-level item at a time.  The compiler keeps its tables *)
(* across the items of a file, so its verdict on an item depends on the    *)
(* history; this module says on what exactly it may depend.                *)
(*                                                                         *)
(* Items:                                                                  *)
(*   <<"var", n>> <<"vec", n>> <<"fun", n>>    definitions of n            *)
(*   <<"use", n, form>>   a function of its own whose body uses n          *)
(*   <<"two", m, n, f, g>>  one whose body uses m and n                    *)
(*                                                                         *)
(* The module is a second statement of the rules in BTranslate: the check  *)
(* compares the verdicts of both with the compiler's.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,       \* names whose histories are explored
          MaxItems,    \* items per file
          Pairs        \* TRUE: functions that use two names, too

Forms == {"read", "write", "call", "addr", "index", "inc",
          "extrn-read", "extrn-write", "extrn-call", "extrn-late", "extrn-addr",
          "auto", "auto-extrn", "extrn-auto", "auto-call", "auto-twice", "auto-block",
          "param", "param-extrn", "param-auto", "param-call",
          "label", "label-auto", "goto", "extrn-only", "autovec"}

VARIABLES hist,      \* the items so far
          kind,      \* name -> "none", "var", "fun", "tent" (extrn only)
          verdict    \* "ok", "err" or "any"

vars == <<hist, kind, verdict>>

Init == /\ hist = <<>>
        /\ kind = [n \in Names |-> "none"]
        /\ verdict = "ok"

IsVar(k) == k \in {"var", "tent"}

\* What a use form needs and does.  Yields <<verdict, new kind of the name>>.
AfterExtrn(k) == IF k = "fun" THEN <<"err", k>> ELSE <<"ok", IF k = "none" THEN "tent" ELSE k>>
AsFunction(k) == IF IsVar(k) THEN <<"err", k>> ELSE <<"ok", "fun">>

Effect(form, k) ==
  CASE form \in {"extrn-read", "extrn-write", "extrn-call", "extrn-addr", "extrn-only"} -> AfterExtrn(k)
    [] form \in {"read", "call"} -> AsFunction(k)
    \* a plain name read first is a function, so that extrn comes too late
    [] form = "extrn-late" -> <<"err", k>>
    [] form \in {"write", "addr", "inc"} -> <<"err", k>>
    [] form = "index" -> AsFunction(k)
    [] form \in {"auto", "auto-call", "auto-block", "autovec", "param", "param-call", "label-auto"} -> <<"ok", k>>
    [] form \in {"auto-extrn", "extrn-auto", "param-extrn"} -> AfterExtrn(k)
    [] form \in {"auto-twice", "param-auto"} -> <<"err", k>>
    [] form = "label" -> <<"ok", k>>
    [] form = "goto" -> <<"err", k>>

Worse(a, b) == IF "err" \in {a, b} THEN "err" ELSE IF "any" \in {a, b} THEN "any" ELSE "ok"

Define(n, what) ==
  /\ LET clash == IF what = "fun" THEN IsVar(kind[n]) ELSE kind[n] = "fun"
     IN /\ verdict' = Worse(verdict, IF clash THEN "err" ELSE "ok")
        /\ kind' = [kind EXCEPT ![n] = IF what = "fun" THEN "fun" ELSE "var"]
  /\ hist' = Append(hist, <<what, n>>)

Use(n, form) ==
  /\ LET e == Effect(form, kind[n])
     IN /\ verdict' = Worse(verdict, e[1])
        /\ kind' = [kind EXCEPT ![n] = e[2]]
  /\ hist' = Append(hist, <<"use", n, form>>)

\* Two different names in one body do not influence each other
Use2(m, n, f, g) ==
  /\ m # n
  /\ LET e1 == Effect(f, kind[m])
         e2 == Effect(g, kind[n])
     IN /\ verdict' = Worse(verdict, Worse(e1[1], e2[1]))
        /\ kind' = [kind EXCEPT ![m] = e1[2], ![n] = e2[2]]
  /\ hist' = Append(hist, <<"two", m, n, f, g>>)

Plain == {"read", "write", "call", "extrn-read", "extrn-write", "auto", "extrn-call"}

Next == /\ Len(hist) < MaxItems
        /\ verdict = "ok"              \* a rejected file stays rejected
        /\ \/ \E n \in Names, what \in {"var", "vec", "fun"} : Define(n, what)
           \/ \E n \in Names, form \in Forms : Use(n, form)
           \/ Pairs /\ \E m, n \in Names, f, g \in Plain : Use2(m, n, f, g)

Spec == Init /\ [][Next]_vars

\* Visibility never leaks: what a name is depends on definitions and on extrn
\* and function uses, never on locals, parameters and labels of other functions
Silent == {"auto", "auto-call", "auto-block", "autovec", "param", "param-call", "label-auto", "label"}
NoLeak == [][\A n \in Names : kind'[n] # kind[n] =>
               LET i == hist'[Len(hist')] IN ~(i[1] = "use" /\ i[3] \in Silent)]_vars
OneKind == \A n \in Names : verdict = "ok" =>
             ~(\E i, j \in DOMAIN hist : /\ hist[i] \in {<<"var", n>>, <<"vec", n>>}
                                         /\ hist[j] = <<"fun", n>>)
\* Every history goes to the harness
Emit == PrintT("HIST " \o ToJson([h |-> hist, v |-> verdict]))
=============================================================================
