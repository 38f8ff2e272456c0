------------------------------- MODULE BFlow -------------------------------
(***************************************************************************)
(* All arrangements of control statements with at most MaxSize nodes, as   *)
(* trees for the harness to render as functions.  A node is                *)
(*   <<"t">>              a statement that leaves a trace                  *)
(*   <<"n">>              the null statement                               *)
(*   <<"r">> <<"v">>      return without and with a value                  *)
(*   <<"g">>              goto the label of the function                   *)
(*   <<"i", s>>           if        <<"e", s, s>>   if else                *)
(*   <<"w", s>>           while     <<"l", s>>      the label              *)
(*   <<"q", s, s>>        two statements in a block                        *)
(*   <<"s", s>>           switch    <<"c", k, s>>   case k                 *)
(*   <<"d", s>>           default                                          *)
(* Case and default occur only directly inside a switch, a case value once *)
(* per switch, the label once per function, goto only with a label.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT MaxSize

Leaf == {<<"t">>, <<"n">>, <<"r">>, <<"v">>, <<"g">>}

\* Trees with n nodes; sw: directly inside a switch?
RECURSIVE Trees(_, _)
Trees(n, sw) ==
  IF n = 1 THEN Leaf
  ELSE {<<"i", s>> : s \in Trees(n - 1, FALSE)}
    \cup {<<"w", s>> : s \in Trees(n - 1, FALSE)}
    \cup {<<"l", s>> : s \in Trees(n - 1, sw)}
    \cup {<<"s", s>> : s \in Trees(n - 1, TRUE)}
    \cup (IF sw THEN {<<"d", s>> : s \in Trees(n - 1, TRUE)}
                     \cup {<<"c", k, s>> : k \in {0, 1}, s \in Trees(n - 1, TRUE)}
          ELSE {})
    \cup UNION {{<<"e", a, b>> : a \in Trees(k, FALSE), b \in Trees(n - 1 - k, FALSE)}
                  \cup {<<"q", a, b>> : a \in Trees(k, sw), b \in Trees(n - 1 - k, sw)}
                : k \in 1..(n - 2)}

RECURSIVE Count(_, _)
Count(s, kind) ==
  (IF s[1] = kind THEN 1 ELSE 0) +
  (CASE s[1] \in {"t", "n", "r", "v", "g"} -> 0
     [] s[1] \in {"i", "w", "l", "s", "d"} -> Count(s[2], kind)
     [] s[1] = "c" -> Count(s[3], kind)
     [] OTHER -> Count(s[2], kind) + Count(s[3], kind))

\* The case values (2: default) of the innermost switch around s
RECURSIVE Values(_)
Values(s) ==
  CASE s[1] = "c" -> <<s[2]>> \o Values(s[3])
    [] s[1] = "d" -> <<2>> \o Values(s[2])
    [] s[1] = "l" -> Values(s[2])
    [] s[1] = "q" -> Values(s[2]) \o Values(s[3])
    [] OTHER -> <<>>

RECURSIVE SwitchesOk(_)
SwitchesOk(s) ==
  CASE s[1] \in {"t", "n", "r", "v", "g"} -> TRUE
    [] s[1] = "s" -> /\ LET v == Values(s[2]) IN \A i, j \in DOMAIN v : i < j => v[i] # v[j]
                     /\ SwitchesOk(s[2])
    [] s[1] = "c" -> SwitchesOk(s[3])
    [] s[1] \in {"i", "w", "l", "d"} -> SwitchesOk(s[2])
    [] OTHER -> SwitchesOk(s[2]) /\ SwitchesOk(s[3])

Legal(s) == /\ Count(s, "l") <= 1
            /\ Count(s, "g") > 0 => Count(s, "l") = 1
            /\ SwitchesOk(s)

\* One state per size: the trees are written to a file
VARIABLE size
Init == size = 0
Next == /\ size < MaxSize
        /\ size' = size + 1
        /\ JsonSerialize("out/" \o ToString(size') \o ".json",
             SetToSeq({s \in Trees(size', FALSE) : Legal(s)}))
Spec == Init /\ [][Next]_size
=============================================================================
