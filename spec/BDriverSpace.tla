---------------------------- MODULE BDriverSpace ----------------------------
(***************************************************************************)
(* All scenarios of a bounded space for BDriver: every output form, name   *)
(* of the output, list of at most MaxIn inputs of every kind, and fault.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT MaxIn

A == <<"", "a", ".b">>
B == <<"sub/", "b", ".b">>
A2 == <<"sub/", "a", ".b">>
Bad == <<"", "bad", ".b">>
Gone == <<"", "gone", ".b">>
DirB == <<"", "d", ".b">>
LL == <<"", "i", ".ll">>
AS == <<"sub/", "j", ".s">>
OO == <<"", "k", ".o">>
AR == <<"", "m", ".a">>
Txt == <<"", "w", ".txt">>

Inputs == {A, B, A2, Bad, Gone, DirB, LL, AS, OO, AR, Txt}
Base == << <<A, <<"src", "A">>>>, <<B, <<"src", "B">>>>, <<A2, <<"src", "A2">>>>,
           <<Bad, <<"bad", "bad">>>>, <<DirB, <<"dir">>>>, <<LL, <<"file", "i">>>>,
           <<AS, <<"file", "j">>>>, <<OO, <<"file", "k">>>>, <<AR, <<"file", "m">>>>,
           <<Txt, <<"file", "w">>>>, << <<"", "blk", "">>, <<"dir">>>> >>
\* Files of the user, with names that intermediate files and outputs have
User == << << <<"", "a", ".tmp.ll">>, <<"file", "u1">>>>, << <<"", "a", ".tmp.0.ll">>, <<"file", "u2">>>>,
           << <<"", "out", ".tmp.ll">>, <<"file", "u3">>>>, << <<"", "b", ".tmp.1.ll">>, <<"file", "u4">>>>,
           << <<"", "out", "">>, <<"file", "u5">>>>, << <<"", "a", ".s">>, <<"file", "u6">>>>,
           << <<"", "a", ".ll">>, <<"file", "u7">>>>, << <<"", "a", "">>, <<"file", "u8">>>> >>

OutNames == {<<>>, << <<"", "out", "">> >>, << <<"sub/", "out", ".x">> >>,
             << <<"nodir/", "out", "">> >>, << <<"", "blk", "">> >>}

Cmd(S, c, ir, save, o, in) ==
  [bad |-> FALSE, help |-> FALSE, version |-> FALSE, any |-> TRUE, S |-> S, c |-> c, ir |-> ir,
   save |-> save, g |-> FALSE, level |-> "", o |-> o, L |-> <<"rt">>, l |-> <<>>, in |-> in]

\* Outputs that fall together, or on an input, are left open
Distinct(cmd) ==
  /\ (cmd.S \/ cmd.c \/ cmd.ir) => \A i, j \in DOMAIN cmd.in : i # j => cmd.in[i][2] # cmd.in[j][2]
  /\ \A i, j \in DOMAIN cmd.in : i # j => cmd.in[i] # cmd.in[j]
  /\ cmd.c => \A i \in DOMAIN cmd.in : cmd.in[i] # OO
  /\ cmd.o # <<>> \/ \A i \in DOMAIN cmd.in : cmd.in[i] \notin {LL, OO, AS} \/ ~cmd.ir

Cmds == {cmd \in {Cmd(m[1], m[2], m[3], save, o, in) :
                    m \in {<<FALSE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>},
                    save \in BOOLEAN, o \in OutNames,
                    in \in UNION {[1..n -> Inputs] : n \in 1..MaxIn}} : Distinct(cmd)}

Space ==
  {[n |-> 0, std |-> <<>>, cmds |-> <<cmd>>, files |-> files, dirs |-> <<"sub/">>, fails |-> fails, full |-> full, fault |-> fault, tmp |-> tmp] :
     cmd \in Cmds, files \in {Base, Base \o User}, fails \in {<<>>, <<1>>, <<2>>, <<0>>},
     full \in BOOLEAN, fault \in BOOLEAN, tmp \in BOOLEAN}
=============================================================================
