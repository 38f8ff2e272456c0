------------------------------ MODULE BDriver ------------------------------
(***************************************************************************)
(* The blang command: how a command line is interpreted, which files it    *)
(* reads and creates in which steps, and what is left when a step fails.   *)
(* Several commands may run at the same time in one directory; each step   *)
(* of a command is one transition.                                         *)
(*                                                                         *)
(* A path is <<directory, base name, extension>>, its text the three put   *)
(* together.  The files are a function from texts of paths to contents:    *)
(*   <<"dir">>                a directory                                  *)
(*   <<"src", id>>            a source file that compiles                  *)
(*   <<"bad", id>>            a source file that does not                  *)
(*   <<"file", id>>           any other file                               *)
(*   <<"IR", id>>             the IR of source file id                     *)
(*   <<"made", kind, level, g, dirs, libs, inputs>>                        *)
(*                            what the back end makes of its inputs, a     *)
(*                            sequence of <<extension, contents>>          *)
(*   <<"private">>            a directory for intermediate files           *)
(*                                                                         *)
(* A command is a record:                                                  *)
(*   bad, help, version   an option is not understood, -h, -V              *)
(*   any                  are there any arguments at all?                  *)
(*   S, c, ir, save, g    options without value                            *)
(*   level                value of -O, "" when it is not given             *)
(*   o                    sequence of at most one path                     *)
(*   L, l                 sequences of names, of directories and libraries *)
(*   in                   sequence of paths                                *)
(*                                                                         *)
(* A scenario is a record: cmds (commands that run at the same time),      *)
(* files (the files before them), dirs (directories that exist), fails     *)
(* (numbers of the calls of the back end that fail, 0 for all), full (is   *)
(* there no room for an intermediate file?), tmp (is there a place for     *)
(* private directories?), fault (may an operation on a file fail, for a    *)
(* reason of its own, wherever it is?), std (library directories that are   *)
(* always searched, because they exist), n (its number).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Scenarios,        \* set of scenarios
          MicroSteps        \* FALSE: processes are only interrupted where
                            \* they call the back end

VARIABLES sc,               \* the scenario
          fs,               \* the files now
          fs0,              \* the files before
          pr,               \* the processes
          calls,            \* calls of the back end so far
          last              \* the process that must go on (0: any)

vars == <<sc, fs, fs0, pr, calls, last>>

-----------------------------------------------------------------------------
(* What the documentation says of a command *)

Mode(cmd) == IF cmd.S THEN "s" ELSE IF cmd.c THEN "o" ELSE IF cmd.ir THEN "ll" ELSE "exe"
Suffix(cmd) == CASE Mode(cmd) = "s" -> ".s" [] Mode(cmd) = "o" -> ".o"
                 [] Mode(cmd) = "ll" -> ".ll" [] OTHER -> ""
\* The input kinds each form of output can be made of
Accepts(mode) ==
  CASE mode = "s" -> {".b", ".ll"}
    [] mode = "o" -> {".b", ".ll", ".s"}
    [] mode = "ll" -> {".b"}
    [] OTHER -> {".b", ".ll", ".s", ".o", ".a"}

Ext(p) == p[3]
Text(p) == p[1] \o p[2] \o p[3]
Info(cmd) == ~cmd.bad /\ (cmd.help \/ cmd.version)
\* Is the command rejected before it does anything?
Rejected(cmd, files) ==
  \/ cmd.bad
  \/ /\ ~cmd.help /\ ~cmd.version
     /\ \/ ~cmd.any \/ cmd.in = <<>>
        \/ cmd.level \notin {"", "0", "1", "2", "3"}
        \/ \E i \in DOMAIN cmd.in : \/ Ext(cmd.in[i]) \notin Accepts("exe")
                                    \/ Text(cmd.in[i]) \notin DOMAIN files
        \/ \E i \in DOMAIN cmd.in : Ext(cmd.in[i]) \notin Accepts(Mode(cmd))
        \/ Mode(cmd) # "exe" /\ cmd.o # <<>> /\ Len(cmd.in) # 1

\* The output for input i (for executables, of all inputs)
Out(cmd, i) ==
  IF cmd.o # <<>> THEN cmd.o[1]
  ELSE IF Mode(cmd) = "exe" THEN <<"", cmd.in[1][2], "">>
  ELSE <<"", cmd.in[i][2], Suffix(cmd)>>
Outs(cmd) == {Text(Out(cmd, i)) : i \in DOMAIN cmd.in}

\* The intermediate file of input i when it is to be saved
Saved(cmd, i) ==
  IF Mode(cmd) = "exe" /\ Len(cmd.in) > 1
  THEN <<"", cmd.in[i][2], ".tmp." \o ToString(i - 1) \o ".ll">>
  ELSE LET o == Out(cmd, i) IN <<o[1], o[2], o[3] \o ".tmp.ll">>
Temps(cmd) == {Text(Saved(cmd, i)) : i \in {j \in DOMAIN cmd.in : Ext(cmd.in[j]) = ".b"}}

\* What input i contributes, given the files at the start
Part(cmd, files, i) ==
  IF Ext(cmd.in[i]) = ".b" THEN <<".ll", <<"IR", files[Text(cmd.in[i])][2]>>>>
  ELSE <<Ext(cmd.in[i]), files[Text(cmd.in[i])]>>
Level(cmd) == IF cmd.level = "" THEN "0" ELSE cmd.level
Made(cmd, parts) ==
  IF Mode(cmd) = "exe"
  THEN <<"made", "exe", Level(cmd), cmd.g, cmd.L \o sc.std, cmd.l \o <<"b">>, parts>>
  ELSE <<"made", Mode(cmd), Level(cmd), cmd.g, <<>>, <<>>, parts>>
\* The contents that the output for input i must have
Wanted(cmd, files, i) ==
  CASE Mode(cmd) = "exe" -> Made(cmd, [k \in DOMAIN cmd.in |-> Part(cmd, files, k)])
    [] Mode(cmd) = "ll" -> Part(cmd, files, i)[2]
    [] OTHER -> Made(cmd, <<Part(cmd, files, i)>>)

-----------------------------------------------------------------------------
(* The steps *)

Sc == sc
Procs == DOMAIN Sc.cmds
Files0(s) ==
  LET f == s.files
  IN [t \in {Text(f[i][1]) : i \in DOMAIN f} |-> f[CHOOSE i \in DOMAIN f : Text(f[i][1]) = t][2]]

NewProc(cmd) == [cmd |-> cmd, pc |-> "args", i |-> 1, ins |-> <<>>, outs |-> {},
                 temps |-> {}, st |-> "run"]

Init == /\ sc \in Scenarios
        /\ fs0 = Files0(Sc)
        /\ fs = fs0
        /\ pr = [p \in Procs |-> NewProc(Sc.cmds[p])]
        /\ calls = 0
        /\ last = 0

Private(p) == <<"$TMP/", ToString(p), "">>
InPrivate(p, i) == <<"$TMP/" \o ToString(p) \o "/", ToString(i), ".ll">>

Writable(path) ==
  /\ Text(path) \notin DOMAIN fs \/ fs[Text(path)] # <<"dir">>
  /\ path[1] = "" \/ path[1] \in {Sc.dirs[i] : i \in DOMAIN Sc.dirs} \/ \E p \in Procs : path = InPrivate(p, pr[p].i)
Write(path, c) == fs' = (Text(path) :> c) @@ fs
Without(ps) == [q \in DOMAIN fs \ ps |-> fs[q]]

\* Process p goes on as the record r
Become(p, r) == pr' = [pr EXCEPT ![p] = r]
Fail(p, r) == Become(p, [r EXCEPT !.pc = "failing"])

TempOf(p, i) == IF pr[p].cmd.save THEN Saved(pr[p].cmd, i) ELSE InPrivate(p, i)

Args(p) ==
  /\ pr[p].pc = "args"
  /\ IF Info(pr[p].cmd) THEN Become(p, [pr[p] EXCEPT !.pc = "end", !.st = "info"])
     ELSE IF Rejected(pr[p].cmd, fs) THEN Fail(p, pr[p])
     ELSE Become(p, [pr[p] EXCEPT !.pc = "begin"])
  /\ UNCHANGED <<fs, calls>>

Begin(p) ==
  /\ pr[p].pc = "begin"
  /\ LET cmd == pr[p].cmd IN
     IF cmd.save \/ Mode(cmd) = "ll" THEN /\ Become(p, [pr[p] EXCEPT !.pc = "front"]) /\ UNCHANGED fs
     ELSE IF ~Sc.tmp THEN Fail(p, pr[p]) /\ UNCHANGED fs
     ELSE Write(Private(p), <<"private">>) /\ Become(p, [pr[p] EXCEPT !.pc = "front"])
  /\ UNCHANGED calls

\* The front end takes input i to IR; other kinds are left to the back end
Compile(p) ==
  /\ pr[p].pc = "front"
  /\ LET r == pr[p]
         cmd == r.cmd
         in == cmd.in[r.i]
         target == IF Mode(cmd) = "ll" THEN Out(cmd, r.i) ELSE TempOf(p, r.i)
         more == r.i < Len(cmd.in)
         go(q) == CASE Mode(cmd) = "ll" -> IF more THEN [q EXCEPT !.i = @ + 1] ELSE [q EXCEPT !.pc = "clean"]
                    [] Mode(cmd) = "exe" -> IF more THEN [q EXCEPT !.i = @ + 1] ELSE [q EXCEPT !.pc = "back"]
                    [] OTHER -> [q EXCEPT !.pc = "back"]
     IN IF Ext(in) # ".b" THEN Become(p, go([r EXCEPT !.ins = Append(@, <<Ext(in), in>>)])) /\ UNCHANGED fs
        ELSE IF Text(in) \notin DOMAIN fs \/ fs[Text(in)][1] # "src" THEN Fail(p, r) /\ UNCHANGED fs
        ELSE IF ~Writable(target) THEN Fail(p, r) /\ UNCHANGED fs
        ELSE IF Sc.full THEN Fail(p, r) /\ fs' = Without({Text(target)})
        ELSE /\ Write(target, <<"IR", fs[Text(in)][2]>>)
             /\ Become(p, go(IF Mode(cmd) = "ll" THEN [r EXCEPT !.outs = @ \cup {Text(target)}]
                             ELSE [r EXCEPT !.ins = Append(@, <<".ll", target>>), !.temps = @ \cup {Text(target)}]))
  /\ UNCHANGED calls

\* The back end takes what the front end left to an output
CallFails == \E i \in DOMAIN Sc.fails : Sc.fails[i] \in {0, calls + 1}
Back(p) ==
  /\ pr[p].pc = "back"
  /\ calls' = calls + 1
  /\ LET r == pr[p]
         cmd == r.cmd
         out == Out(cmd, r.i)
     IN IF CallFails \/ ~Writable(out) \/ \E k \in DOMAIN r.ins : Text(r.ins[k][2]) \notin DOMAIN fs
        THEN Fail(p, r) /\ UNCHANGED fs
        ELSE /\ Write(out, Made(cmd, [k \in DOMAIN r.ins |-> <<r.ins[k][1], fs[Text(r.ins[k][2])]>>]))
             /\ Become(p, [r EXCEPT !.outs = @ \cup {Text(out)}, !.pc = "drop"])

\* The intermediate files just used are removed
Drop(p) ==
  /\ pr[p].pc = "drop"
  /\ LET r == pr[p] IN
     /\ IF r.cmd.save THEN UNCHANGED fs ELSE fs' = Without(r.temps)
     /\ Become(p, IF Mode(r.cmd) # "exe" /\ r.i < Len(r.cmd.in)
                  THEN [r EXCEPT !.pc = "front", !.i = @ + 1, !.ins = <<>>,
                                 !.temps = IF r.cmd.save THEN @ ELSE {}]
                  ELSE [r EXCEPT !.pc = "clean"])
  /\ UNCHANGED calls

Clean(p) ==
  /\ pr[p].pc = "clean"
  /\ fs' = Without({Text(Private(p))})
  /\ Become(p, [pr[p] EXCEPT !.pc = "end", !.st = "ok"])
  /\ UNCHANGED calls

\* After a failure nothing intermediate is left, except perhaps what was to be
\* saved; whether outputs made before it stay is open
Failing(p) ==
  /\ pr[p].pc = "failing"
  /\ LET r == pr[p] IN
     /\ \E gone \in SUBSET (r.outs \cup (IF r.cmd.save THEN r.temps ELSE {})) :
          fs' = Without(gone \cup {Text(Private(p))} \cup (IF r.cmd.save THEN {} ELSE r.temps))
     /\ Become(p, [r EXCEPT !.pc = "end", !.st = "fail"])
  /\ UNCHANGED calls

\* An operation fails for a reason of its own: a file cannot be opened, read,
\* created, written or closed, the back end cannot be started.  A file that
\* was being written is gone then, or as it was before.
Break(p) ==
  /\ Sc.fault
  /\ pr[p].pc \in {"args", "begin", "front", "back"}
  /\ ~Info(pr[p].cmd)
  /\ LET r == pr[p]
         target == IF Mode(r.cmd) = "ll" THEN Out(r.cmd, r.i) ELSE TempOf(p, r.i)
     IN IF r.pc = "front" /\ Ext(r.cmd.in[r.i]) = ".b"
        THEN fs' \in {fs, Without({Text(target)})} ELSE UNCHANGED fs
  /\ Fail(p, pr[p])
  /\ UNCHANGED calls

Step(p) == Break(p) \/ Args(p) \/ Begin(p) \/ Compile(p) \/ Back(p) \/ Drop(p) \/ Clean(p) \/ Failing(p)

Next == \E p \in Procs :
          /\ MicroSteps \/ last \in {0, p}
          /\ Step(p)
          /\ last' = IF ~MicroSteps /\ pr'[p].pc \notin {"back", "end"} THEN p ELSE 0
          /\ UNCHANGED <<sc, fs0>>

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What must hold when all processes have ended *)

Ended == \A p \in Procs : pr[p].pc = "end"
Before == fs0

\* Paths a command may change
Mine(cmd) == IF Info(cmd) \/ Rejected(cmd, Before) THEN {}
             ELSE Outs(cmd) \cup (IF cmd.save /\ Mode(cmd) # "ll" THEN Temps(cmd) ELSE {})

\* Inputs and unrelated files are as they were, and nothing else was created
OthersUntouched ==
  Ended => \A path \in (DOMAIN fs \cup DOMAIN Before) :
    path \notin UNION {Mine(pr[p].cmd) : p \in Procs} =>
      path \in DOMAIN fs /\ path \in DOMAIN Before /\ fs[path] = Before[path]

\* A command that succeeded left exactly its outputs, with the right contents
OutputsMade ==
  Ended => \A p \in Procs : pr[p].st = "ok" =>
    /\ \A i \in DOMAIN pr[p].cmd.in :
         Text(Out(pr[p].cmd, i)) \in DOMAIN fs /\ fs[Text(Out(pr[p].cmd, i))] = Wanted(pr[p].cmd, Before, i)
    /\ pr[p].cmd.save /\ Mode(pr[p].cmd) # "ll" =>
         \A path \in Temps(pr[p].cmd) : path \in DOMAIN fs /\ fs[path][1] = "IR"

\* A command that failed left no output for the input it failed on: what is
\* there was there before
NothingFromFailed ==
  Ended => \A p \in Procs : pr[p].st = "fail" =>
    \A i \in DOMAIN pr[p].cmd.in :
      (i >= pr[p].i /\ Mine(pr[p].cmd) # {}) =>
        LET o == Text(Out(pr[p].cmd, i)) IN
        o \in DOMAIN fs => (o \in DOMAIN Before /\ fs[o] = Before[o])

\* A command fails only when it has a reason to
FailsForAReason ==
  Ended => \A p \in Procs : pr[p].st = "fail" =>
    \/ Rejected(pr[p].cmd, Before)
    \/ Sc.fails # <<>> \/ Sc.full \/ Sc.fault \/ ~Sc.tmp
    \/ \E i \in DOMAIN pr[p].cmd.in : Before[Text(pr[p].cmd.in[i])][1] \in {"bad", "dir"}
    \/ \E i \in DOMAIN pr[p].cmd.in : ~Writable(Out(pr[p].cmd, i)) \/ ~Writable(Saved(pr[p].cmd, i))

\* No step overwrites an intermediate file of another process
PrivateStaysPrivate ==
  \A p, q \in Procs : p # q => pr[p].temps \cap pr[q].temps = {}

\* The outcome of a scenario, for the harness
Emit ==
  Ended => PrintT("END " \o ToJson([n |-> sc.n, st |-> [p \in Procs |-> pr[p].st],
                     fs |-> {<<path, fs[path]>> : path \in DOMAIN fs}]))
=============================================================================
