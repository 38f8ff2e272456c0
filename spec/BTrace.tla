------------------------------- MODULE BTrace -------------------------------
(***************************************************************************)
(* Conformance of recorded runs of blang to the specification.             *)
(*                                                                         *)
(* cases.json holds a sequence of cases.  Each is a program (the bytes of  *)
(* its source files), an input, which of the standard streams are closed,  *)
(* and observations of the real compiler and  *)
(* of the programs it built.  One behaviour of this specification takes    *)
(* one case from source text to the end of its execution, and compares     *)
(* every observation with what the specification predicts:                 *)
(*                                                                         *)
(*   [t |-> "unit", i, ok]   file i was / was not accepted by the compiler *)
(*   [t |-> "link", ok]      an executable was / was not built             *)
(*   [t |-> "run", code, out, err]   what the executable did               *)
(*   [t |-> "runall", code, out]     the same, with both streams in one    *)
(*   [t |-> "hang", out, err]   the executable was still computing when it *)
(*                           was stopped; what it had written by then      *)
(*   [t |-> "clean", ok]     every command ended by itself, and with a     *)
(*                           message when it failed                        *)
(*                                                                         *)
(* The result of every case goes to a file: its kind, and which of the     *)
(* observations differ from the prediction.  The kind is                   *)
(* "ok" (all observations were predicted),                                 *)
(* "open" (the language leaves the case open, no run compared), "front"    *)
(* (rejected or not linkable, as predicted: nothing to run), "ub" (the     *)
(* behaviour is undefined), "loop" (a state of the machine came back, so   *)
(* that the program never ends) or "fuel" (not followed to the end).       *)
(***************************************************************************)
EXTENDS BMachine, Json

CONSTANT Chunk              \* machine steps per transition

Cases == JsonDeserialize("cases.json")

VARIABLES ci,               \* which case
          phase,            \* "source", "translated", "running", "done"
          prog,             \* the program translated
          m,                \* the machine
          snap,             \* the machine at an earlier time
          round             \* transitions taken

vars == <<ci, phase, prog, m, snap, round>>
View == <<ci, phase, round>>

NoProg == [front |-> "", link |-> ""]
NoMachine == [st |-> "none", n |-> 0]

Case == Cases[ci]

Init == /\ ci \in 1..Len(Cases)
        /\ phase = "source"
        /\ prog = NoProg
        /\ m = NoMachine
        /\ snap = NoMachine
        /\ round = 0

\* Compare accept/reject with a static verdict
LOCAL SameVerdict(verdict, ok) ==
  CASE verdict = "ok" -> ok
    [] verdict = "err" -> ~ok
    [] OTHER -> TRUE

LOCAL StaticDiffers(o, p) ==
  CASE o.t = "unit" -> ~SameVerdict(p.each[o.i], o.ok)
    [] o.t = "link" -> ~SameVerdict(p.link, o.ok)
    [] o.t = "clean" -> ~o.ok
    [] OTHER -> FALSE

LOCAL RunDiffers(o, mm) ==
  CASE o.t = "run" -> \/ o.code # mm.code
                      \/ o.out # Written(mm, 1)
                      \/ o.err # Written(mm, 2)
    [] o.t = "runall" -> \/ o.code # mm.code
                         \/ o.out # WrittenAll(mm)
    [] o.t = "hang" -> TRUE
    [] OTHER -> FALSE

\* A program that never ends
LOCAL LoopDiffers(o, mm) ==
  CASE o.t \in {"run", "runall"} -> TRUE
    [] o.t = "hang" -> o.out # Written(mm, 1) \/ o.err # Written(mm, 2)
    [] OTHER -> FALSE

\* Write the result of this case to its file
LOCAL Report(kind, p, mm) ==
  LET obs == Case.obs
      diff == {i \in DOMAIN obs :
                 \/ StaticDiffers(obs[i], p)
                 \/ kind = "ok" /\ RunDiffers(obs[i], mm)
                 \/ kind = "loop" /\ LoopDiffers(obs[i], mm)}
  IN JsonSerialize("out/" \o ToString(ci) \o ".json",
       <<[kind |-> kind, why |-> p.why, front |-> p.front, link |-> p.link,
          diff |-> SetToSeq(diff), steps |-> mm.n,
          expect |-> IF diff # {} /\ kind \in {"ok", "loop"}
                     THEN <<[code |-> mm.code, out |-> Written(mm, 1), err |-> Written(mm, 2)]>>
                     ELSE <<>>]>>)

\* Translate the source
Compile ==
  /\ phase = "source"
  /\ prog' = Program(Case.units, Case.rtl)
  /\ phase' = "translated"
  /\ round' = round + 1
  /\ UNCHANGED <<ci, m, snap>>

\* A program with a definite meaning is loaded, any other is done
LoadIt ==
  /\ phase = "translated"
  /\ prog.link \in {"ok", "unresolved"} /\ Case.run
  /\ m' = Start(prog, InitialMem(prog), {Case.closed[i] : i \in DOMAIN Case.closed}, Case.packs)
  /\ prog' = Placed(prog)
  /\ phase' = "running"
  /\ round' = round + 1
  /\ UNCHANGED <<ci, snap>>

NotRun ==
  /\ phase = "translated"
  /\ ~(prog.link \in {"ok", "unresolved"} /\ Case.run)
  /\ Report(IF prog.link \in {"any", "unresolved"} THEN "open" ELSE "front", prog, m)
  /\ phase' = "done"
  /\ round' = round + 1
  /\ UNCHANGED <<ci, m, snap, prog>>

\* Execute the next instructions
Run ==
  /\ phase = "running"
  /\ m.st = "run" /\ m.n < Case.fuel
  /\ LET next == FoldLeft(LAMBDA s, k : Step(prog, Case.input, s), m, [k \in 1..Chunk |-> k])
         this == [next EXCEPT !.n = 0]
     IN IF ~Case.loops
        THEN m' = next /\ UNCHANGED snap
        ELSE /\ m' = IF next.st = "run" /\ this = snap THEN [next EXCEPT !.st = "loop"] ELSE next
             \* kept at times that are farther and farther apart
             /\ snap' = IF round \in {2^k : k \in 0..20} THEN this ELSE snap
  /\ round' = round + 1
  /\ UNCHANGED <<ci, phase, prog>>

Finish ==
  /\ phase = "running"
  /\ ~(m.st = "run" /\ m.n < Case.fuel)
  /\ IF prog.link = "unresolved"
     THEN IF m.st = "nofn" THEN Report("front", [prog EXCEPT !.link = "err"], m)
          ELSE Report("open", prog, m)
     ELSE Report(CASE m.st = "exit" -> "ok" [] m.st = "ub" -> "ub" [] m.st = "loop" -> "loop" [] OTHER -> "fuel", prog, m)
  /\ phase' = "done"
  /\ round' = round + 1
  /\ UNCHANGED <<ci, m, snap, prog>>

Next == Compile \/ LoadIt \/ NotRun \/ Run \/ Finish

Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"source", "translated", "running", "done"} /\ m.st \in {"none", "run", "exit", "ub", "nofn", "loop"}
StorageOK == phase = "running" => DistinctStorage(m) /\ FramesNest(m) /\ AddressesSound(m)
=============================================================================
