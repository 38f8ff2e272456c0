---------------------------- MODULE BDriverSched ----------------------------
(***************************************************************************)
(* Schedules of commands that run at the same time.  A turn is what one    *)
(* command does between calls of the back end; the turns taken are         *)
(* recorded, so that the harness can make real processes take them.        *)
(***************************************************************************)
EXTENDS BDriverRun

VARIABLE hist
SchedInit == Init /\ hist = <<>>
Mover == CHOOSE p \in Procs : pr'[p] # pr[p]
SchedNext == Next /\ hist' = IF last = 0 THEN Append(hist, Mover) ELSE hist
MicroNext == Next /\ UNCHANGED hist
SchedSpec == SchedInit /\ [][SchedNext]_<<vars, hist>>

EmitSchedule ==
  Ended => PrintT("END " \o ToJson([n |-> sc.n, hist |-> hist, st |-> [p \in Procs |-> pr[p].st],
                     fs |-> {<<path, fs[path]>> : path \in DOMAIN fs}]))
\* Whatever the schedule, every command ends as it would alone
AsAlone ==
  Ended => \A p \in Procs :
    LET cmd == pr[p].cmd IN
    (Sc.fails = <<>> /\ ~Sc.full /\ ~Sc.fault) =>
      (pr[p].st = "ok" <=>
         /\ ~Rejected(cmd, Before) /\ ~Info(cmd)
         /\ Sc.tmp \/ cmd.save \/ Mode(cmd) = "ll"
         /\ \A i \in DOMAIN cmd.in : Ext(cmd.in[i]) = ".b" => Before[Text(cmd.in[i])][1] = "src"
         /\ \A i \in DOMAIN cmd.in : Writable(Out(cmd, i)))
=============================================================================
