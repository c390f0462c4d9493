---------------------------- MODULE MCCheckpoint ----------------------------
(* An optimization which writes checkpoints, may be started again with the same
   object, may be interrupted at any moment and is then resumed from the newest
   complete file.  Files are named by iteration and best fitness, as names may
   appear again in another run. *)
EXTENDS Checkpoint
CONSTANTS Iters, Fits, Runs, Crashes, Intervals
VARIABLES it, best, better, run, crash, step, tmp, name, seq, itOf, Rem, Interval
vars == <<disk, last, ann, writing, it, best, better, run, crash, step, tmp, name, seq, itOf, Rem, Interval>>
Worst == 100
Init == /\ disk = << >> /\ last = NoName /\ ann = 0 /\ writing = 0 /\ it = 0 /\ best = Worst /\ better = FALSE /\ run = 1 /\ crash = 0 /\ step = "cycle" /\ tmp = 0 /\ name = NoName /\ seq = 0 /\ itOf = << >> /\ Rem \in BOOLEAN /\ Interval \in Intervals
Cycle == /\ step = "cycle" /\ it < Iters
         /\ \E f \in Fits : better' = (f < best) /\ best' = (IF f < best THEN f ELSE best)
         /\ step' = "check" /\ UNCHANGED <<disk, last, ann, writing, it, run, crash, tmp, name, seq, itOf>>
Check == /\ step = "check"
         /\ (IF Due(Interval, it, better)
             THEN /\ seq' = seq + 1 /\ writing' = seq + 1 /\ name' = (it * 1000) + best + 1 /\ step' = "write" /\ itOf' = Append(itOf, it) /\ it' = it
             ELSE step' = "cycle" /\ it' = it + 1 /\ UNCHANGED <<seq, writing, name, itOf>>)
         /\ UNCHANGED <<disk, last, ann, best, better, run, crash, tmp>>
Write == step = "write" /\ tmp' = writing /\ step' = "rename" /\ UNCHANGED <<disk, last, ann, writing, it, best, better, run, crash, name, seq, itOf>>
Rename == step = "rename" /\ disk' = (name :> tmp) @@ disk /\ tmp' = 0 /\ step' = "remove" /\ UNCHANGED <<last, ann, writing, it, best, better, run, crash, name, seq, itOf>>
Remove == /\ step = "remove"
          /\ disk' = (IF Rem /\ last # NoName /\ last # name THEN Without(disk, last) ELSE disk)
          /\ last' = name /\ ann' = writing /\ writing' = 0 /\ it' = it + 1 /\ step' = "cycle"
          /\ UNCHANGED <<best, better, run, crash, tmp, name, seq, itOf>>
Again == step = "cycle" /\ it = Iters /\ run < Runs /\ run' = run + 1 /\ it' = 0 /\ best' = Worst /\ UNCHANGED <<disk, last, ann, writing, better, crash, step, tmp, name, seq, itOf>>
\* the newest complete file is loaded; the object remembers the file written before it
Newest(d) == CHOOSE n \in DOMAIN d : \A m \in DOMAIN d : d[m] <= d[n]
Interrupted ==
  /\ crash < Crashes /\ DOMAIN disk # {} /\ crash' = crash + 1
  /\ \E n \in {Newest(disk)} : it' = itOf[disk[n]] + 1 /\ best' = Worst /\ last' = NoName /\ ann' = disk[n]
  /\ writing' = 0 /\ tmp' = 0 /\ step' = "cycle" /\ UNCHANGED <<disk, better, run, name, seq, itOf>>
Next == (Cycle \/ Check \/ Write \/ Rename \/ Remove \/ Again \/ Interrupted) /\ UNCHANGED <<Rem, Interval>>
Spec == Init /\ [][Next]_vars
Loadable == Safe(disk)
Complete == 0 \notin Held(disk)
\* an interrupted run never falls back behind the state announced last, and continues with the iteration after it
Onwards == [][crash' > crash => ann' >= ann /\ it' = itOf[ann'] + 1]_vars
\* only the newest file is kept if the others are to be removed
Tidy == Rem /\ crash = 0 /\ step = "cycle" => Cardinality(DOMAIN disk) <= 1
All == {-1, 1, 2, 3}
=============================================================================
