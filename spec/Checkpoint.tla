----------------------------- MODULE Checkpoint -----------------------------
(* Checkpoints of an optimization.  A checkpoint holds the state of the
   algorithm, named by a number; 0 stands for an incomplete file. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES disk,     \* name of a file -> state it holds
          last,     \* name of the file written last by this object, or NoName
          ann,      \* state saved last, 0 if there is none
          writing   \* state being saved now, 0 if there is none
cpVars == <<disk, last, ann, writing>>
NoName == 0
\* a checkpoint is written in each n-th iteration, or with each better result
Due(interval, it, better) == (interval < 0 /\ better) \/ (interval > 0 /\ it % interval = 0)
Held(d) == {d[n] : n \in DOMAIN d}
\* at any time the state announced last - or already the next one - can be loaded
Safe(d) == ann = 0 \/ ann \in Held(d) \/ (writing # 0 /\ writing \in Held(d))
Without(d, n) == [x \in DOMAIN d \ {n} |-> d[x]]
\* what is on disk after a state has been saved under a name
After(d, rem, n, st) == (n :> st) @@ (IF rem /\ last # NoName THEN Without(d, last) ELSE d)
=============================================================================
