-------------------------------- MODULE MCScan ------------------------------
(* The scan as the library carries it out: a counter with one digit per parameter, the first
   one running fastest; a batch is filled from it until the counter overflows.  The points
   requested (a set) are what the trace specification knows of; Inv relates the two. *)
EXTENDS Scan, TLC
CONSTANTS Sizes,   \* possible numbers of grid values of each parameter (a set of sequences)
          Pops     \* possible population sizes
VARIABLES n, pop, digit, left, seen, halt, batches
vars == <<n, pop, digit, left, seen, halt, batches>>
RECURSIVE Points(_)
Points(s) == IF s = << >> THEN {<< >>} ELSE {Append(p, k) : p \in Points(SubSeq(s, 1, Len(s) - 1)), k \in 1..s[Len(s)]}
RECURSIVE Step(_, _, _)   \* the counter after one step, and whether it has overflowed
Step(d, s, i) == IF i > Len(s) THEN <<d, TRUE>> ELSE IF d[i] < s[i] THEN <<[d EXCEPT ![i] = @ + 1], FALSE>> ELSE Step([d EXCEPT ![i] = 1], s, i + 1)
RECURSIVE Fill(_, _, _)   \* the points of the next batch, the counter afterwards, and whether the end was reached
Fill(d, s, room) ==
  LET x == Step(d, s, 1) IN
  IF x[2] \/ room = 1 THEN <<{d}, x[1], x[2], 1>>
  ELSE LET y == Fill(x[1], s, room - 1) IN <<{d} \cup y[1], y[2], y[3], y[4] + 1>>
Size(s) == Cardinality(Points(s))
Init == /\ n \in Sizes /\ pop \in Pops /\ digit = [i \in 1..Len(n) |-> 1]
        /\ left = Points(n) /\ seen = 0 /\ halt = FALSE /\ batches = 0
Iteration ==
  /\ ~halt
  /\ \E f \in {Fill(digit, n, pop)} :
       /\ Assert(f[1] \subseteq left, "a point is evaluated twice")
       /\ Assert(Cardinality(f[1]) = f[4], "a point is twice in a batch")
       /\ f[4] = Batch(Cardinality(left), pop)
       /\ left' = left \ f[1] /\ digit' = f[2] /\ halt' = f[3] /\ seen' = seen + f[4] /\ batches' = batches + 1
  /\ UNCHANGED <<n, pop>>
\* the next run starts from the first point again
Again == halt /\ halt' = FALSE /\ left' = Points(n) /\ seen' = 0 /\ batches' = 0 /\ UNCHANGED <<n, pop, digit>>
Next == Iteration \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Iteration)
Inv == /\ halt <=> left = {}
       /\ seen + Cardinality(left) = Size(n)
       /\ (halt => batches = (Size(n) + pop - 1) \div pop /\ digit = [i \in 1..Len(n) |-> 1])
Ends == [](~halt => <>halt)
\* never stuck: a batch as large as it has to be is always possible
Alive == ENABLED Next
MCSizes == {<<a>> : a \in 1..5} \cup {<<a, b>> : a \in 1..4, b \in 1..4} \cup {<<a, b, c>> : a \in 1..3, b \in 1..3, c \in 1..3} \cup {<<2, 1, 3, 2>>, <<1, 1, 1, 1>>, <<2, 2, 2, 2>>}
MCPops == 1..9
=============================================================================
