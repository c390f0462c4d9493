----------------------------- MODULE MCGradient -----------------------------
(* Gradient descent of several starting points in two dimensions over all fitness
   landscapes on a small grid. *)
EXTENDS Gradient
CONSTANTS Size, Values, Points, Dims
VARIABLES land,   \* fitness of each grid point
          par,    \* the starting points
          moved   \* the step just made: from which points
vars == <<land, par, moved>>
Grid == [1..Dims -> 0..Size]
Init == land \in [Grid -> Values] /\ par \in [1..Points -> Grid] /\ moved = par
Probe(x, j) == [x EXCEPT ![j] = CHOOSE p \in ProbesOf(x[j], 1, 0, Size, FALSE) : TRUE]
To(x) == [j \in 1..Dims |-> Stepped(Target(x[j], land[x], Probe(x, j)[j], land[Probe(x, j)], 1, 1), 0, Size, FALSE)]
Next == /\ par' = [i \in 1..Points |-> To(par[i])] /\ moved' = par /\ UNCHANGED land
Spec == Init /\ [][Next]_vars
InRange == \A i \in 1..Points : par[i] \in Grid
OneProbePerDimension == \A i \in 1..Points : \A j \in 1..Dims : Probe(par[i], j) \in Grid /\ Probe(par[i], j)[j] # par[i][j] /\ \A k \in (1..Dims) \ {j} : Probe(par[i], j)[k] = par[i][k]
\* on a slope that is the same everywhere in a direction the step goes downhill, or is reflected at the boundary
Slope(j) == {land[[x EXCEPT ![j] = x[j] + 1]] - land[x] : x \in {y \in Grid : y[j] < Size}}
Downhill == \A i \in 1..Points : \A j \in 1..Dims : \A s \in Values : Slope(j) = {s} =>
              par[i][j] = Fold(moved[i][j] - s, 0, Size) \/ par = moved
Flat == \A i \in 1..Points : \A j \in 1..Dims : Slope(j) = {0} => par[i][j] = moved[i][j]
\* what happens to one point does not depend on the others
Alone == [][\A i \in 1..Points : par'[i] = To(par[i])]_vars
=============================================================================
