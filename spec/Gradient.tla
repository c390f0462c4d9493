------------------------------ MODULE Gradient ------------------------------
(* Gradient descent: starting points, probes, steps; positions and fitness values
   are integers, lower fitness is better. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* how values outside of the range lo..hi show: mirrored at the boundaries
Fold(x, lo, hi) == LET r == hi - lo  y == (x - lo) % (2 * r) IN IF y <= r THEN lo + y ELSE lo + ((2 * r) - y)
\* where the probe for x may be: one step up, or down if this would leave the range
ProbesOf(x, h, lo, hi, free) == IF free \/ x + h < hi THEN {x + h} ELSE IF x + h = hi THEN {x + h, x - h} ELSE {x - h}
Sign(x, p) == IF p > x THEN 1 ELSE -1
\* one component of the next starting point; p, fp: probe and its fitness; f: that of the starting point
Target(x, f, p, fp, num, den) == x - (Sign(x, p) * (num * (fp - f))) \div den
Stepped(x, lo, hi, free) == IF free THEN x ELSE Fold(x, lo, hi)
=============================================================================
