-------------------------------- MODULE Scan --------------------------------
(* Parameter scans: the points of a grid are evaluated in batches until none is left. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
\* the k-th of n values from lo to hi
GridValue(lo, hi, n, k) == IF n = 1 THEN lo ELSE lo + (((hi - lo) * (k - 1)) \div (n - 1))
\* the numbers k of the grid values that a value v, known up to tol, may stand for
IndexOf(lo, hi, n, v, tol) == {k \in 1..n : v - GridValue(lo, hi, n, k) <= tol /\ GridValue(lo, hi, n, k) - v <= tol}
Batch(left, size) == IF left < size THEN left ELSE size
=============================================================================
